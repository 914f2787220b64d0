"""Records: attributes and items agree; copies and pickles are faithful."""
import copy
import pickle
from decimal import Decimal as D

from wlmon import core, wire

NAMES = ['temperature_outside', 'wind_speed', 'date', 'x', '_private', 'rain_total', 'Humidity', 'n1', 'a_very_long_name_of_a_reading']


def new_value(rng):
	return rng.choice((None, 0, 1, D('0.0'), D('-3.5'), '', 'N', b'', [1, 2], {'a': [1]}, wire.random_date(rng), True))


class CHECK(core.Check):
	id = 'C35'
	rule = (
		'Random sequences of attribute and item reads, writes, deletions and updates on every record class, against a plain '
		'dictionary; copies, deep copies and pickles at every protocol, of built and of decoded records. Non-trivial: a '
		'distinct sequence.'
	)
	required = ('attribute_read', 'item_read', 'attribute_written', 'item_written', 'class_name_written', 'missing', 'copied', 'deep_copied', 'pickled', 'decoded')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'sequence', 600, 12000):
			yield c
		for c in self.seeded(tier, seed, 'decoded', 100, 1000):
			yield c

	def make(self, rng, m):
		import weatherlink.models as models
		kind = rng.randrange(5)
		if kind == 0:
			return models.RecordDict(), {}
		if kind == 1:
			content = dict((n, new_value(rng)) for n in NAMES if rng.random() < 0.4)
			return models.RecordDict(content), dict(content)
		if kind == 2:
			content = dict((n, new_value(rng)) for n in NAMES if rng.random() < 0.4)
			return models.ArchiveIntervalRecord(**content), dict(content)
		if kind == 3:
			return models.DayIndex(3, 7), {'record_count': 3, 'start_index': 7}
		days = [1]
		return models.Header(b'v', 2, days), {'version_code': b'v', 'record_count': 2, 'day_indexes': days}

	def agree(self, m, record, model):
		m.equal(dict(record), model, 'content')
		m.equal(len(record), len(model), 'length')
		for name in set(NAMES) | set(model):
			if name in model:
				m.check(record[name] is model[name], 'item', name=name)
				m.check(getattr(record, name) is model[name], 'attribute', name=name)
				m.check(hasattr(record, name) and name in record and record.get(name, 5) is model[name], 'presence', name=name)
				m.event('attribute_read')
				m.event('item_read')
			else:
				m.check(isinstance(m.call(getattr, record, name).exception, AttributeError), 'a missing attribute', name=name,
						outcome=m.call(getattr, record, name))
				m.check(isinstance(m.call(lambda: record[name]).exception, KeyError), 'a missing item', name=name)
				m.check(m.returns('hasattr', hasattr, record, name) is False, 'hasattr of a missing attribute', name=name)
				m.check(m.returns('getattr', getattr, record, name, 9) == 9, 'getattr of a missing attribute', name=name)
				m.check(name not in record and record.get(name, 5) == 5, 'get of a missing item', name=name)
				m.event('missing')

	def copies(self, m, record, rng):
		content = dict(record)
		for what, make in [('copied', copy.copy), ('deep_copied', copy.deepcopy)] + [
			('pickled', lambda r, p=p: pickle.loads(pickle.dumps(r, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)
		]:
			twin = m.returns(what, make, record)
			m.check(type(twin) is type(record), '%s: another type' % what, got=type(twin))
			m.check(twin == record and dict(twin) == content, '%s: different' % what, got=twin, expected=content)
			for name in content:
				if isinstance(name, str) and not hasattr(dict, name):
					m.check(getattr(twin, name) == content[name], '%s: attribute differs' % what, name=name)
			twin.added_later = 1
			twin['added_too'] = 2
			m.equal(dict(record), content, '%s: the original changed' % what)
			if what == 'deep_copied':
				for name in content:
					if isinstance(content[name], (list, dict)) and content[name]:
						m.check(twin[name] is not record[name], 'a deep copy shares a value', name=name)
			m.event(what)

	def run(self, case, m):
		import io
		import weatherlink.models as models
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'decoded':
			date = wire.random_date(rng)
			raw = wire.random_raw(wire.DOWNLOAD, rng)
			record = m.returns('decoding', models.ArchiveIntervalRecord.load_from_download, io.BytesIO(wire.encode_download(raw, date, rng)), 5)
			self.agree(m, record, dict(record))
			self.copies(m, record, rng)
			m.event('decoded')
			m.nontrivial(sorted(raw.items()))
			return
		record, model = self.make(rng, m)
		self.agree(m, record, model)
		trail = []
		# Names that the class has itself: their attributes are the class's, but writing one still writes the item
		own = [n for n in dir(type(record)) if not n.startswith('_') and not hasattr(dict, n) and not callable(getattr(type(record), n))]
		for name in rng.sample(own, min(len(own), rng.randrange(3))) + ([rng.choice(('copy', 'fromkeys'))] if rng.random() < 0.3 else []):
			value = new_value(rng)
			m.returns('setting an attribute of a name of the class', setattr, record, name, value)
			m.check(name in record and record[name] is value, 'an attribute was written past the items', name=name, record=dict(record))
			del record[name]
			m.check(name not in record, 'an item was not deleted', name=name)
			m.event('class_name_written')
		for _ in range(rng.randint(1, 12)):
			name, value, op = rng.choice(NAMES), new_value(rng), rng.randrange(6)
			trail.append((op, name, core.short(value)))
			if op in (0, 1):
				m.returns('setting an attribute', setattr, record, name, value)
				model[name] = value
				m.event('attribute_written')
			elif op == 2:
				record[name] = value
				model[name] = value
				m.event('item_written')
			elif op == 3:
				record.update({name: value})
				model[name] = value
			elif op == 4:
				m.equal(record.pop(name, 4), model.pop(name, 4), 'pop')
			elif op == 5 and name in model:
				del record[name]
				del model[name]
			self.agree(m, record, model)
		self.copies(m, record, rng)
		m.nontrivial((type(record).__name__, trail))
		m.sample([type(record).__name__, trail[:4]])

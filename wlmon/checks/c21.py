"""Derived record values over every subset of present readings."""
import copy
from decimal import Decimal as D

from wlmon import core, derive

READINGS = (
	'wind_speed', 'wind_speed_high', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'temperature_outside',
	'temperature_outside_low', 'temperature_outside_high', 'temperature_inside', 'solar_radiation', 'solar_radiation_high',
)


def readings(rng):
	base = rng.choice((0, rng.randint(-400, 1150), rng.randint(680, 1000), rng.randint(-100, 420)))
	spread = rng.choice((0, 3, 40, 120))
	tenths = lambda x: D(x) / 10
	wind = rng.choice((0, 1, rng.randint(0, 60)))
	sun = rng.choice((0, rng.randint(0, 1200)))
	return {
		'temperature_outside': tenths(base), 'temperature_outside_low': tenths(base - rng.randint(0, spread)),
		'temperature_outside_high': tenths(base + rng.randint(0, spread)), 'temperature_inside': tenths(rng.choice((0, rng.randint(300, 1100)))),
		'humidity_outside': rng.choice((rng.randint(1, 100), tenths(rng.randint(10, 1000)))), 'humidity_inside': rng.randint(1, 100),
		'barometric_pressure': D(rng.randint(25000, 33000)) / 1000, 'wind_speed': D(wind) if rng.random() < 0.7 else tenths(wind * 10 + rng.randint(0, 9)),
		'wind_speed_high': D(wind + rng.randint(0, 30)), 'solar_radiation': sun, 'solar_radiation_high': sun + rng.randint(0, 200),
	}


class CHECK(core.Check):
	id = 'C21'
	rule = (
		'All 2048 subsets of the eleven readings, absent as None or as a missing key, with values around zero, 40, 70 and 80 '
		'degrees, as plain dictionaries and as records. Non-trivial: a distinct subset with its values.'
	)
	required = ('subset', 'zero_temperature', 'calm', 'dark', 'plain_dict', 'record', 'ordered')

	def cases(self, tier, seed):
		for i in range(2048):
			yield {'kind': 'subset', 'mask': i, 'seed': '%s/%s/%d' % (self.id, seed, i)}
		for c in self.seeded(tier, seed, 'values', 1500, 40000):
			yield c

	def run(self, case, m):
		import weatherlink.models as models
		import weatherlink.utils as utils
		rng = core.rng_for(case['seed'])
		values = readings(rng)
		mask = case['mask'] if case['kind'] == 'subset' else 2047 & ~sum(1 << rng.randrange(11) for _ in range(rng.randrange(3)))
		present = [r for i, r in enumerate(READINGS) if mask >> i & 1]
		content = {'minutes_covered': rng.choice((1, 5, 10, 15, 30, 60, 120))}
		for r in READINGS:
			if r in present:
				content[r] = values[r]
			elif rng.random() < 0.6:
				content[r] = None
		record = content if rng.random() < 0.3 else models.ArchiveIntervalRecord(**content)
		m.event('plain_dict' if record is content else 'record')
		before = copy.deepcopy(dict(record))
		got = m.returns('calculate_all_record_values', utils.calculate_all_record_values, record)
		m.equal(dict(record), before, 'the record was changed')
		m.check(set(k for k in got if got[k] is not None) <= set(derive.DERIVED), 'an unknown derived value', got=sorted(got))
		want = derive.compare(m, got, before, 'derived')
		again = m.returns('calculate_all_record_values', utils.calculate_all_record_values, record)
		m.equal(again, got, 'a second calculation differs')
		for name in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
			if all(got.get(name + s) is not None for s in ('', '_low', '_high')):
				m.check(got[name + '_low'] <= got[name] <= got[name + '_high'], '%s: not between its extremes' % name, got=got, record=before)
				m.event('ordered')
		m.event('subset')
		if any(before.get(r) == 0 for r in READINGS if r.startswith('temperature')):
			m.event('zero_temperature')
		if before.get('wind_speed') == 0:
			m.event('calm')
		if before.get('solar_radiation') == 0:
			m.event('dark')
		for name in want:
			m.seen('derived value', name)
		m.nontrivial(sorted((k, str(v)) for k, v in before.items()))
		m.sample(dict((k, str(v)) for k, v in before.items()))

"""Searching for rain events again and again: always the events of the records so far."""
import datetime

from wlmon import core, mysqld, rain, stored, wire


class CHECK(core.Check):
	id = 'C29'
	rule = (
		'Generated histories whose records arrive in chunks of one to many, with a search after each chunk (by the same '
		'exporter that stored them, or by a new connection), repeated searches, and searches that fail at a random '
		'statement or lose the connection. Non-trivial: a distinct history and chunking.'
	)
	required = ('search', 'nothing_new', 'ongoing_completed', 'ongoing_continued', 'interrupted', 'one_record_at_a_time', 'same_connection')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'chunks', 120, 3000):
			yield c
		for c in self.seeded(tier, seed, 'single', 40, 800):
			yield c
		for c in self.seeded(tier, seed, 'exported', 30, 600):
			yield c
		for c in self.seeded(tier, seed, 'pages', 3, 40):
			yield c

	def chunks(self, rng, kind, rows):
		i = 0
		while i < len(rows):
			n = 1 if kind == 'single' else rng.randint(1000, 1600) if kind == 'pages' else rng.choice((1, 2, 3, rng.randint(1, 30), rng.randint(1, 80)))
			yield rows[i:i + n]
			i += n

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		kind = case['kind']
		if kind == 'pages':
			rows = rain.history(rng, 3500, 1)
		else:
			rows = rain.history(rng, rng.randint(2, 60 if kind == 'single' else 40 if kind == 'exported' else 200))
		with mysqld.Server(case['seed']) as server:
			if kind == 'exported':
				with mysqld.exporter(server) as exporter:
					self.session(case, m, rng, server, rows, exporter)
				m.event('same_connection')
			else:
				self.session(case, m, rng, server, rows, None)
		if kind == 'single':
			m.event('one_record_at_a_time')
		m.nontrivial((case['seed'], repr(rows)))
		m.sample({'records': len(rows), 'events': len(rain.events(rows))})

	def export(self, m, rng, exporter, row):
		"""The record through the real decoder and exporter; the row as stored."""
		raw = wire.plausible_raw(wire.DOWNLOAD, rng)
		raw['rain_amount_clicks'], raw['rain_rate_clicks'] = int(row[1] * 100) or (1 if row[1] else 0), int(row[2] * 100)
		record, readings = stored.make_download(rng, date=row[0], minutes=5, raw=raw)
		m.returns('export_record', exporter.export_record, record)
		return row[0], rain.D(raw['rain_amount_clicks']) / 100, rain.D(raw['rain_rate_clicks']) / 100

	def session(self, case, m, rng, server, rows, exporter):
		arrived = []
		faults = rng.random() < 0.5 and exporter is None
		for chunk in self.chunks(rng, case['kind'], rows):
			if exporter:
				arrived += [self.export(m, rng, exporter, r) for r in chunk]
			else:
				rain.insert(rng, server, chunk)
				arrived += chunk
			wanted = rain.events(arrived)
			if faults and rng.random() < 0.5:
				self.interrupted(m, rng, server, arrived)
			self.search(m, rng, server, exporter, wanted)
			if rng.random() < 0.2:
				self.search(m, rng, server, exporter, wanted, True)
		self.search(m, rng, server, exporter, rain.events(arrived))

	def search(self, m, rng, server, exporter, wanted, again=False):
		before = server.rows(rain.TABLE)
		ended = set(r['timestamp_start'] for r in before if r['timestamp_end'])
		open_ = set(r['timestamp_start'] for r in before if not r['timestamp_end'])
		if exporter:
			got = m.returns('find_new_rain_events', exporter.find_new_rain_events)
		else:
			with mysqld.exporter(server) as e:
				got = m.returns('find_new_rain_events', e.find_new_rain_events)
		after = server.rows(rain.TABLE)
		rain.check(m, after, wanted, 'after a search')
		now = set(e['start'] for e in wanted if e['end'])
		m.equal(tuple(got), (len(now - ended), sum(1 for e in wanted if not e['end'])), 'numbers of finished and ongoing events', before=before)
		for r in before:
			m.check(any(a['timestamp_start'] == r['timestamp_start'] for a in after), 'an event is gone', event=r)
		m.event('search')
		if open_ & now:
			m.event('ongoing_completed')
		if open_ - now:
			m.event('ongoing_continued')
		if before == after:
			m.event('nothing_new')
		if again:
			m.equal(after, before, 'searching again without new records changed the events')

	def interrupted(self, m, rng, server, arrived):
		"""A search that fails somewhere; what it left must be a part of the truth."""
		fault = mysqld.Fault(server.statements + rng.randint(1, 12), rng.choice(('error', 'deadlock', 'drop', 'drop_after', 'drop_rows')))
		server.faults = [fault]
		with mysqld.exporter(server) as e:
			outcome = m.call(e.find_new_rain_events)
		server.settle()
		server.faults = []
		m.check(outcome.ok is not fault.fired, 'a database failure went unnoticed', outcome=outcome, kind=fault.kind)
		if fault.fired:
			m.event('interrupted')
			m.seen('interruption', fault.kind)

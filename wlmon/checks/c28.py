"""Rain events: a partition of the recorded rain, with exact totals, rates and ends."""
from wlmon import core, mysqld, rain


class CHECK(core.Check):
	id = 'C28'
	rule = (
		'Generated histories of 0 to 300 records (some of more than 1440, some with one event longer than that) at intervals '
		'of 1 to 120 minutes, with dry spells just below, at and above three hours, missing records and rates that tie, '
		'searched once by the real exporter. Non-trivial: a distinct history.'
	)
	required = ('finished', 'ongoing', 'no_rain', 'gap_of_three_hours', 'gap_just_over', 'long_history', 'event_of_many_pages', 'rate_tied', 'zero_rate')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'history', 260, 6000):
			yield c
		for c in self.seeded(tier, seed, 'long', 6, 100):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'long':
			rows = rain.history(rng, rng.choice((1500, 3000)), 1)
			if rng.random() < 0.7:
				# One event over several pages, ending just where a page ends
				n = rng.choice((1440, 1441, 1439, 2880, 2881, 2000))
				rows = [(at, t if i < n and i % 100 == 0 and t else (rain.D(1) / 100 if i < n and i % 100 == 0 else rain.D(0)), rate)
						for i, (at, t, rate) in enumerate(self.regular(rng, 3300))]
				m.event('event_of_many_pages')
			m.event('long_history')
		else:
			rows = rain.history(rng, rng.choice((0, 1, 2, 5, rng.randint(0, 60), rng.randint(0, 300))))
			if rng.random() < 0.1:
				rows = [(at, rain.D(0), rate) for at, _, rate in rows]
		wanted = rain.events(rows)
		with mysqld.Server(case['seed']) as server:
			rain.insert(rng, server, rows)
			archive = server.rows()
			with mysqld.exporter(server) as exporter:
				got = m.returns('find_new_rain_events', exporter.find_new_rain_events)
			stored = server.rows(rain.TABLE)
			m.equal(server.rows(), archive, 'the search changed the archive records')
			m.event('statement', server.statements)
		rain.check(m, stored, wanted, 'one search')
		finished = sum(1 for e in wanted if e['end'])
		m.equal(tuple(got), (finished, len(wanted) - finished), 'numbers of finished and ongoing events')
		self.conserve(m, rows, stored)
		m.event('finished', finished)
		m.event('ongoing', len(wanted) - finished)
		if not wanted:
			m.event('no_rain')
		for e in wanted:
			if e['rates'].count(e['high']) > 1:
				m.event('rate_tied')
			if not e['high']:
				m.event('zero_rate')
		wet = sorted(r[0] for r in rows if r[1])
		for a, b in zip(wet, wet[1:]):
			if b - a == rain.THREE_HOURS:
				m.event('gap_of_three_hours')
			elif rain.THREE_HOURS < b - a < rain.THREE_HOURS * 2:
				m.event('gap_just_over')
		m.seen('events in a history', len(wanted))
		m.nontrivial(repr(rows))
		m.sample({'records': len(rows), 'events': [[str(e['start']), str(e['end']), str(e['total'])] for e in wanted[:3]]})

	def regular(self, rng, count):
		start = rain.history(rng, 1, 1)[0][0]
		return [(start + rain.datetime.timedelta(minutes=i), rain.D(0), rain.D(rng.randrange(300)) / 100) for i in range(count)]

	def conserve(self, m, rows, stored):
		"""Whatever the rules: every bit of rain is in exactly one event."""
		m.equal(sum(r['rain_total'] for r in stored), sum(t for _, t, _ in rows), 'rain in all events together')
		recorded = max((r[0] for r in rows), default=None)
		spans = sorted((r['timestamp_start'], r['timestamp_end'] or recorded) for r in stored)
		for (a, b), (c, d) in zip(spans, spans[1:]):
			m.check(b < c, 'two events overlap', first=(a, b), second=(c, d))
		for at, total, _ in rows:
			if total:
				m.check(sum(1 for a, b in spans if a <= at <= b) == 1, 'rain that is not in exactly one event', at=at, spans=spans)

"""Absent sensors, end to end: absent stays absent in the database and in uploads, present stays present."""
from wlmon import core, httpsim, mysqld, stored, uploads, wire
from wlmon.checks import c32

ZERO_FIELDS = {'download': wire.DOWNLOAD, 'month_file': wire.WLK, 'live': wire.LOOP2}


def markable(fields):
	return [f for f in sorted(fields) if wire.dash_of(fields, f) is not None and f not in ('number_of_wind_samples', 'minute_in_hour')]


class CHECK(core.Check):
	id = 'C06'
	rule = (
		'For each of the three formats: every sensor absent alone, every sensor present alone, every sensor reading zero, '
		'every pair of sensors absent, and random subsets; each record is decoded, stored in the simulated database and '
		'uploaded. Non-trivial: a distinct record whose row or upload was judged.'
	)
	required = ('stored', 'uploaded', 'absent', 'zero_stored', 'zero_uploaded', 'not_derived')

	def cases(self, tier, seed):
		rounds = 1 if tier == 'quick' else 12
		for r in range(rounds):
			for source in sorted(ZERO_FIELDS):
				names = markable(ZERO_FIELDS[source])
				for mode in ('absent', 'present', 'zero'):
					for part in range(2):
						yield {'kind': 'each', 'source': source, 'mode': mode, 'part': part, 'seed': '%s/%d' % (seed, r)}
				for name in names:
					yield {'kind': 'pairs', 'source': source, 'field': name, 'seed': '%s/%d' % (seed, r)}
		for source in sorted(ZERO_FIELDS):
			for c in self.seeded(tier, seed, 'random', 30, 600, source=source):
				c['seed'] += source
				yield c

	def raws(self, case, rng):
		"""(what, raw readings) to try."""
		fields = ZERO_FIELDS[case['source']]
		names = markable(fields)
		if case['kind'] == 'each':
			for name in names[case['part']::2]:
				if case['mode'] == 'absent':
					yield wire.plausible_raw(fields, rng, 0, [name])
				elif case['mode'] == 'present':
					yield wire.plausible_raw(fields, rng, 0, [n for n in names if n != name])
				else:
					raw = wire.plausible_raw(fields, rng, 0)
					if fields[name][2](0) is not None:
						raw[name] = 0
					yield raw
			if case['mode'] == 'absent':
				yield wire.plausible_raw(fields, rng, 0, names)
		elif case['kind'] == 'pairs':
			for name in names:
				if name > case['field']:
					yield wire.plausible_raw(fields, rng, 0, [name, case['field']])
		else:
			for _ in range(10):
				raw = wire.plausible_raw(fields, rng, rng.choice((0.1, 0.3, 0.5, 0.8)))
				if rng.random() < 0.4:
					for name in rng.sample(names, rng.randint(1, 5)):
						if fields[name][2](0) is not None:
							raw[name] = 0
				yield raw

	def run(self, case, m):
		rng = core.rng_for(case['seed'], *sorted(str(v) for v in case.values()))
		if case['source'] == 'live':
			for raw in self.raws(case, rng):
				self.live(m, rng, raw)
			return
		make = stored.make_download if case['source'] == 'download' else stored.make_wlk
		with mysqld.Server(case['seed']) as server:
			with mysqld.exporter(server) as exporter:
				dates = set()
				for raw in self.raws(case, rng):
					date = wire.random_date(rng)
					while date in dates:
						date = wire.random_date(rng)
					dates.add(date)
					record, readings = make(rng, date=date, raw=raw)
					self.store(m, server, exporter, record, readings)
					self.simple(m, rng, record, readings)

	def store(self, m, server, exporter, record, readings):
		expected = stored.Expected(readings)
		outcome = m.call(exporter.export_record, record)
		if not outcome.ok:
			m.check(expected.fits is not True, 'exporting a record failed', outcome=outcome, record=dict(record), errors=server.errors[-1:])
			return
		row = max(server.rows(), key=lambda r: r['record_id'])
		expected.check(m, row, 'stored row')
		m.event('stored')
		m.event('absent', sum(1 for c in expected.keys if row[c] is None and readings.get(expected.keys[c], 1) is None))
		m.event('zero_stored', sum(1 for c, v in expected.columns.items() if c in expected.keys and v == 0))
		m.event('not_derived', sum(1 for c in expected.keys if c == expected.keys[c] and c not in readings and row[c] is None))
		m.nontrivial(sorted((k, str(v)) for k, v in row.items() if k != 'record_id'))
		m.seen('absent readings stored', ','.join(sorted(k for k, v in readings.items() if v is None)))

	def send(self, m, function, record):
		with httpsim.Transport(lambda request: httpsim.message(headers=[('Content-Type', 'text/plain')], body=b'success')) as transport:
			m.returns('sending an update', function, record)
		m.equal(len(transport.requests), 1, 'number of requests')
		m.event('uploaded')
		m.nontrivial(transport.requests[0].url)
		m.sample({'url': transport.requests[0].url})
		return transport.requests[0]

	def simple(self, m, rng, record, readings):
		from weatherlink.exporter.wunderground import WundergroundExporter
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KTNX', 'pw')
		exporter.station_time_zone = 'UTC'
		expected = uploads.simple(readings)
		uploads.check(m, self.send(m, exporter.send_simple_update, record), uploads.SIMPLE_HOST, 'KTNX', 'pw', readings['date'], expected, 'simple update')
		m.event('zero_uploaded', sum(1 for k, v in expected.items() if k != 'dewptf' and v == 0))

	def live(self, m, rng, raw):
		from weatherlink.exporter.wunderground import WundergroundExporter
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KTNX', 'pw')
		exporter.station_time_zone = 'UTC'
		date = wire.random_date(rng)
		record, readings = c32.packet(rng, raw, date)
		window = uploads.Window()
		window.add(readings['wind_speed'], readings['wind_direction_degrees'])
		expected = uploads.rapid(readings)
		m.event('zero_uploaded', sum(1 for v in expected.values() if v == 0))
		expected.update(window.computed())
		uploads.check(m, self.send(m, exporter.send_rapid_update, record), uploads.RAPID_HOST, 'KTNX', 'pw', date, expected, 'rapid update')
		m.event('absent', sum(1 for v in readings.values() if v is None))
		m.seen('absent readings live', ','.join(sorted(k for k, v in readings.items() if v is None)))

"""Download after the newest stored record, export, and again: every record exactly once, whatever interrupts it."""
import datetime
import os
import shutil
import tempfile

from wlmon import core, httpsim, mysqld, service, stored, wire, wlkfile


TURNS = tuple((zone, datetime.datetime(*t)) for zone, t in (
	('America/Chicago', (2016, 3, 13, 2)), ('America/Chicago', (2016, 11, 6, 1)), ('Europe/Berlin', (2017, 3, 26, 2)), ('Europe/Berlin', (2017, 10, 29, 2)),
	('Australia/Lord_Howe', (2017, 4, 2, 1, 30)), ('Australia/Lord_Howe', (2017, 10, 1, 2)), ('Pacific/Apia', (2011, 12, 30)),
))


class Crash(Exception):
	"""The user's program ends here."""


class CHECK(core.Check):
	id = 'C33'
	rule = (
		'A station whose archive grows while cycles of (newest timestamp, download, export) run over the simulated service '
		'and server, starting empty or from an imported month file, with the same or new connections; interruptions: network '
		'errors, cut downloads, failing statements and commits, lost connections, ended programs. Non-trivial: a distinct '
		'history of cycles.'
	)
	required = ('cycle', 'interrupted', 'empty_table', 'imported_first', 'imported_later', 'nothing_new', 'record_stored', 'committed_unknown', 'undated_end', 'clocks_change', 'same_connection')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'history', 80, 3000):
			yield c
		for c in self.seeded(tier, seed, 'imported', 24, 800):
			yield c
		for c in self.seeded(tier, seed, 'imported_later', 16, 600):
			yield c

	def fitting(self, fields, rng, decode):
		while True:
			raw = wire.plausible_raw(fields, rng, rng.choice((0, 0.1)))
			expected = decode(raw)
			if stored.Expected(expected).fits is True:
				return raw, expected

	def station(self, rng, start, span, count):
		"""(date, 52 bytes, readings) of consecutive records."""
		from wlmon.checks.c02 import expected_download
		result, at = [], start
		for _ in range(count):
			at += datetime.timedelta(minutes=span * (1 if rng.random() < 0.95 else rng.randint(2, 500)))
			raw, expected = self.fitting(wire.DOWNLOAD, rng, lambda raw: expected_download(raw, at, span))
			result.append((at, wire.encode_download(raw, at, rng), expected))
		return result

	def month(self, m, rng):
		"""A month file through the real importer: the records and their readings."""
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=0)
		month.days = {}
		for day in sorted(rng.sample(range(1, 28), rng.randint(1, 4))):
			records = []
			for minute in sorted(rng.sample(range(1, 1441), rng.randint(1, 6))):
				nibble = rng.choice(sorted(wire.WLK_COLLECTORS)) << 12

				def decode(raw):
					raw.update(minutes_past_midnight=minute, minutes_covered=rng.choice((1, 5, 30, 60)))
					return wlkfile.expected_record(raw, nibble | 3, month.year, month.month, day)
				records.append((self.fitting(wire.WLK, rng, decode)[0], nibble | 3))
			month.days[day] = (wire.random_raw(wire.SUMMARY, rng, 0.1, 0), records)
		data = month.encode(rng)
		directory = tempfile.mkdtemp(prefix='wlmon-pipe-')
		try:
			path = os.path.join(directory, month.name)
			with open(path, 'wb') as f:
				f.write(data)
			importer = Importer(path)
			m.returns('import_data', importer.import_data)
		finally:
			shutil.rmtree(directory, ignore_errors=True)
		return list(importer.records), [e for _, records in month.expected() for e in records]

	def store(self, m, server, records):
		with mysqld.exporter(server, station_time_zone=self.zone) as exporter:
			for record in records:
				m.returns('exporting an imported record', exporter.export_record, record)

	def run(self, case, m):
		import weatherlink.downloader as module
		rng = core.rng_for(case['seed'])
		span = rng.choice((1, 5, 15, 30, 60))
		with mysqld.Server(case['seed']) as server:
			truth = []
			start = wire.random_date(rng, 2001, 2061)
			waiting = None
			self.zone = rng.choice((None, 'America/Chicago', 'Europe/Berlin', 'Australia/Lord_Howe', 'UTC', 'Pacific/Apia'))
			if rng.random() < 0.4:
				# The hours in which the clocks are changed
				self.zone, start = rng.choice(TURNS)
				start -= datetime.timedelta(minutes=span * rng.randrange(4))
				m.event('clocks_change')
			if case['kind'] != 'history':
				records, readings = self.month(m, rng)
				start = readings[-1]['date']
				if case['kind'] == 'imported':
					truth = readings
					self.store(m, server, records)
					m.event('imported_first')
				else:
					waiting = (rng.randint(1, 6), rng.sample(records, len(records)), readings)
			future = self.station(rng, start, span, rng.randint(1, 40))
			simulated = service.Service(rng, [], span)
			downloader = m.returns('Downloader', module.Downloader, 'user', 'pass', 'token')
			history = []
			self.newest(m, server, truth)
			shared = None
			arrived = 0
			calm = False
			for number in range(60):
				if waiting and number >= waiting[0] and server.rows():
					# Older records come from a file after newer ones were downloaded, in any order
					self.store(m, server, waiting[1])
					truth, waiting = waiting[2], None
					if shared is not None:
						shared.__exit__(None, None, None)
						shared = None
					self.newest(m, server, truth)
					m.event('imported_later')
				new = len(future) - arrived if rng.random() < 0.2 else rng.randint(0, 6)
				arrived = min(len(future), arrived + new)
				simulated.archive = [(date, data) for date, data, _ in future[:arrived]]
				expected = truth + [e for _, _, e in future[:arrived]]
				before = len(server.rows())
				calm = rng.random() < 0.4 or number > 50
				crash = None
				fault = None
				simulated.fail_at = {}
				server.faults = []
				if not calm:
					how = rng.choice(('network', 'cut', 'statement', 'statement', 'crash'))
					if how == 'network':
						simulated.fail_at = {simulated.count + rng.randrange(2): httpsim.connection_error(rng)}
					elif how == 'cut':
						simulated.fail_at = {simulated.count + 1: ('cut', rng.randrange(52 * 7))}
					elif how == 'statement':
						fault = mysqld.Fault(server.statements + rng.randint(1, 12), rng.choice(mysqld.Fault.KINDS))
						server.faults = [fault]
					else:
						crash = rng.randrange(6)
				else:
					how = 'calm'
				if shared is None and calm and rng.random() < 0.3:
					shared = mysqld.exporter(server, station_time_zone=self.zone)
					keep = shared.__enter__()
				if shared is not None:
					outcome = m.call(self.cycle, m, rng, keep, downloader, simulated, crash)
					m.event('same_connection')
					if not outcome.ok or rng.random() < 0.3:
						shared.__exit__(None, None, None)
						shared = None
				else:
					outcome = m.call(self.connected, m, rng, server, downloader, simulated, crash)
				server.settle() if shared is None else None
				server.faults = []
				m.event('cycle')
				history.append((how, arrived, outcome.ok))
				self.state(m, server, expected, before)
				m.check(outcome.ok or not calm, 'an undisturbed cycle failed', outcome=outcome)
				if how == 'crash':
					m.check(outcome.ok or isinstance(outcome.exception, Crash), 'a cycle failed of itself', outcome=outcome)
				if fault:
					m.check(outcome.ok is not fault.fired, 'a database failure went unnoticed', outcome=outcome, fault=vars(fault))
				if not outcome.ok:
					m.event('interrupted')
					if fault and fault.fired and fault.kind == 'drop_after' and len(server.rows()) > before:
						m.event('committed_unknown')
				if calm:
					m.equal(len(server.rows()), len(expected), 'records stored after an undisturbed cycle')
					if len(server.rows()) == before:
						m.event('nothing_new')
				if shared is None:
					self.newest(m, server, expected)
				if arrived == len(future) and calm and not waiting:
					break
			if shared is not None:
				shared.__exit__(None, None, None)
			rows = sorted(server.rows(), key=lambda r: r['timestamp_weatherlink'])
			m.equal(len(rows), len(truth) + len(future), 'records stored in the end')
			for row, e in zip(rows, truth + [e for _, _, e in future]):
				stored.Expected(e).check(m, row, 'stored record')
				m.event('record_stored')
		m.nontrivial((case['seed'], history))
		m.sample({'records': len(rows), 'history': history[:8]})

	def connected(self, m, rng, server, downloader, simulated, crash):
		with mysqld.exporter(server, station_time_zone=self.zone) as exporter:
			self.cycle(m, rng, exporter, downloader, simulated, crash)

	def cycle(self, m, rng, exporter, downloader, simulated, crash):
		"""What a user's program does."""
		from weatherlink.models import convert_timestamp_to_datetime
		newest = exporter.get_newest_timestamp()
		if newest is not None and rng.random() < 0.3:
			newest = convert_timestamp_to_datetime(newest)
		padded = rng.random() < 0.1
		if padded:
			# The service pads its answer with an unused record
			simulated.archive = simulated.archive + [(datetime.datetime(2063, 12, 31), service.undated(rng))]
			m.event('undated_end')
		try:
			with httpsim.Transport(simulated):
				downloader.download(newest or 0)
		finally:
			if padded:
				simulated.archive = simulated.archive[:-1]
		for i, record in enumerate(downloader.records):
			if crash == i:
				raise Crash()
			exporter.export_record(record)

	def newest(self, m, server, expected):
		with mysqld.exporter(server, station_time_zone=self.zone) as exporter:
			got = m.returns('get_newest_timestamp', exporter.get_newest_timestamp)
		rows = server.rows()
		m.equal(got, max(r['timestamp_weatherlink'] for r in rows) if rows else None, 'newest timestamp')
		if not rows:
			m.event('empty_table')

	def state(self, m, server, expected, before):
		"""After anything: the oldest records of the station, each once, without a gap."""
		rows = [r['timestamp_weatherlink'] for r in server.rows()]
		m.check(len(rows) == len(set(rows)), 'a record is stored twice', rows=rows)
		m.check(len(rows) >= before, 'records disappeared')
		m.equal(sorted(rows), [e['timestamp'] for e in expected[:len(rows)]], 'stored records are not the oldest ones of the station')

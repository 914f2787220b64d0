"""Several stations in one program: each behaves as if it were alone, in turn and in parallel."""
import datetime
import io
import os
import shutil
import sys
import tempfile
import threading
import time
from decimal import Decimal

from wlmon import console, core, httpsim, mysqld, service, stored, summary, wire, wlkfile

ZONES = ('America/Chicago', 'Europe/Berlin', 'Australia/Lord_Howe', 'Asia/Kolkata', 'America/St_Johns', 'Pacific/Apia')
OPERATIONS = (
	'download', 'import', 'simple', 'simple', 'rapid', 'rapid', 'rapid', 'rapid', 'export', 'export', 'export', 'newest', 'recalculate', 'rain', 'read', 'write',
	'poll', 'background', 'stop', 'collect', 'collector type',
)
current = threading.local()


def plain(value):
	"""A value as text that tells apart whatever a user could."""
	if isinstance(value, dict):
		return '{%s}' % ', '.join('%s: %s' % (k, plain(value[k])) for k in sorted(value, key=str))
	if isinstance(value, (list, tuple)):
		return '[%s]' % ', '.join(plain(v) for v in value)
	return repr(value)


class Station(object):
	"""One station with everything a program uses for it, and the operations it performs, all decided by its seed."""
	def __init__(self, seed, number, count):
		rng = core.rng_for(seed, number)
		self.seed, self.number = seed, number
		self.zone = ZONES[number % len(ZONES)]
		self.account = 'user%d' % number
		self.memory = bytes(bytearray(rng.randrange(256) for _ in range(4096)))
		self.packets = []
		for i in range(12):
			raw = wire.plausible_raw(wire.LOOP2, rng, 0.1)
			raw['rain_clicks_this_storm'] = 1000 * number + i + 1
			self.packets.append(wire.encode_loop2(raw, 0, rng))
		date = wire.random_date(rng, 2005, 2055)
		self.base = date.replace(hour=0, minute=0)
		self.archive = []
		for i in range(rng.randint(1, 8)):
			date += datetime.timedelta(minutes=30)
			self.archive.append((date, wire.encode_download(wire.plausible_raw(wire.DOWNLOAD, rng, 0.1), date, rng)))
		self.configured = number == 2 or rng.random() < 0.1
		self.operations = [rng.choice(OPERATIONS) for _ in range(count)]
		self.gate = None

	def open(self, stack, m):
		from weatherlink.downloader import Downloader
		from weatherlink.exporter.mysql import MySQLExporter
		from weatherlink.exporter.wunderground import WundergroundExporter
		self.m = m
		self.transport = core.rng_for(self.seed, self.number, 'transport')
		self.service = service.Service(self.transport, self.archive, 10 + self.number)
		self.urls = []
		settings, tables, self.table, rename = {}, None, 'weather_archive_record', {}
		if self.configured:
			from wlmon.checks.c22 import CHECK as exporting
			settings, tables, self.table, rename, _ = exporting().configure(m, core.rng_for(self.seed, self.number, 'configuration'))
		self.timestamp = rename.get('timestamp_station', 'timestamp_station')
		self.server = mysqld.Server('%s/%d' % (self.seed, self.number), tables=tables)
		self.server.__enter__()
		stack.append(self.server)
		self.live_memory = bytearray(self.memory)
		plans = [console.Plan(memory=self.live_memory, packets=self.packets, fragment=core.rng_for(self.seed, self.number, 'fragments', i), delay=0.0002)
				for i in range(1 + len(self.operations))]
		self.console = console.Console(plans)
		self.console.__enter__()
		stack.append(self.console)
		self.poller = console.poller(self.console.port)
		self.downloader = m.returns('Downloader', Downloader, self.account, 'pass%d' % self.number, 'token%d' % self.number)
		self.uploader = m.returns('WundergroundExporter', WundergroundExporter, 'K%d' % self.number, 'secret%d' % self.number)
		self.exporter = m.returns('MySQLExporter', MySQLExporter, self.server.user, self.server.password, self.server.database, self.server.host, self.server.port)
		for k in settings:
			setattr(self.exporter, k, settings[k])
		if self.number % 2:
			self.uploader.station_time_zone = self.zone
			self.exporter.station_time_zone = self.zone
		m.returns('connecting to the console', self.poller.connect)
		m.returns('connecting to the database', self.exporter.connect)
		self.pending = None
		self.minute = 0
		self.kept = []
		self.trace = []

	def handle(self, request):
		self.urls.append(request.url)
		self.wait()
		if 'wunderground' in request.url:
			return httpsim.message(headers=[('Content-Type', 'text/html')], body=b'success')
		return self.service(request)

	def hold(self):
		"""From now on the console, the database and the web services do not answer, until let_go."""
		self.gate = threading.Event()
		self.reached = threading.Event()
		self.pace = threading.Semaphore(0)
		self.server.on_statement = lambda number, sql: self.wait()
		for plan in self.console.plans:
			plan.pace = self.pace
			plan.corrupt = self.wait

	def wait(self, value=None):
		if self.gate is not None:
			self.reached.set()
			if not self.gate.wait(4 * console.WAIT):
				raise core.HarnessError('never let go')
		return value

	def let_go(self):
		self.gate.set()
		for _ in range(100):
			self.pace.release()

	def step(self, i):
		name = self.operations[i]
		rng = core.rng_for(self.seed, self.number, i)
		if self.pending is not None and name in ('read', 'write', 'poll', 'background', 'stop', 'collector type', 'collect'):
			name = 'collect'
		elif name == 'collect':
			name = 'poll'
		current.station = self
		del self.urls[:]
		try:
			value = getattr(self, name.replace(' ', '_'))(rng)
			self.kept.append(value)
			result = 'returned ' + plain(value)
		except (core.HarnessError, core.Violation):
			raise
		except Exception as e:
			result = 'raised %s: %s' % (type(e).__name__, e)
		finally:
			current.station = None
		self.trace.append((name, result, list(self.urls)))
		self.m.event(name)

	def finish(self):
		if self.pending is not None:
			self.trace.append(('collect', plain(self.collect(None)), []))
		# What was returned is still what it was
		self.trace.append(('kept', plain(self.kept), []))
		for table in (self.table, ) + (() if self.configured else ('weather_calculated_summary', 'weather_rain_event')):
			self.trace.append((table, plain(self.server.rows(table)), []))
		self.trace.append(('memory', plain(bytes(self.live_memory)), []))
		self.m.returns('disconnecting from the console', self.poller.disconnect)
		self.m.returns('disconnecting from the database', self.exporter.disconnect)

	# ---- operations
	def download(self, rng):
		self.downloader.download(rng.choice((0, self.archive[0][0], wire.timestamp_of(self.archive[-1][0]))))
		d = self.downloader
		return [d.console_version, d.record_minute_span, d.record_count, d.max_account_records] + list(d.records)

	def import_(self, rng):
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=4)
		directory = tempfile.mkdtemp(prefix='wlmon-side-')
		try:
			path = os.path.join(directory, month.name)
			with open(path, 'wb') as f:
				f.write(month.encode(rng))
			importer = Importer(path)
			importer.import_data()
		finally:
			shutil.rmtree(directory, ignore_errors=True)
		return [importer.year, importer.month, importer.header, list(importer.records), dict(importer.daily_summaries), dict(importer.daily_records)]

	def record(self, rng):
		from weatherlink.models import ArchiveIntervalRecord
		self.minute += rng.choice((1, 5, 30, 300))
		date = self.base + datetime.timedelta(minutes=self.minute)
		raw = wire.plausible_raw(wire.DOWNLOAD, rng, 0.1)
		return ArchiveIntervalRecord.load_from_download(io.BytesIO(wire.encode_download(raw, date, rng)), rng.choice((1, 5, 10)))

	def simple(self, rng):
		record = self.record(rng)
		self.uploader.send_simple_update(record)
		return record

	def rapid(self, rng):
		from weatherlink.models import LoopRecord
		raw = wire.plausible_raw(wire.LOOP2, rng, 0.1)
		record = LoopRecord.load_loop_2_from_connection(io.BytesIO(wire.encode_loop2(raw, 20, rng)))
		record['date'] = wire.random_date(rng)
		self.uploader.send_rapid_update(record)
		return record

	def export(self, rng):
		record = self.record(rng)
		self.exporter.export_record(record)
		return record

	def newest(self, rng):
		return self.exporter.get_newest_timestamp()

	def recalculate(self, rng):
		days = sorted(set(r[self.timestamp].date() for r in self.server.rows(self.table) if r.get(self.timestamp)))
		self.exporter.recalculate_summaries_for_dates([summary.with_time(rng, d) for d in days])
		return None if self.configured else self.server.rows(summary.SUMMARY)

	def rain(self, rng):
		return [self.exporter.find_new_rain_events(), None if self.configured else self.server.rows('weather_rain_event')]

	def read(self, rng):
		n = rng.choice((1, 2, 16, 100))
		return self.poller.read_config_setting('%X' % rng.randrange(3000), '%X' % n)

	def collector_type(self, rng):
		return self.poller.read_rain_collector_type()

	def write(self, rng):
		value = bytes(bytearray(rng.randrange(256) for _ in range(rng.choice((1, 2, 20)))))
		address = '%X' % rng.randrange(3000)
		self.poller.write_config_setting(address, '%X' % len(value), value)
		return [address, self.poller.read_config_setting(address, '%X' % len(value))]

	def poll(self, rng):
		return self.poller.poll(rng.randint(1, 12))

	def background(self, rng):
		n, got, threads = rng.randint(1, 12), [], []

		def callback(packet):
			threads.append(threading.current_thread())
			got.append(packet)
			time.sleep(0.001)
		self.poller.start_background_polling(n, callback)
		self.pending = (n, got, threads)

	def stop(self, rng):
		n, got, threads = rng.randint(1, 6), [], []

		def callback(packet):
			threads.append(threading.current_thread())
			got.append(packet)
			if len(got) == n:
				self.poller.stop_background_polling()
		self.poller.start_background_polling(12, callback)
		self.pending = (n, got, threads)

	def collect(self, rng):
		n, got, threads = self.pending
		console.wait_until(lambda: len(got) >= n or (threads and not threads[0].is_alive()))
		for t in threads[:1]:
			t.join(console.WAIT)
		self.pending = None
		if len(got) < 12:
			# What the console sent before it was told to stop may still be on its way
			self.poller.disconnect()
			self.poller.connect()
		return [len(set(threads)), got]


setattr(Station, 'import', Station.import_)


def handler(request):
	station = getattr(current, 'station', None)
	if station is None:
		raise core.HarnessError('a request outside of an operation')
	return station.handle(request)


def alone(seed, number, steps, m):
	"""What one station's operations did: (operation, result, requested addresses)."""
	station, stack = Station(seed, number, steps), []
	with httpsim.Transport(handler):
		try:
			station.open(stack, m)
			for i in range(steps):
				station.step(i)
			station.finish()
		finally:
			for thing in reversed(stack):
				thing.__exit__(None, None, None)
	return station.trace


class CHECK(core.Check):
	id = 'C38'
	rule = (
		'Two to four stations, each with a console, a database, a download account, an upload account and files of its own, '
		'perform random operations: first each alone, then with the same objects of all stations in turn, then each in a '
		'thread of its own with frequent switches; all results, requests, rows and memories are compared. The same '
		'calculations in one and in eight threads. While an operation of one station waits for its console, its database or '
		'a web service, every operation of another station ends. Non-trivial: a distinct interleaving.'
	)
	required = ('alone', 'interleaved', 'parallel', 'calculated_in_threads', 'not_held_up', 'held_up_finished') + tuple(sorted(set(OPERATIONS)))

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'stations', 40, 1200):
			yield c
		for c in self.seeded(tier, seed, 'calculations', 24, 400):
			yield c
		for c in self.seeded(tier, seed, 'held up', 48, 800):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		interval = sys.getswitchinterval()
		try:
			getattr(self, case['kind'].replace(' ', '_'))(case, m, rng)
		finally:
			sys.setswitchinterval(interval)

	# ---- stations
	def stations(self, case, m, rng):
		count, steps = rng.choice((2, 2, 3, 4)), rng.randint(6, 24)
		order = [i for i in range(count) for _ in range(steps)]
		rng.shuffle(order)

		def make():
			return [Station(case['seed'], i, steps) for i in range(count)]

		runs = {}
		with httpsim.Transport(handler):
			for how in ('alone', 'interleaved', 'parallel'):
				stations, stack = make(), []
				try:
					if how == 'alone':
						for s in stations:
							s.open(stack, m)
							for i in range(steps):
								s.step(i)
							s.finish()
					elif how == 'interleaved':
						for s in stations:
							s.open(stack, m)
						at = [0] * count
						for i in order:
							stations[i].step(at[i])
							at[i] += 1
						for s in stations:
							s.finish()
					else:
						for s in stations:
							s.open(stack, m)
						self.parallel([lambda s=s: [s.step(i) for i in range(steps)] for s in stations])
						for s in stations:
							s.finish()
				finally:
					for thing in reversed(stack):
						thing.__exit__(None, None, None)
				runs[how] = [s.trace for s in stations]
				m.event(how)
		for how in ('interleaved', 'parallel'):
			for i in range(count):
				for number, (a, b) in enumerate(zip(runs['alone'][i], runs[how][i])):
					m.comparisons += 1
					if a != b:
						at = next((k for k, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
						m.fail('a station behaves differently next to others', station=i, step=number, operation=a[0], how=how,
								alone=a[1][max(0, at - 80):at + 120], others=b[1][max(0, at - 80):at + 120], urls_alone=a[2], urls=b[2])
				m.equal(len(runs[how][i]), len(runs['alone'][i]), 'operations performed')
		m.nontrivial((case['seed'], tuple(order)))
		m.seen('stations', count)
		m.sample({'stations': count, 'operations': [t[0] for t in runs['alone'][0]]})

	def parallel(self, functions):
		errors = []
		sys.setswitchinterval(2e-5)

		def body(f):
			try:
				f()
			except BaseException as e:
				errors.append(e)
		threads = [threading.Thread(target=body, args=(f, )) for f in functions]
		for t in threads:
			t.start()
		for t in threads:
			t.join()
		if errors:
			raise errors[0]

	# ---- one station waits for something that does not answer
	def held_up(self, case, m, rng):
		held = rng.choice([o for o in OPERATIONS if o not in ('import', 'collect')])
		other = held if rng.random() < 0.6 else rng.choice(OPERATIONS)
		traces = []
		with httpsim.Transport(handler):
			for hold in (False, True):
				a, b = Station(case['seed'], 0, 4), Station(case['seed'], 1, 4)
				# Something to read from the tables in the last operation
				a.operations = ['export', 'simple', 'rapid', held]
				b.operations = ['export', 'simple', 'rapid', other]
				stack = []
				try:
					for s in (a, b):
						s.open(stack, m)
						for i in range(3):
							s.step(i)
					threads = [threading.Thread(target=self.last, args=(s, )) for s in (a, b)]
					for t in threads:
						t.daemon = True
					if hold:
						a.hold()
					threads[0].start()
					if hold:
						# Most operations wait before long; a live poll just waits for its packets
						console.wait_until(lambda: a.reached.is_set() or a.console.instructions or not threads[0].is_alive())
					else:
						threads[0].join(console.WAIT)
					threads[1].start()
					threads[1].join(console.WAIT)
					m.check(not threads[1].is_alive(), 'an operation does not end while another station is waited for', waiting=held, operation=other)
					if hold:
						if threads[0].is_alive():
							m.event('not_held_up')
							m.seen('waiting, ended', '%s, %s' % (held, other))
						a.let_go()
						threads[0].join(console.WAIT)
						m.check(not threads[0].is_alive(), 'an operation does not end after what it waited for has answered', operation=held)
						m.event('held_up_finished')
					for s in (a, b):
						s.finish()
				finally:
					if a.gate is not None:
						a.let_go()
					for thing in reversed(stack):
						thing.__exit__(None, None, None)
				traces.append([a.trace, b.trace])
		for alone, held_up in zip(*traces):
			m.equal(held_up, alone, 'operations while one waits')
		m.nontrivial(('held up', held, other))

	def last(self, station):
		station.step(3)
		if station.pending is not None:
			station.trace.append(('collect', plain(station.collect(None)), []))

	# ---- calculations
	def calculations(self, case, m, rng):
		tasks = [self.task(rng) for _ in range(60)]

		def compute(task):
			try:
				return plain(task())
			except (core.HarnessError, core.Violation):
				raise
			except Exception as e:
				return 'raised %s: %s' % (type(e).__name__, e)
		expected = [compute(t) for t in tasks]
		m.equal([compute(t) for t in reversed(tasks)][::-1], expected, 'the same calculations in another order')
		results = []

		def work(seed):
			order = list(range(len(tasks)))
			core.rng_for(case['seed'], seed).shuffle(order)
			got = [None] * len(tasks)
			for i in order:
				got[i] = compute(tasks[i])
			results.append(got)
		self.parallel([lambda k=k: work(k) for k in range(8)])
		m.equal(len(results), 8, 'threads that finished')
		for got in results:
			for a, b in zip(expected, got):
				m.check(a == b, 'a calculation gives another value in a thread', alone=a, in_thread=b)
			m.event('calculated_in_threads', len(got))
		m.nontrivial(tuple(expected))

	def task(self, rng):
		"""A function without arguments that calls the code under test with its own data."""
		import weatherlink.models as models
		import weatherlink.utils as utils
		t = Decimal(rng.randint(-400, 1300)) / 10
		h = rng.randint(1, 100)
		w = rng.randint(0, 80)
		p = Decimal(rng.randint(25000, 33000)) / 1000
		how = rng.randrange(14)
		if how == 0:
			return lambda: utils.calculate_wet_bulb_temperature(t, h, p)
		if how == 1:
			return lambda: utils.calculate_dew_point(t, h)
		if how == 2:
			return lambda: utils.calculate_heat_index(t, h)
		if how == 3:
			return lambda: [utils.calculate_wind_chill(t, w), utils.calculate_thw_index(t, h, w)]
		if how == 4:
			return lambda: utils.calculate_thsw_index(t, h, w * 10, w)
		if how == 5:
			return lambda: [utils.convert_fahrenheit_to_celsius(t), utils.convert_fahrenheit_to_kelvin(t), utils.convert_inches_of_mercury_to_kilopascals(p)]
		if how == 6:
			samples = [(models.WindDirection[rng.choice(('N', 'E', 'SSW'))].name, datetime.datetime(2016, 1, 1, 12, i), 5, rng.randint(0, 30)) for i in range(0, 60, 5)]
			records = [(s[3], s[0], s[1], s[2]) for s in samples]
			return lambda: utils.calculate_10_minute_wind_average(records)
		if how == 7:
			from wlmon.checks.c21 import readings
			values = readings(rng)
			values['minutes_covered'] = 5
			return lambda: utils.calculate_all_record_values(models.ArchiveIntervalRecord(**values))
		if how == 8:
			date = wire.random_date(rng)
			data = wire.encode_download(wire.random_raw(wire.DOWNLOAD, rng), date, rng)
			return lambda: models.ArchiveIntervalRecord.load_from_download(io.BytesIO(data), 5)
		if how == 9:
			packet = wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng)
			return lambda: models.LoopRecord.load_loop_2_from_connection(io.BytesIO(packet))
		if how == 10:
			raw = wire.random_raw(wire.WLK, rng, skip=('minutes_past_midnight', ))
			raw['minutes_past_midnight'] = rng.randint(1, 1440)
			data = wire.encode_wlk(raw, 0x1000 | rng.randrange(4096), rng)
			return lambda: models.ArchiveIntervalRecord.load_from_wlk(io.BytesIO(data), 2016, 2, 29)
		if how == 11:
			data = bytes(bytearray(rng.randrange(256) for _ in range(rng.randint(1, 300))))
			return lambda: models.calculate_weatherlink_crc(data)
		if how == 12:
			zone, date = rng.choice(ZONES), wire.random_date(rng)
			import pytz
			if hasattr(utils, 'convert_station_time_to_utc'):
				return lambda: utils.convert_station_time_to_utc(date, pytz.timezone(zone))
		date = wire.random_date(rng)
		return lambda: [models.convert_timestamp_to_datetime(models.convert_datetime_to_timestamp(date)), utils.calculate_heating_degree_days(t),
						utils.calculate_cooling_degree_days(t)]

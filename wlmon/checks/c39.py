"""A program that runs for long: nothing is kept that is no longer needed."""
import gc
import io
import os
import shutil
import tempfile
import threading
import weakref

try:
	import tracemalloc
except ImportError:
	tracemalloc = None  # PyPy

from wlmon import console, core, httpsim, mysqld, service, stored, wire, wlkfile


class Watch(object):
	"""Which of the records it was shown still exist."""
	def __init__(self):
		self.references = []
		self.shown = 0

	def show(self, record):
		self.shown += 1
		self.references.append(weakref.ref(record))

	def alive(self):
		collect()
		self.references = [r for r in self.references if r() is not None]
		return len(self.references)


def collect():
	# PyPy needs several rounds for objects with finalizers
	for _ in range(1 if tracemalloc else 3):
		gc.collect()


def our_threads():
	return [t for t in threading.enumerate() if not t.name.startswith('wlmon') and t.is_alive()]


class CHECK(core.Check):
	id = 'C39'
	rule = (
		'Long runs and many short lives of exporters, pollers and the rest: background polling, rapid and simple updates, exports, downloads, imports, calculations and cycles of '
		'connecting, with weak references to every record, counts of threads, descriptors, connections and cursors, and '
		'traced memory. Non-trivial: a distinct run.'
	)
	required = ('packet_released', 'rapid_released', 'simple_released', 'export_released', 'download_released', 'import_released', 'memory_constant', 'cycles',
				'queue_bounded', 'objects_released')

	def cases(self, tier, seed):
		for kind, quick, thorough in (('background', 6, 60), ('rapid', 4, 40), ('simple', 4, 40), ('export', 4, 40), ('download', 8, 80), ('import', 8, 80),
									('calculations', 4, 40), ('cycles', 6, 60), ('database', 4, 40), ('objects', 6, 60)):
			for c in self.seeded(tier, seed, kind, quick, thorough):
				yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		getattr(self, case['kind'] + '_')(case, m, rng)
		m.nontrivial(case['seed'])

	# ---- polling
	def background_(self, case, m, rng):
		n = rng.randint(200, 600)
		few = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(20)]
		plan = console.Plan(packets=[few[i % 20] for i in range(n)], memory=bytearray(4096))
		with console.Console([plan]) as server:
			poller = console.poller(server.port)
			poller.connect()
			# Once the console has answered it has accepted the connection
			m.returns('read_config_setting', poller.read_config_setting, '10', '04')
			descriptors = console.open_descriptors()
			before = len(our_threads())
			watch, most, ended = Watch(), [], []

			def callback(packet):
				watch.show(packet)
				if watch.shown % 50 == 0:
					most.append(watch.alive())
				if watch.shown == 1:
					ended.append(threading.current_thread())
			m.returns('start_background_polling', poller.start_background_polling, n, callback)
			console.wait_until(lambda: watch.shown >= n)
			m.equal(watch.shown, n, 'packets delivered')
			ended[0].join(console.WAIT)
			m.check(max(most) <= 4, 'packets are kept after they were delivered', delivered=n, kept=most)
			m.check(watch.alive() <= 1, 'packets are kept after background polling', delivered=n, kept=watch.alive())
			m.event('packet_released', n)
			m.check(console.wait_until(lambda: len(our_threads()) <= before), 'a thread of background polling stays', threads=[t.name for t in our_threads()])
			collect()
			m.check(console.open_descriptors() <= descriptors, 'a descriptor of background polling stays', before=descriptors, after=console.open_descriptors())
			# Polling in the foreground keeps what it returns and nothing else
			for _ in range(3):
				for packet in m.returns('poll', poller.poll, 20):
					watch.show(packet)
				packet = None
			m.check(watch.alive() <= 20, 'packets are kept after polling', kept=watch.alive())
			m.returns('disconnect', poller.disconnect)
		m.sample({'packets': n, 'kept': max(most)})

	# ---- uploads
	def uploads(self, m, rng, n, send, make, limit, what, event):
		from weatherlink.exporter.wunderground import WundergroundExporter
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KX', 'secret')
		watch, most = Watch(), 0
		with httpsim.Transport(lambda request: httpsim.message(headers=[('Content-Type', 'text/html')], body=b'success')):
			for i in range(n):
				record = make()
				watch.show(record)
				m.returns(what, getattr(exporter, send), record)
				record = None
				if i % 50 == 49:
					most = max(most, watch.alive())
		m.check(most <= limit, 'records are kept after %s' % what, sent=n, kept=most)
		m.event(event, n)
		m.sample({'updates': n, 'kept': most})
		return most

	def rapid_(self, case, m, rng):
		from wlmon.checks.c32 import packet

		def make():
			return packet(rng, wire.plausible_raw(wire.LOOP2, rng, 0.1), wire.random_date(rng))[0]
		self.uploads(m, rng, 400, 'send_rapid_update', make, 100, 'rapid updates', 'rapid_released')
		m.event('queue_bounded')

	def simple_(self, case, m, rng):
		self.uploads(m, rng, 300, 'send_simple_update', lambda: stored.make(rng)[0], 60, 'simple updates', 'simple_released')

	# ---- the database
	def export_(self, case, m, rng):
		watch, most = Watch(), 0
		with mysqld.Server(case['seed']) as server:
			with mysqld.exporter(server) as exporter:
				for i in range(200):
					record = stored.make(rng)[0]
					watch.show(record)
					m.call(exporter.export_record, record)
					record = None
					if i % 50 == 49:
						most = max(most, watch.alive())
		m.check(most <= 4, 'records are kept after they were exported', exported=200, kept=most)
		m.event('export_released', 200)

	def database_(self, case, m, rng):
		with mysqld.Server(case['seed']) as server:
			with mysqld.Cursors() as cursors:
				from weatherlink.exporter.mysql import MySQLExporter
				exporter = m.returns('MySQLExporter', MySQLExporter, server.user, server.password, server.database, server.host, server.port)
				descriptors = None
				for i in range(40):
					record, readings = stored.make(rng)
					with exporter:
						m.call(exporter.export_record, record)
						m.returns('get_newest_timestamp', exporter.get_newest_timestamp)
						if rng.random() < 0.3:
							import datetime
							m.returns('recalculate', exporter.recalculate_summaries_for_dates, [readings['date'] + datetime.timedelta(minutes=1)])
						m.check(len(cursors.open) == 0, 'a cursor is open after an operation')
					server.settle()
					if i == 5:
						descriptors = console.open_descriptors()
				m.check(console.open_descriptors() <= descriptors, 'descriptors grow with every connection', before=descriptors, after=console.open_descriptors())
			m.equal(len(server.settle()), 0, 'connections open in the end')
			m.event('cycles', 40)

	# ---- downloads and imports
	def download_(self, case, m, rng):
		import weatherlink.downloader as module
		downloader = m.returns('Downloader', module.Downloader, 'user', 'pass', 'token')
		watch = Watch()
		for _ in range(8):
			date = wire.random_date(rng, 2001, 2060)
			count = rng.randint(1, 60)
			items = [(date, wire.encode_download(wire.random_raw(wire.DOWNLOAD, rng), date, rng)) for _ in range(count)]
			how = rng.choice(('complete', 'complete', 'undated', 'broken'))
			if how == 'undated':
				items.append((date, service.undated(rng)))
			elif how == 'broken':
				items.append((date, items[0][1][:-20]))
			with httpsim.Transport(service.Service(rng, items, 5)):
				outcome = m.call(downloader.download, 0)
			m.check(outcome.ok == (how != 'broken'), 'a download ended differently', how=how, outcome=outcome)
			outcome = None
			m.equal(len(downloader.records), count, 'records downloaded')
			for record in downloader.records:
				watch.show(record)
			record = None
			m.check(watch.alive() <= count, 'records of an earlier download are kept', downloaded=watch.shown, kept=watch.alive(), last=count)
			m.event('download_released', count)

	def import_(self, case, m, rng):
		from weatherlink.importer import Importer
		directory = tempfile.mkdtemp(prefix='wlmon-long-')
		watch = Watch()
		try:
			month = wlkfile.Month(rng, max_records=20)
			path = os.path.join(directory, month.name)
			importer = None
			for _ in range(4):
				later = wlkfile.Month(rng, max_records=20)
				later.year, later.month = month.year, month.month
				later.days = dict((d, v) for d, v in later.days.items() if d <= 28)
				with open(path, 'wb') as f:
					f.write(later.encode(rng))
				if importer is None or rng.random() < 0.5:
					importer = Importer(path)
				m.returns('import_data', importer.import_data)
				everything = list(importer.records) + list(importer.daily_summaries.values())
				for record in everything:
					watch.show(record)
				count = len(everything)
				record = everything = None
				m.check(watch.alive() <= count, 'records of an earlier import are kept', imported=watch.shown, kept=watch.alive(), last=count)
				m.event('import_released', count)
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	# ---- calculations
	def calculations_(self, case, m, rng):
		from wlmon.checks.c38 import CHECK as other

		def batch(seed):
			r = core.rng_for(case['seed'], seed)
			tasks = other.task
			for _ in range(600):
				try:
					tasks(None, r)()
				except core.HarnessError:
					raise
				except Exception:
					pass
		batch('warm up')
		collect()
		if tracemalloc:
			tracemalloc.start()
		try:
			sizes = []
			for i in range(4):
				batch(i)
				collect()
				sizes.append(tracemalloc.get_traced_memory()[0] if tracemalloc else 32 * len(gc.get_objects()))
		finally:
			if tracemalloc:
				tracemalloc.stop()
		# A cache of one small entry per calculation would take 60 kB a batch
		growth = min(b - a for a, b in zip(sizes, sizes[1:]))
		m.check(growth < 20000, 'memory grows with every calculation', after_each_600_calculations=sizes)
		m.event('memory_constant', 1800)

	# ---- connecting again and again
	def cycles_(self, case, m, rng):
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(3)]
		hows = [rng.choice(('poll', 'background', 'error', 'read', 'broken', 'broken', 'cut', 'refused')) for _ in range(40)]
		plans = []
		for how in hows:
			plan = console.Plan(packets=packets, memory=bytearray(4096))
			if how == 'broken':
				plan.packets = [bytes(bytearray(rng.randrange(256) for _ in range(99))) for _ in range(3)]
			elif how == 'cut':
				plan.cut = rng.randrange(99)
			elif how == 'refused':
				plan.ack = rng.choice((b'\x21', b'\x15', b'x', b''))
			plans.append(plan)
		ran = []
		with console.Console(plans) as server:
			poller = console.poller(server.port)
			descriptors = threads = None
			for i in range(40):
				poller.connect()
				how = hows[i]
				if how == 'poll':
					m.equal(len(m.returns('poll', poller.poll, 2)), 2, 'packets polled')
				elif how == 'background':
					got = []
					m.returns('start_background_polling', poller.start_background_polling, 2, lambda p: got.append(threading.current_thread()))
					console.wait_until(lambda: len(got) == 2)
					got[0].join(console.WAIT)
					ran.append(weakref.ref(got[0]))
					del got
				elif how in ('broken', 'cut', 'refused'):
					m.check(not m.call(poller.poll, 3).ok, 'polled from a broken console')
				elif how == 'error':
					poller.disconnect()
					m.check(not m.call(poller.poll, 1).ok, 'polled without a connection')
					poller = console.poller(server.port)
					m.check(server.wait_closed(i), 'the console never saw the connection close')
				else:
					m.returns('read_config_setting', poller.read_config_setting, '10', '04')
				if how != 'error':
					poller.disconnect()
					m.check(server.wait_closed(i), 'the console never saw the connection close')
				if i == 8:
					console.wait_until(lambda: not any(t.is_alive() for t in server.threads))
					collect()
					descriptors, threads = console.open_descriptors(), len(our_threads())
			console.wait_until(lambda: not any(t.is_alive() for t in server.threads))
			collect()
			m.check(console.open_descriptors() <= descriptors, 'descriptors grow with every connection', before=descriptors, after=console.open_descriptors())
			kept = len([t for t in ran if t() is not None])
			m.check(kept <= 2, 'threads that have ended are kept', started=len(ran), kept=kept)
			m.check(len(our_threads()) <= threads, 'threads grow with every poll', threads=[t.name for t in our_threads()])
			m.event('cycles', 40)

	# ---- exporters, pollers and the rest, one after another
	def objects_(self, case, m, rng):
		"""A program that makes a new one each time: those it has finished with go, with what they hold."""
		directory = tempfile.mkdtemp(prefix='wlmon-long-')
		makers = {'mysql': self.one_mysql, 'wunderground': self.one_wunderground, 'download': self.one_download, 'import': self.one_import, 'poll': self.one_poller}
		try:
			kinds = [k for k in sorted(makers) for _ in range(6)]
			rng.shuffle(kinds)
			watches = dict((k, Watch()) for k in kinds)
			plans = [console.Plan(packets=[wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(3)], memory=bytearray(4096))
					for _ in range(kinds.count('poll'))]
			month = wlkfile.Month(rng, max_records=20)
			path = os.path.join(directory, month.name)
			with open(path, 'wb') as f:
				f.write(month.encode(rng))
			with mysqld.Server(case['seed']) as server, console.Console(plans) as station:
				places = {'mysql': server, 'poll': station, 'import': path}
				for kind in kinds:
					makers[kind](m, rng, places.get(kind), watches[kind])
				kept = dict((k, w.alive()) for k, w in watches.items())
				server.settle()
			m.seen('kept', str(sorted(kept.items())))
			for kind in sorted(kept):
				# Of the last one, something may still be at hand
				shown = watches[kind].shown
				m.check(kept[kind] * 6 <= shown + 5, 'what is finished with is kept: %s' % kind, made=shown, kept=kept)
				m.event('objects_released', shown)
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	def one_mysql(self, m, rng, server, watch):
		from weatherlink.exporter.mysql import MySQLExporter
		exporter = m.returns('MySQLExporter', MySQLExporter, server.user, server.password, server.database, server.host, server.port)
		watch.show(exporter)
		record, _ = stored.make(rng)
		watch.show(record)
		with exporter:
			m.call(exporter.export_record, record)
			if rng.random() < 0.5:
				m.call(exporter.find_new_rain_events)

	def one_wunderground(self, m, rng, _, watch):
		from weatherlink.exporter.wunderground import WundergroundExporter
		from wlmon.checks.c32 import packet
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KX', 'secret')
		watch.show(exporter)
		with httpsim.Transport(lambda request: httpsim.message(headers=[('Content-Type', 'text/html')], body=b'success')):
			for _ in range(rng.randint(1, 4)):
				record = packet(rng, wire.plausible_raw(wire.LOOP2, rng, 0.1), wire.random_date(rng))[0]
				watch.show(record)
				m.returns('send_rapid_update', exporter.send_rapid_update, record)

	def one_download(self, m, rng, _, watch):
		import weatherlink.downloader as module
		downloader = m.returns('Downloader', module.Downloader, 'user', 'pass', 'token')
		watch.show(downloader)
		date = wire.random_date(rng, 2001, 2060)
		items = [(date, wire.encode_download(wire.random_raw(wire.DOWNLOAD, rng), date, rng)) for _ in range(rng.randint(1, 9))]
		with httpsim.Transport(service.Service(rng, items, 5)):
			m.returns('download', downloader.download, 0)
		for record in downloader.records:
			watch.show(record)

	def one_import(self, m, rng, path, watch):
		from weatherlink.importer import Importer
		importer = m.returns('Importer', Importer, path)
		watch.show(importer)
		m.returns('import_data', importer.import_data)
		for record in list(importer.records) + [importer.header]:
			watch.show(record)

	def one_poller(self, m, rng, station, watch):
		poller = console.poller(station.port)
		watch.show(poller)
		with poller:
			if rng.random() < 0.5:
				for packet in m.returns('poll', poller.poll, 2):
					watch.show(packet)
			else:
				got = []
				m.returns('start_background_polling', poller.start_background_polling, 2, lambda p: got.append(threading.current_thread()))
				console.wait_until(lambda: len(got) == 2)
				got[0].join(console.WAIT)

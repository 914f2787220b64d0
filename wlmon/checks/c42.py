"""Interruptions: whatever is interrupted, wherever it waits, nothing stays open and it works the next time."""
import datetime
import gc
import os
import shutil
import tempfile
import threading

import pytz

from wlmon import console, core, httpsim, interrupts, mysqld, service, stored, uploads, wire, wlkfile
from wlmon.checks.c30 import CHECK as Database
from wlmon.checks.c32 import packet

CONSOLE = ('poll', 'poll', 'read', 'rain', 'write', 'start', 'connect')


def outcome_of(function, *args):
	"""Like Monitor.call, but of interruptions too."""
	try:
		return core.Outcome(value=function(*args))
	except (core.HarnessError, core.Violation):
		raise
	except BaseException as e:
		return core.Outcome(exception=e)


class CHECK(core.Check):
	id = 'C42'
	level = 'fault_enumeration'
	rule = (
		'Every operation that waits for a console, a database, a web service or a file, interrupted by KeyboardInterrupt, SystemExit or '
		'another BaseException before or after its n-th blocking call, then repeated undisturbed. Non-trivial: a distinct (operation, point, side).'
	)
	required = (
		'console', 'database', 'export', 'recalculate', 'search', 'download', 'upload', 'import', 'callback', 'same_exception', 'cursor_closed', 'cursor_close_failed',
		'connection_closed', 'file_closed', 'repeated', 'handle_close_failed', 'complete_rows',
	)

	def cases(self, tier, seed):
		for kind, quick, thorough in (('console', 120, 2500), ('handle', 30, 300), ('callback', 20, 300), ('download', 80, 1200), ('upload', 60, 1200), ('import', 60, 1200)):
			for c in self.seeded(tier, seed, kind, quick, thorough):
				yield c
		for operation, quick, thorough in (('export', 30, 600), ('search', 24, 500), ('recalculate', 16, 300)):
			for c in self.seeded(tier, seed, operation, quick, thorough):
				yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		kind = case['kind']
		getattr(self, 'database' if kind in ('export', 'search', 'recalculate') else 'file' if kind == 'import' else kind)(case, m, rng)

	def same(self, m, points, outcome, what):
		"""The interruption came out as it was.  Returns whether there was one."""
		if points.fired is None:
			return False
		m.check(outcome.exception is points.exception, 'an interruption did not come out of the operation', operation=what, interrupted=points.exception,
				outcome=outcome, at=(points.fired, points.at, points.when))
		m.event('same_exception')
		m.nontrivial((what, points.at, points.when, type(points.exception).__name__))
		m.seen('interrupted', (what, points.fired, points.when))
		return True

	# ---- the console
	def console(self, case, m, rng):
		name = rng.choice(CONSOLE)
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		old, new = bytes(memory), bytes(bytearray(rng.randrange(256) for _ in range(2)))
		count = rng.randint(1, 6)
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(count)]
		plan = lambda: console.Plan(memory=memory, packets=packets, fragment=core.rng_for(case['seed'], 'f') if fragmented else None)
		fragmented = rng.random() < 0.5
		index = [-1]
		before = set(threading.enumerate())
		with console.Console([plan(), plan(), plan(), plan()]) as server:
			poller = console.poller(server.port)

			def connect():
				outcome = outcome_of(poller.connect)
				if outcome.ok:
					index[0] += 1
				return outcome

			def operate():
				if name == 'poll':
					return [dict(p) for p in poller.poll(count)]
				if name == 'read':
					return poller.read_config_setting('2B', '01')
				if name == 'rain':
					return poller.read_rain_collector_type()
				if name == 'write':
					return poller.write_config_setting('30', '02', new)
				if name == 'connect':
					return poller.connect()
				received.append([])
				return poller.start_background_polling(count, received[-1].append)
			received = []
			# Undisturbed
			if name != 'connect':
				m.check(connect().ok, 'connecting failed')
			with interrupts.Sockets() as points:
				wanted = m.returns(name, operate)
			if name == 'connect':
				index[0] += 1
			if name == 'start':
				console.wait_until(lambda: len(received[0]) == count)
				background(m, before, 'undisturbed')
				first = [dict(p) for p in received[0]]
			m.returns('disconnect', poller.disconnect)
			total = points.count
			m.check(total > 0, 'nothing was sent or received', operation=name)
			if name == 'write':
				console.wait_until(lambda: len(server.writes) == 1)
				memory[:] = old
				server.writes[:] = []
			# Interrupted
			within = name != 'connect' and rng.random() < 0.3
			points = interrupts.Sockets(rng.randint(1, total), rng.choice(('before', 'after')), interrupts.exception(rng))
			if within:
				def body():
					with poller:
						index[0] += 1
						with points:
							return operate()
				outcome = outcome_of(body)
			else:
				if name != 'connect':
					m.check(connect().ok, 'connecting failed')
				with points:
					outcome = outcome_of(operate)
				if name == 'connect' and points.fired and points.when == 'after':
					index[0] += 1
			if not self.same(m, points, outcome, name):
				m.check(outcome.ok and (name == 'start' or core.same(outcome.value, wanted)), 'an operation gave another result the second time', operation=name, outcome=outcome)
				if name == 'start':
					console.wait_until(lambda: len(received[1]) == count)
				if name == 'connect':
					index[0] += 1
			if name == 'start':
				background(m, before, 'interrupted')
			if not within and not (name == 'connect' and points.fired):
				m.returns('disconnecting after an interruption', poller.disconnect)
			# The interruption is still being handled here: whatever its frames hold is still there (a library's own, while connecting)
			if name == 'connect' and points.fired:
				points.exception.__traceback__ = None
				gc.collect()
			if index[0] < server.connections or name != 'connect':
				m.check(server.wait_closed(index[0]), 'the connection to the console is still open after an interruption', operation=name, outcome=outcome)
				m.event('connection_closed')
			if name == 'write':
				console.wait_until(lambda: len(server.writes) == 1 or points.fired, timeout=2)
				m.check(bytes(memory[0x30:0x32]) in (old[0x30:0x32], new), 'an interrupted write left something else', got=bytes(memory[0x30:0x32]))
				m.check(bytes(memory[:0x30] + memory[0x32:]) == old[:0x30] + old[0x32:], 'an interrupted write changed something else')
			# Again
			if name != 'connect':
				m.check(connect().ok, 'connecting after an interruption failed')
			got = m.returns('%s after an interruption' % name, operate)
			if name == 'start':
				console.wait_until(lambda: len(received[-1]) == count)
				background(m, before, 'repeated')
				got, wanted = [dict(p) for p in received[-1]], first
			m.equal(got, wanted, 'the operation after an interruption', operation=name)
			if name == 'connect':
				m.equal(m.returns('read', poller.read_config_setting, '2B', '01'), old[0x2B:0x2C], 'read after connecting again')
			m.returns('disconnect', poller.disconnect)
			if name == 'write':
				console.wait_until(lambda: bytes(memory[0x30:0x32]) == new)
				m.equal(bytes(memory[0x30:0x32]), new, 'written after an interruption')
			m.event('repeated')
			if isinstance(server.error, core.HarnessError):
				raise server.error
		m.event('console')
		m.sample({'operation': name, 'points': total, 'interrupted': (points.fired, points.at, points.when)})

	def handle(self, case, m, rng):
		"""An interruption while waiting for packets, when closing the file wrapped around the connection fails too."""
		import socket
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(3)]
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		original = socket.socket.makefile
		state = []

		def makefile(sock, *args, **kwargs):
			result = original(sock, *args, **kwargs)
			close = result.close

			class Handle(object):
				def __getattr__(self, name):
					return getattr(result, name)

				def close(self):
					close()
					if not state:
						state.append(True)
						raise OSError(5, 'Input/output error')
			return Handle()
		with console.Console([console.Plan(memory=memory, packets=packets)] * 2) as server:
			poller = console.poller(server.port)
			m.returns('connect', poller.connect)
			points = interrupts.Sockets(rng.randint(3, 4), rng.choice(('before', 'after')), interrupts.exception(rng))
			polling = rng.random() < 0.6
			socket.socket.makefile = makefile
			try:
				with points:
					outcome = outcome_of(poller.poll, 3) if polling else outcome_of(poller.read_config_setting, '2B', '10')
			finally:
				socket.socket.makefile = original
			if state and points.fired:
				self.same(m, points, outcome, 'poll' if polling else 'read')
				m.event('handle_close_failed')
			m.returns('disconnect', poller.disconnect)
			m.check(server.wait_closed(0), 'the connection to the console is still open after an interruption', outcome=outcome)

	def callback(self, case, m, rng):
		"""The callback of background polling ends its thread, with an interruption too; polling can start again."""
		count = rng.randint(1, 5)
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(count)]
		exception = interrupts.exception(rng)
		at = rng.randrange(count)
		caught = []
		hook = threading.excepthook
		before = set(threading.enumerate())
		threading.excepthook = lambda arguments: caught.append(arguments.exc_value)
		try:
			with console.Console([console.Plan(packets=packets)] * 2) as server:
				poller = console.poller(server.port)
				m.returns('connect', poller.connect)
				got = []

				def callback(packet):
					got.append(dict(packet))
					if len(got) == at + 1:
						raise exception
				m.returns('start', poller.start_background_polling, count, callback)
				background(m, before, 'a callback that interrupts it')
				m.equal(len(got), at + 1, 'packets delivered until the interruption')
				if not isinstance(exception, SystemExit):
					m.check(any(e is exception for e in caught), 'an interruption in the callback was hidden', exception=exception, caught=caught)
				m.returns('disconnect', poller.disconnect)
				m.check(server.wait_closed(0), 'the connection to the console is still open after an interruption')
				m.returns('connect', poller.connect)
				again = []
				m.returns('starting again', poller.start_background_polling, count, again.append)
				background(m, before, 'again')
				m.equal([dict(p) for p in again][:at + 1], got, 'packets delivered again')
				m.equal(len(again), count, 'number of packets delivered again')
				m.returns('disconnect', poller.disconnect)
		finally:
			threading.excepthook = hook
		m.event('callback')
		m.nontrivial((count, at, type(exception).__name__))

	# ---- the database
	def database(self, case, m, rng):
		base = Database()
		case = dict(case, random=True)

		def undisturbed():
			server, operation = base.server(case)
			with server:
				with mysqld.exporter(server) as exporter:
					with interrupts.Sockets() as points:
						m.returns('the operation without an interruption', operation, m, exporter)
			return points.count, server.engine.dump()
		total, final = undisturbed()
		m.check(total > 0, 'nothing was sent or received')
		for _ in range(6 if case['kind'] == 'export' else 3):
			server, operation = base.server(case)
			points = interrupts.Sockets(rng.randint(1, total), rng.choice(('before', 'after')), interrupts.exception(rng))
			failing = rng.random() < 0.4
			with server:
				before = server.engine.dump()

				def on_close(number, close):
					m.event('cursor_closed')
					if failing and points.fired:
						close()
						m.event('cursor_close_failed')
						raise ValueError('the cursor cannot be closed')
				from weatherlink.exporter.mysql import MySQLExporter
				exporter = m.returns('MySQLExporter', MySQLExporter, server.user, server.password, server.database, server.host, server.port)

				def body():
					with exporter:
						with points:
							return operation(m, exporter)
				with mysqld.Cursors(on_close) as cursors:
					outcome = outcome_of(body)
				self.same(m, points, outcome, case['kind'])
				m.check(not cursors.open, 'a cursor is still open after an interruption', open=cursors.open, outcome=outcome)
				m.check(not server.settle(0), 'the connection to the database is still open after an interruption', outcome=outcome)
				m.event('connection_closed')
				if points.fired:
					base.partial(m, before, server.engine.dump(), final, mysqld.Fault(points.at, 'interrupted'), points.fired)
				else:
					m.check(outcome.ok, 'the operation failed', outcome=outcome)
				with exporter:
					base.again(m, case, exporter, operation, final)
				base.equal(m, server.engine.dump(), final, 'repeating the operation after an interruption gave another result', at=(points.fired, points.at, points.when))
				m.event('repeated')
		m.event('database')
		m.event(case['kind'])

	# ---- the web service
	def download(self, case, m, rng):
		from weatherlink.downloader import Downloader
		date, archive = wire.random_date(rng, 2001, 2060), []
		for _ in range(rng.randint(1, 12)):
			archive.append((date, wire.encode_download(wire.random_raw(wire.DOWNLOAD, rng), date, rng)))
			date += datetime.timedelta(minutes=rng.choice((1, 5, 30)))
		undisturbed = m.returns('Downloader', Downloader, 'user', 'pass', 'token')
		with httpsim.Transport(service.Service(rng, archive, 5)):
			m.returns('download', undisturbed.download, 0)
		m.equal(len(undisturbed.records), len(archive), 'records downloaded')
		downloader = m.returns('Downloader', Downloader, 'user', 'pass', 'token')
		for _ in range(rng.randint(1, 3)):
			where = rng.choice(('headers', 'data', 'reading', 'reading'))
			exception = interrupts.exception(rng)
			piece = rng.choice((1, 20, 52, 64, 100))
			points = interrupts.Points(rng.randint(1, 2 + 64 * len(archive) // min(piece, 64)), rng.choice(('before', 'after')), exception)
			served = service.Service(rng, archive, 5)
			asked = []

			def handler(request):
				action = request.parameters['action']
				asked.append(action)
				if action == where:
					points.fired, points.at = action, 1
					return exception
				answer = served(request)
				return interrupts.body(answer, points, piece) if where == 'reading' and action == 'data' else answer
			with httpsim.Transport(handler) as transport:
				outcome = outcome_of(downloader.download, 0)
			if not self.same(m, points, outcome, 'download'):
				m.check(outcome.ok, 'a download failed', outcome=outcome)
			m.equal(asked, ['headers', 'data'][:len(asked)], 'requests of an interrupted download')
			if points.fired:
				m.check(len(downloader.records or ()) <= len(archive), 'too many records', records=len(downloader.records or ()))
		with httpsim.Transport(service.Service(rng, archive, 5)) as transport:
			m.returns('downloading after an interruption', downloader.download, 0)
		m.equal(len(transport.requests), 2, 'number of requests after an interruption')
		m.equal([dict(r) for r in downloader.records], [dict(r) for r in undisturbed.records], 'records downloaded after an interruption')
		m.event('download')
		m.event('repeated')

	def upload(self, case, m, rng):
		from weatherlink.exporter.wunderground import WundergroundExporter
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KTN1', 'secret')
		exporter.station_time_zone = pytz.utc
		for _ in range(rng.randint(1, 4)):
			rapid = rng.random() < 0.4
			record, readings = stored.make(rng, dash=rng.choice((0, 0.3)))
			if rapid:
				record, _ = packet(rng, wire.plausible_raw(wire.LOOP2, rng, 0.1), wire.random_date(rng))
			send = exporter.send_rapid_update if rapid else exporter.send_simple_update
			content = dict(record)
			reading = rng.random() < 0.5
			points = interrupts.Points(rng.randint(1, 3), rng.choice(('before', 'after')), interrupts.exception(rng))

			def handler(request):
				if reading:
					return interrupts.body(httpsim.message(body=b'success', framing=rng.choice(('length', 'close'))), points, rng.choice((10, 64)))
				points.fired, points.at = 'send', 1
				return points.exception
			with httpsim.Transport(handler) as transport:
				outcome = outcome_of(send, record)
			if not self.same(m, points, outcome, 'rapid update' if rapid else 'simple update'):
				m.check(outcome.ok, 'an update failed', outcome=outcome)
			m.equal(len(transport.requests), 1, 'requests of an interrupted update')
			m.equal(dict((k, record[k]) for k in content), content, 'an interrupted update changed the record')
			with httpsim.Transport(lambda request: httpsim.message(body=b'success')) as transport:
				m.returns('an update after an interruption', send, record)
			m.equal(len(transport.requests), 1, 'requests of an update after an interruption')
			if not rapid:
				uploads.check(m, transport.requests[0], uploads.SIMPLE_HOST, 'KTN1', 'secret', None, uploads.simple(readings), 'simple update')
			m.event('repeated')
		m.event('upload')

	# ---- files
	def file(self, case, m, rng):
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=rng.choice((2, 6)))
		data = month.encode(rng)
		directory = tempfile.mkdtemp(prefix='wlmon-interrupted-')
		try:
			path = os.path.join(directory, month.name)
			with open(path, 'wb') as f:
				f.write(data)
			undisturbed = m.returns('Importer', Importer, path)
			with interrupts.Files(path, 64) as points:
				m.returns('import_data', undisturbed.import_data)
			total = points.count
			importer = m.returns('Importer', Importer, path)
			for _ in range(rng.randint(1, 3)):
				with interrupts.Files(path, 64, rng.randint(1, max(total, 1)), rng.choice(('before', 'after')), interrupts.exception(rng)) as points:
					outcome = outcome_of(importer.import_data)
				if not self.same(m, points, outcome, 'import'):
					m.check(outcome.ok, 'an import failed', outcome=outcome)
				m.check(all(h.closed for h in points.handles), 'the file is still open after an interruption', outcome=outcome)
				m.event('file_closed')
			m.returns('importing after an interruption', importer.import_data)
			m.equal([dict(r) for r in importer.records], [dict(r) for r in undisturbed.records], 'records imported after an interruption')
			m.equal(dict((k, len(v)) for k, v in importer.daily_records.items()), dict((k, len(v)) for k, v in undisturbed.daily_records.items()), 'records per day')
			m.equal(dict((k, dict(v)) for k, v in importer.daily_summaries.items()), dict((k, dict(v)) for k, v in undisturbed.daily_summaries.items()), 'summaries')
		finally:
			shutil.rmtree(directory, ignore_errors=True)
		m.event('import')
		m.event('repeated')


def background(m, before, what):
	"""Wait for the threads of background polling to end."""
	for t in threading.enumerate():
		if t not in before and not t.name.startswith('wlmon'):
			t.join(console.WAIT)
			m.check(not t.is_alive(), 'background polling never ends', what=what)

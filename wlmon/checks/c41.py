"""Using the library changes nothing but what it is asked to change."""
import datetime
import decimal
import enum
import gc
import io
import locale
import logging
import os
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings
from decimal import Decimal

from wlmon import console, core, httpsim, mysqld, summary, wire, wlkfile
from wlmon.checks import c38

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
# What the library may not do while it runs (audit events; PyPy reports only some)
FORBIDDEN = (
	'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn', 'subprocess.Popen', 'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv',
	'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.link', 'os.symlink', 'os.kill', 'os.utime', 'os.killpg',
	'socket.bind', 'socket.sethostname', 'sys.settrace', 'sys.setprofile', 'sys.addaudithook', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile',
	'tempfile.mkstemp', 'tempfile.mkdtemp', 'webbrowser.open', 'resource.setrlimit', 'syslog.syslog', 'signal.pthread_kill',
)
MODULES = (
	'builtins', 'socket', 'time', 'datetime', 'decimal', 'struct', 'threading', 'ssl', 'math', 'io', 'os', 'json', 'collections', 'requests', 'requests.api',
	'requests.sessions', 'requests.adapters', 'requests.models', 'urllib3', 'mysql.connector', 'mysql.connector.connection', 'six', 'pytz', 'enum', 'contextlib',
)
CLIENTS = (
	('requests.adapters', ('HTTPAdapter',)), ('requests.sessions', ('Session',)), ('requests.models', ('Response', 'Request', 'PreparedRequest')), ('urllib3', ()),
	('urllib3.util.retry', ('Retry',)), ('mysql.connector', ()), ('mysql.connector.conversion', ('MySQLConverter', 'MySQLConverterBase')),
	('mysql.connector.cursor', ('MySQLCursor',)), ('mysql.connector.constants', ()), ('socket', ('socket',)), ('threading', ('Thread', 'Event')),
)


class Auditor(object):
	"""Reports what code under test does to the system; installed once per process, as audit hooks cannot be removed."""
	instance = None

	def __init__(self):
		self.prefix = os.path.join(os.path.realpath(os.environ.get('WLMON_REPO') or '/repo'), 'weatherlink') + os.sep
		self.active = False
		self.allowed = set()
		self.found = []
		self.seen = 0
		sys.addaudithook(self.hook)

	def ours(self):
		"""The line of the code under test that is running, or None if it called back into the harness or does not run."""
		frame = sys._getframe(2)
		while frame is not None:
			name = frame.f_code.co_filename
			if name.startswith(self.prefix):
				return '%s:%d' % (name[len(self.prefix):], frame.f_lineno)
			if name.startswith(ROOT):
				return None
			frame = frame.f_back
		return None

	def hook(self, event, arguments):
		if not self.active:
			return
		if event == 'open':
			mode, flags = arguments[1], arguments[2] if isinstance(arguments[2], int) else 0
			if not (set(mode) & set('wax+') if mode else flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
				self.seen += 1
				return
		elif event == 'socket.connect':
			self.seen += 1
			if not isinstance(arguments[1], tuple) or tuple(arguments[1][:2]) in self.allowed:
				return
		elif event not in FORBIDDEN:
			return
		where = self.ours()
		if where:
			self.found.append((event, core.short(arguments, 200), where))


def auditor():
	if Auditor.instance is None and hasattr(sys, 'addaudithook'):
		Auditor.instance = Auditor()
	return Auditor.instance


NOTED = (decimal.Clamped, decimal.InvalidOperation, decimal.DivisionByZero)  # already noted by the program, whatever the library computes


def settings():
	"""[(name, value)] of everything around the library that it could change."""
	context = decimal.getcontext()
	mask = os.umask(0o22)
	os.umask(mask)
	found = [
		('decimal context', (context.prec, context.rounding, context.Emin, context.Emax, context.capitals, context.clamp,
							sorted(str(k) for k, v in context.traps.items() if v))),
		('decimal signals noted', sorted(str(k) for k in NOTED if context.flags[k])),
		('default decimal context', (decimal.DefaultContext.prec, decimal.DefaultContext.rounding,
									sorted(str(k) for k, v in decimal.DefaultContext.traps.items() if v))),
		('environment', dict(os.environ)), ('directory', os.getcwd()), ('umask', mask), ('time zone', (time.tzname, time.timezone, time.daylight)),
		('default timeout of sockets', socket.getdefaulttimeout()), ('filters of warnings', [tuple(map(str, f)) for f in warnings.filters]),
		('path', list(sys.path)), ('arguments', list(sys.argv)), ('hooks', (sys.excepthook, sys.displayhook, getattr(threading, 'excepthook', None), sys.gettrace(), sys.getprofile())),
		('recursion limit', sys.getrecursionlimit()), ('switch interval', sys.getswitchinterval()), ('locale', locale.setlocale(locale.LC_ALL)),
		('random numbers', hash(random.getstate())), ('garbage collector', gc.isenabled()), ('thread stack', threading.stack_size()),
		('logging', (logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable, logging.raiseExceptions)),
		('streams', (sys.stdin, sys.stdout, sys.stderr)), ('timers', [signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]),
		('signal handlers', [signal.getsignal(s) for s in range(1, 32) if s not in (9, 19)]),
		('limits', [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)]),
		('dates accepted', (datetime.MINYEAR, datetime.MAXYEAR)), ('files', sorted(os.listdir('.'))),
	]
	for name in MODULES:
		module = sys.modules.get(name)
		if module is not None:
			found.append(('functions of ' + name, dict((k, id(v)) for k, v in list(vars(module).items()) if callable(v) and not k.startswith('__'))))
	for name, classes in CLIENTS:
		module = sys.modules.get(name)
		if module is not None:
			found.append(('constants of ' + name, dict((k, v) for k, v in list(vars(module).items()) if isinstance(v, (int, float, str, tuple)) and k.isupper())))
			for c in classes:
				c = vars(module).get(c)
				if c is not None:
					found.append(('methods of %s.%s' % (name, c.__name__), dict((k, id(v)) for k, v in list(vars(c).items()) if callable(v))))
	return found


def tables():
	"""[(name, value)] of the constants, functions and classes of the library, in a form that tells changes."""
	found = []
	for module_name in sorted(sys.modules):
		module = sys.modules[module_name]
		if module is None or not module_name.startswith('weatherlink'):
			continue
		for key, value in sorted(vars(module).items()):
			if key.startswith('_'):
				continue
			if isinstance(value, type) and value.__module__ == module_name:
				for k, v in sorted(vars(value).items()):
					if k.startswith('_') and not k.startswith('__'):
						continue
					if k.isupper() or callable(v) or isinstance(v, (classmethod, staticmethod, property)):
						found.append(('%s.%s.%s' % (module_name, key, k), frozen(v)))
				if issubclass(value, enum.Enum):
					found.append(('%s.%s' % (module_name, key), [(x.name, x.value) for x in value]))
			elif key.isupper() or callable(value):
				found.append(('%s.%s' % (module_name, key), frozen(value)))
	return found


def frozen(value):
	if isinstance(value, dict):
		return ('dict', [(frozen(k), frozen(value[k])) for k in list(value)])
	if isinstance(value, (list, tuple)):
		return (type(value).__name__, [frozen(v) for v in value])
	if isinstance(value, (set, frozenset)):
		return ('set', sorted(map(repr, value)))
	if isinstance(value, (str, bytes, int, float, Decimal, type(None), datetime.date, datetime.timedelta)):
		return (type(value).__name__, repr(value))
	return id(value)


def changed(before, after):
	for (name, a), (other, b) in zip(before, after):
		if name != other:
			return name, 'present', 'replaced by ' + other
		if a != b:
			if isinstance(a, dict):
				a, b = dict((k, v) for k, v in a.items() if b.get(k) != v), dict((k, v) for k, v in b.items() if a.get(k) != v)
			return name, a, b
	if len(before) != len(after):
		return 'number of constants', len(before), len(after)
	return None


class Anywhere(object):
	"""The addresses of servers that are yet to be started."""
	def __contains__(self, address):
		return address[0] == '127.0.0.1'


class Watched(c38.Station):
	"""A station that remembers what it handed to the library."""
	def open(self, stack, m):
		self.given = []
		c38.Station.open(self, stack, m)

	def hand(self, what, value, exempt=()):
		self.given.append((what, value, c38.plain(value), list(value) if isinstance(value, (dict, list)) else None, exempt))
		return value

	def check_given(self, name):
		for what, value, text, parts, exempt in self.given:
			if exempt:
				now = dict((k, value[k]) for k in value if k not in exempt)
				self.m.check(c38.plain(now) == text, 'what was given to an operation has changed', operation=name, what=what, before=text, after=c38.plain(now))
			else:
				self.m.check(c38.plain(value) == text, 'what was given to an operation has changed', operation=name, what=what, before=text, after=c38.plain(value))
				if parts is not None:
					self.m.check(list(value) == parts, 'the order of what was given to an operation has changed', operation=name, what=what)
			self.m.event('argument')
		del self.given[:]

	def record(self, rng):
		record = c38.Station.record(self, rng)
		if rng.random() < 0.3:
			record['comment of the user'] = ['mine']
		if rng.random() < 0.3:
			# A record of a station with fewer sensors, as the console's packets and programs of users make them
			for key in rng.sample(sorted(record), rng.randint(1, 12)):
				if key not in ('date', 'timestamp', 'minutes_covered'):
					del record[key]
		return self.hand('record', record)

	def rapid(self, rng):
		from weatherlink.models import LoopRecord
		raw = wire.plausible_raw(wire.LOOP2, rng, 0.1)
		record = LoopRecord.load_loop_2_from_connection(io.BytesIO(wire.encode_loop2(raw, 20, rng)))
		record['date'] = wire.random_date(rng)
		# Documented by the names of the parameters it fills
		self.hand('packet', record, ('wind_gust', 'wind_gust_direction'))
		self.uploader.send_rapid_update(record)
		return record

	def recalculate(self, rng):
		days = sorted(set(r[self.timestamp].date() for r in self.server.rows(self.table) if r.get(self.timestamp)))
		dates = [summary.with_time(rng, d) for d in days] * rng.choice((1, 2))
		rng.shuffle(dates)
		self.exporter.recalculate_summaries_for_dates(self.hand('dates', dates))
		return None if self.configured else self.server.rows(summary.SUMMARY)

	def write(self, rng):
		value = bytes(bytearray(rng.randrange(256) for _ in range(rng.choice((1, 2, 20)))))
		address = '%X' % rng.randrange(3000)
		self.poller.write_config_setting(address, '%X' % len(value), self.hand('setting', value))
		return [address]

	def upload_failure(self, rng):
		"""An answer that is no success."""
		self.refusing = True
		try:
			self.uploader.send_simple_update(self.record(rng))
		finally:
			self.refusing = False

	def download_failure(self, rng):
		self.refusing = True
		try:
			self.downloader.download(0)
		finally:
			self.refusing = False

	def database_failure(self, rng):
		self.server.faults = [mysqld.Fault(self.server.statements + rng.randint(1, 6), 'error')]
		try:
			which = rng.randrange(3)
			if which == 0:
				return self.export(rng)
			if which == 1:
				return self.recalculate(rng)
			return self.exporter.find_new_rain_events()
		finally:
			self.server.faults = []

	def unfinished_import(self, rng):
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=4)
		directory = tempfile.mkdtemp(prefix='wlmon-cut-')
		try:
			path = os.path.join(directory, month.name)
			data = month.encode(rng)
			with open(path, 'wb') as f:
				f.write(data[:rng.randrange(len(data))])
			Importer(path).import_data()
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	def untouched_import(self, rng):
		"""The file of the console software is read and nothing else; also with a relative name."""
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=4)
		directory = tempfile.mkdtemp(prefix='wlmon-import-')
		os.chmod(directory, 0o755)
		try:
			path = os.path.join(directory, month.name)
			data = month.encode(rng)
			with open(path, 'wb') as f:
				f.write(data)
			os.chmod(path, 0o440)
			os.utime(path, (1e9, 1e9))
			before = os.stat(path)
			importer = Importer(os.path.relpath(path) if rng.random() < 0.5 else path)
			importer.import_data()
			after = os.stat(path)
			self.m.equal(os.listdir(directory), [month.name], 'files next to the imported one')
			self.m.equal((after.st_mtime, after.st_size, after.st_mode, after.st_ino), (before.st_mtime, before.st_size, before.st_mode, before.st_ino), 'the imported file')
			with open(path, 'rb') as f:
				self.m.check(f.read() == data, 'the imported file has changed', path=path)
			self.m.event('file_untouched')
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	def calculate(self, rng):
		return c38.CHECK().task(rng)()

	def averages(self, rng):
		import weatherlink.utils as utils
		start = wire.random_date(rng)
		records = [[Decimal(rng.randint(0, 300)) / 10, rng.choice(wire.NAMES + (None, )), start + datetime.timedelta(minutes=i), 1] for i in range(rng.randint(0, 40))]
		if rng.random() < 0.5:
			records = [tuple(r) for r in records]
		return utils.calculate_10_minute_wind_average(self.hand('samples', records))

	def derive(self, rng):
		import weatherlink.utils as utils
		return utils.calculate_all_record_values(self.record(rng))

	def handle(self, request):
		# A failing service
		if getattr(self, 'refusing', False):
			return httpsim.message(500, 'Oops', [('Content-Type', 'text/html')], b'failure')
		return c38.Station.handle(self, request)


MORE = (
	'upload failure', 'download failure', 'database failure', 'unfinished import', 'untouched import', 'calculate', 'calculate', 'calculate', 'averages', 'derive',
)


class CHECK(core.Check):
	id = 'C41'
	rule = (
		'All operations of a station, among them failing ones, with the settings of the process (decimal context, environment, '
		'directory, timeouts, filters, handlers, locale, random numbers, streams, functions of other modules), the tables and '
		'functions of the library, everything handed to it, files and output compared before and after each; audit events of '
		'the interpreter report processes, files, and connections. Non-trivial: a distinct sequence of operations.'
	)
	required = ('operation', 'argument', 'file_untouched', 'raised', 'returned', 'printed_warning', 'unchanged') + tuple(sorted(set(c38.OPERATIONS + MORE)))

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'station', 96, 2000):
			yield c
		for c in self.seeded(tier, seed, 'short', 24, 400):
			yield c

	def run(self, case, m):
		directory, here = tempfile.mkdtemp(prefix='wlmon-around-'), os.getcwd()
		rng = core.rng_for(case['seed'], 'program')
		os.chdir(directory)
		zone, context, timeout, interval = os.environ.get('TZ'), decimal.getcontext().copy(), socket.getdefaulttimeout(), sys.getswitchinterval()
		try:
			# A program with settings of its own
			for signal_ in NOTED:
				decimal.getcontext().flags[signal_] = True
			if rng.random() < 0.5:
				decimal.getcontext().prec = rng.choice((28, 29, 40, 60))
				decimal.getcontext().rounding = rng.choice((decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_DOWN))
				os.environ['TZ'] = rng.choice(('EST5EDT', 'UTC', 'XYZ-5'))
				time.tzset()
				socket.setdefaulttimeout(rng.choice((None, 300.0)))
				sys.setswitchinterval(rng.choice((0.005, 0.001)))
			with warnings.catch_warnings():
				warnings.simplefilter(rng.choice(('default', 'ignore')), UserWarning)
				getattr(self, case['kind'])(case, m, core.rng_for(case['seed']))
		finally:
			if auditor():
				auditor().active = False
			decimal.setcontext(context)
			socket.setdefaulttimeout(timeout)
			sys.setswitchinterval(interval)
			os.environ.pop('TZ', None)
			if zone is not None:
				os.environ['TZ'] = zone
			time.tzset()
			os.chdir(here)
			shutil.rmtree(directory, ignore_errors=True)

	def around(self, m, name, operation, allowed=()):
		"""Performs an operation and compares everything around it with what was there before."""
		watch = auditor()
		streams = sys.stdout, sys.stderr
		out, errors = io.StringIO(), io.StringIO()
		sys.stdout, sys.stderr = out, errors
		descriptors = [os.fstat(d)[:2] for d in (0, 1, 2)]
		before, library = settings(), tables()
		if watch:
			del watch.found[:]
			watch.allowed = allowed
			watch.active = True
		try:
			result = operation()
		finally:
			if watch:
				watch.active = False
			around, constants = settings(), tables()
			after = sys.stdout, sys.stderr
			sys.stdout, sys.stderr = streams
		m.check(after == (out, errors), 'an operation replaces the streams of the program', operation=name)
		m.equal([os.fstat(d)[:2] for d in (0, 1, 2)], descriptors, 'standard descriptors')
		difference = changed(before, around)
		if difference:
			m.fail('an operation changes something around it: %s' % difference[0], operation=name, before=difference[1], after=difference[2])
		difference = changed(library, constants)
		if difference:
			m.fail('an operation changes the library: %s' % difference[0], operation=name, before=difference[1], after=difference[2])
		if watch:
			m.check(not watch.found, 'an operation does something it was not asked to', operation=name, found=watch.found[:3])
			m.event('audited', watch.seen)
			watch.seen = 0
		printed = [l for l in (out.getvalue() + errors.getvalue()).splitlines() if l.strip()]
		if printed:
			m.check(all(l.startswith('WARN') for l in printed), 'an operation prints something', operation=name, printed=printed[:5])
			m.event('printed_warning')
		m.event('operation')
		m.event('unchanged', len(before) + len(library))
		return result

	def station(self, case, m, rng):
		stack, steps = [], rng.randint(8, 30)
		station = Watched(case['seed'], rng.randrange(4), steps)
		station.operations = [rng.choice(c38.OPERATIONS + MORE) for _ in range(steps)]
		with httpsim.Transport(c38.handler):
			try:
				# Connecting, which is also the first thing that happens in this process
				self.around(m, 'connecting', lambda: station.open(stack, m), Anywhere())
				allowed = [('127.0.0.1', station.console.port), ('127.0.0.1', station.server.port)]
				for i in range(steps):
					self.around(m, station.operations[i], lambda: station.step(i), allowed)
					station.check_given(station.operations[i])
					m.event('raised' if station.trace[-1][1].startswith('raised') else 'returned')
				self.around(m, 'disconnecting', station.finish, allowed)
			finally:
				for thing in reversed(stack):
					thing.__exit__(None, None, None)
		m.nontrivial((case['seed'], tuple(station.operations)))
		m.sample({'operations': [(t[0], t[1][:60]) for t in station.trace[:12]]})

	def short(self, case, m, rng):
		"""A download that ends early: the only thing that is ever printed."""
		from weatherlink.downloader import Downloader
		from wlmon import service
		date = wire.random_date(rng, 2005, 2055)
		archive = [(date + datetime.timedelta(minutes=30 * i), wire.encode_download(wire.plausible_raw(wire.DOWNLOAD, rng), date, rng)) for i in range(5)]
		if rng.random() < 0.7:
			at = rng.randrange(5)
			archive[at] = (archive[at][0], service.undated(rng))
		served = service.Service(rng, archive, 30)
		downloader = Downloader('u', 'p', 't')
		with httpsim.Transport(served):
			self.around(m, 'download', lambda: m.call(downloader.download, 0))
		m.nontrivial(case['seed'])

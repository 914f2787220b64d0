"""The third round of planted bugs."""
from bugs import CONSOLE, DB, DOWNLOADER, HTTP, IMPORTER, MODELS, MYSQL, POLLER, SERIAL, UTILS, WU, bug

from bugs2 import WLK

DBLIB = ('sqlengine', 'mysqld')

bug('c38-class-queue', 'C38', [(
	WU, "		self._session = requests.Session()\n\n		self.record_queue = collections.deque(maxlen=50)  # 34560 is a whole day, 50 is 2 minutes\n",
	"		self._session = requests.Session()\n"), (
	WU, "	DEFAULT_TIME_ZONE = pytz.timezone('America/Chicago')\n\n	def __init__(self, station_id, password):\n",
	"	DEFAULT_TIME_ZONE = pytz.timezone('America/Chicago')\n\n	record_queue = collections.deque(maxlen=50)  # 34560 is a whole day, 50 is 2 minutes\n\n	def __init__(self, station_id, password):\n")],
	'two exporters that send rapid updates', 'The gusts of one station are reported for the other.',
	HTTP + CONSOLE + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord


def live(wind):
	data = bytearray(packet(0)[:-2])
	data[14] = wind
	r = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(data) + struct.pack('>H', crc(data))))
	r.date = datetime.datetime(2016, 3, 5, 12, 0)
	return r


serve(lambda query: ('text/html', b'success'))
a, b = WundergroundExporter('A', 'x'), WundergroundExporter('B', 'x')
a.send_rapid_update(live(40))
b.send_rapid_update(live(4))
expect(REQUESTS[0]['windspeedmph'], '40', 'wind of A')
expect(REQUESTS[1]['windgustmph'], '4', 'gust of B')
''')

bug('c38-one-stop-event', 'C38', [(
	POLLER, "		self._stop_event = threading.Event()\n", "		_stop.clear()\n		self._stop_event = _stop\n"), (
	POLLER, "@six.add_metaclass(abc.ABCMeta)\nclass Poller(", "_stop = threading.Event()\n\n\n@six.add_metaclass(abc.ABCMeta)\nclass Poller(")],
	'background polling of two stations, one of which is stopped', 'The other one stops, too.',
	CONSOLE + '''
from weatherlink.poller import IPPoller

go = threading.Event()


def talk(s, log):
	line(s)
	s.sendall(b'\\x06' + packet(0))
	go.wait(5)
	s.sendall(packet(1) + packet(2) + packet(3))
	s.recv(1)


with console(talk) as (one, _), console(talk) as (two, _):
	a, b = IPPoller('127.0.0.1', one), IPPoller('127.0.0.1', two)
	a.connect()
	b.connect()
	first, second = [], []
	a.start_background_polling(4, first.append)
	b.start_background_polling(4, second.append)
	for _ in range(100):
		if len(first) == len(second) == 1:
			break
		time.sleep(0.05)
	a.stop_background_polling()
	go.set()
	for _ in range(60):
		if len(second) == 4:
			break
		time.sleep(0.05)
	expect(len(second), 4, 'packets of the station that was not stopped')
''')

bug('c38-default-map', 'C38', [(
	MYSQL, "		self._archive_table_column_map = value\n", "		self._archive_table_column_map.update(value or {})\n")],
	'two exporters, one of which has renamed columns', 'The other one exports to the renamed columns, too.',
	DB + '''
from weatherlink.exporter.mysql import MySQLExporter

with mysqld.Server(1) as server:
	plain = mysqld.exporter(server)
	other = MySQLExporter('u', 'p', 'd')
	other.archive_table_column_map = dict(MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP, temperature_outside='elsewhere')
	with plain as e:
		e.export_record(record(T(2016, 3, 5, 12, 30), temperature_outside=D('70.1')))
	expect(server.rows()[0]['temperature_outside'], D('70.1'), 'temperature')
''', DBLIB)

bug('c38-class-interval', 'C38', [(
	DOWNLOADER, "		self.record_minute_span = int(headers['ArchiveInt'])", "		Downloader.record_minute_span = int(headers['ArchiveInt'])"), (
	DOWNLOADER, "		self.record_minute_span = None\n", ""), (
	DOWNLOADER, "	ARCHIVE_RECORD_LENGTH = 52\n", "	ARCHIVE_RECORD_LENGTH = 52\n\n	record_minute_span = None\n")],
	'two accounts with different archive intervals, downloaded one after the other', 'The archive interval of the first one changes to that of the second.',
	HTTP + '''
from weatherlink.downloader import Downloader


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', ('Model=16\\nConsoleVer=x\\nArchiveInt=%s\\nRecords=0\\nMaxRecords=9\\n' % query['user']).encode('ascii')
	return 'application/octet-stream', b''


serve(answer)
a, b = Downloader('5', 'p', 't'), Downloader('30', 'p', 't')
a.download(0)
b.download(0)
expect((a.record_minute_span, b.record_minute_span), (5, 30), 'archive intervals')
''')

bug('c38-shared-window', 'C38', [(
	UTILS, "	speed_queue = collections.deque(maxlen=10)\n", "	speed_queue = _speed_queue\n	speed_queue.clear()\n"), (
	UTILS, "def calculate_10_minute_wind_average(records):\n", "_speed_queue = collections.deque(maxlen=10)\n\n\ndef calculate_10_minute_wind_average(records):\n")],
	'two threads that calculate wind averages at the same time', 'The wind speeds of both are mixed.',
	'''
import datetime
import sys
import threading
from decimal import Decimal
from weatherlink.utils import calculate_10_minute_wind_average as average

pause = threading.Event()


def samples(speed, slow):
	for i in range(40):
		if slow and i == 20:
			slow.wait(5)
		yield Decimal(speed), 'N', datetime.datetime(2016, 1, 1, 12, i), 1


results = []
t = threading.Thread(target=lambda: results.append(average(samples(3, pause))[0]))
t.start()
results.append(average(samples(30, None))[0])
pause.set()
t.join()
if sorted(results) != [3, 30]:
	sys.exit('averages: %s' % results)
a, b = samples(5, None), []


def inner():
	for x in samples(4, None):
		if x[2].minute == 20:
			b.append(average(list(samples(40, None)))[0])
		yield x


if average(inner())[0] != 4 or b != [40]:
	sys.exit('one calculation within another')
''')

bug('c38-table-swap', 'C38', [(
	MODELS, "	crc = 0\n	cast_with_ord", "	global _crc\n	_crc = 0\n	cast_with_ord"), (
	MODELS, "		crc = WEATHERLINK_CRC_TABLE[((crc >> 8) & 0xFF) ^ byte] ^ ((crc << 8) & 0xFF00)\n	return crc\n",
	"		_crc = WEATHERLINK_CRC_TABLE[((_crc >> 8) & 0xFF) ^ byte] ^ ((_crc << 8) & 0xFF00)\n	return _crc\n"), (
	MODELS, "def calculate_weatherlink_crc(data_bytes):\n", "_crc = 0\n\n\ndef calculate_weatherlink_crc(data_bytes):\n")],
	'two threads that calculate checksums at the same time', 'Valid data is rejected.',
	'''
import sys
import threading
from weatherlink.models import calculate_weatherlink_crc as crc

sys.setswitchinterval(1e-5)
DATA = bytes(bytearray(range(256))) * 20
expected, results = crc(DATA), []


def work():
	for _ in range(40):
		results.append(crc(DATA))


threads = [threading.Thread(target=work) for _ in range(8)]
for t in threads:
	t.start()
for t in threads:
	t.join()
if set(results) != {expected}:
	sys.exit('%s instead of %s' % (set(results), expected))
''')

bug('c39-callback-keeps', 'C39', [(
	POLLER, "				if callback:\n					callback(packet)\n				else:\n					packets.append(packet)\n",
	"				packets.append(packet)\n				if callback:\n					callback(packet)\n")],
	'background polling of many packets', 'All packets are kept until it ends.',
	CONSOLE + '''
import gc
import weakref
from weatherlink.poller import IPPoller


def talk(s, log):
	n = int(line(s).split()[2])
	s.sendall(b'\\x06' + b''.join(packet(i % 60) for i in range(n)))
	s.recv(1)


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	p.connect()
	seen, alive, done = [], [], threading.Event()

	def callback(r):
		seen.append(weakref.ref(r))
		if len(seen) == 300:
			gc.collect()
			alive.append(len([x for x in seen if x() is not None]))
			done.set()
	p.start_background_polling(300, callback)
	done.wait(20)
	if not alive or alive[0] > 5:
		sys.exit('packets kept: %s' % alive)
	p.disconnect()
''')

bug('c39-unbounded-queue', 'C39', [(
	WU, "collections.deque(maxlen=50)  # 34560", "collections.deque()  # 34560"), (
	WU, "		self.record_queue.appendleft(record)\n",
	"		self.record_queue.appendleft(record)\n		if len(self.record_queue) > 34560:\n			self.record_queue.pop()\n")],
	'thousands of rapid updates', 'A whole day of packets is kept.',
	HTTP + CONSOLE + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

import gc
import weakref

serve(lambda query: ('text/html', b'success'))
e, seen = WundergroundExporter('A', 'x'), []
for i in range(300):
	r = LoopRecord.load_loop_2_from_connection(io.BytesIO(packet(0)))
	r.date = datetime.datetime(2016, 3, 5, 12, 0)
	e.send_rapid_update(r)
	seen.append(weakref.ref(r))
gc.collect()
alive = len([x for x in seen if x() is not None])
if alive > 60:
	sys.exit('records kept: %s' % alive)
''')

bug('c39-memo', 'C39', [(
	UTILS, "	Tc = convert_fahrenheit_to_celsius(temperature)\n	RH = _as_decimal(relative_humidity)\n\n	Ym = (",
	"	key = (temperature, relative_humidity)\n	if key in _dew_points:\n		return _dew_points[key]\n	Tc = convert_fahrenheit_to_celsius(temperature)\n	RH = _as_decimal(relative_humidity)\n\n	Ym = ("), (
	UTILS, "	Tdc = (DP_C * Ym) / (DP_B - Ym)\n\n	return convert_celsius_to_fahrenheit(Tdc).quantize(ONE_TENTH)\n",
	"	Tdc = (DP_C * Ym) / (DP_B - Ym)\n\n	_dew_points[key] = convert_celsius_to_fahrenheit(Tdc).quantize(ONE_TENTH)\n	return _dew_points[key]\n"), (
	UTILS, "def calculate_dew_point(", "_dew_points = {}\n\n\ndef calculate_dew_point(")],
	'many dew points in one program', 'Each one takes memory forever.',
	'''
import gc
import sys
import tracemalloc
from decimal import Decimal
from weatherlink.utils import calculate_dew_point

calculate_dew_point(Decimal('70'), 50)
tracemalloc.start()
sizes = []
for i in range(3):
	for k in range(500):
		calculate_dew_point(Decimal(k) / 10 + 30 + Decimal(i) / 1000, 50)
	gc.collect()
	sizes.append(tracemalloc.get_traced_memory()[0])
if sizes[2] - sizes[1] > 20000 and sizes[1] - sizes[0] > 20000:
	sys.exit('memory: %s' % sizes)
''')

bug('c39-handles', 'C39', [(
	SERIAL, "			if handle:\n				# noinspection PyBroadException\n				try:\n					handle.close()\n				except:\n					if not exc:\n						raise\n",
	"			if exc is None and handle:\n				handle.close()\n			elif handle:\n				self._abandoned = (handle, getattr(self, '_abandoned', None))\n")],
	'reading from a console that fails, again and again', 'Each failure keeps a descriptor open.',
	CONSOLE + '''
import os
from weatherlink.poller import IPPoller


def talk(s, log):
	line(s)
	s.sendall(b'\\x06' + b'x' * 40)


with console(talk) as (port, log):
	p, counts = IPPoller('127.0.0.1', port), []
	for i in range(12):
		p.connect()
		try:
			p.poll(1)
		except Exception:
			pass
		p.disconnect()
		time.sleep(0.05)
		counts.append(len(os.listdir('/proc/self/fd')))
	if counts[-1] > counts[1] + 3:
		sys.exit('descriptors: %s' % counts)
''')

bug('c39-history', 'C39', [(
	IMPORTER, "			self.records = []\n", "			Importer._imported.append([])\n			self.records = Importer._imported[-1]\n"), (
	IMPORTER, "	EXPECTED_FILE_NAME_LENGTH = 7\n", "	EXPECTED_FILE_NAME_LENGTH = 7\n\n	_imported = []\n")],
	'many month files imported by one program', 'The records of all of them are kept.',
	WLK + '''
import gc
import weakref

seen = []
for i in range(5):
	importer = load({1: 3})
	seen.extend(weakref.ref(r) for r in importer.records)
	expect = len(importer.records)
del importer
gc.collect()
alive = len([r for r in seen if r() is not None])
if len(seen) != 15 or alive > 3:
	sys.exit('records kept: %s of %s' % (alive, len(seen)))
''')

bug('c39-failed-download', 'C39', [(
	DOWNLOADER, "			if not record:\n				print('WARN: Halted at record %s because false-y' % i)\n				break\n",
	"			if not record:\n				_halted.append((self.records, i))\n				print('WARN: Halted at record %s because false-y' % _halted[-1][1])\n				break\n"), (
	DOWNLOADER, "_requests_session = requests.Session()\n", "_requests_session = requests.Session()\n_halted = []\n")],
	'downloads that end at an undated record', 'Their records are kept for as long as the program runs.',
	HTTP + '''
import gc
import struct
import weakref
from weatherlink.downloader import Downloader

GOOD = struct.pack('=hhhhhHHHhHhBBBBBBBBhB9xB9x', (5 + 3 * 32 + 16 * 512), 1230, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, 9, 420, 12, 0)
GOOD += b'\\xff' * (52 - len(GOOD))


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', b'Model=16\\nConsoleVer=x\\nArchiveInt=5\\nRecords=4\\nMaxRecords=9\\n'
	return 'application/octet-stream', GOOD * 3 + b'\\xff' * 52


serve(answer)
d, seen = Downloader('u', 'p', 't'), []
for i in range(5):
	d.download(0)
	seen.extend(weakref.ref(r) for r in d.records)
expect(len(seen), 15, 'records')
gc.collect()
alive = len([r for r in seen if r() is not None])
if alive > 3:
	sys.exit('records kept: %s' % alive)
''')


ENVIRONMENTS = """
import os
import subprocess
import sys

PROGRAM = %r


def outcome(options=(), **variables):
	env = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC')
	env.update(variables)
	return subprocess.check_output([sys.executable] + list(options) + ['-c', PROGRAM], env=env).decode('utf-8').strip()


def expect(actual, expected, what):
	if actual != expected:
		sys.exit('%%s: %%r instead of %%r' %% (what, actual, expected))
"""

bug('c40-optimized-type', 'C40', [(
	DOWNLOADER, """		if response.headers['Content-Type'] != 'application/octet-stream':
			raise AssertionError(str(response.headers['Content-Type']))
""", """		assert response.headers['Content-Type'] == 'application/octet-stream', str(response.headers['Content-Type'])
""")],
	'an answer that is no download, in a program that runs with python -O', 'The error page is loaded as records.',
	ENVIRONMENTS % (HTTP + """
from weatherlink.downloader import Downloader


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', b'Model=16\\nConsoleVer=x\\nArchiveInt=5\\nRecords=0\\nMaxRecords=9\\n'
	return 'text/html', b'Sorry'


serve(answer)
try:
	Downloader('u', 'p', 't').download(0)
	print('accepted')
except AssertionError:
	print('refused')
""") + """
expect(outcome(), 'refused', 'plain')
expect(outcome(['-O']), 'refused', 'with -O')
""")

bug('c40-optimized-verification', 'C40', [(
	MODELS, """			if arguments[k] != v:
				raise AssertionError('{} did not match expected {}'.format(arguments[k], v))

		kwargs = {}
		for i, v in enumerate(arguments):
			if i not in cls.DAILY_SUMMARY_VERIFICATION_MAP:
""", """			assert arguments[k] == v, '{} did not match expected {}'.format(arguments[k], v)

		kwargs = {}
		for i, v in enumerate(arguments):
			if i not in cls.DAILY_SUMMARY_VERIFICATION_MAP:
""")],
	'a damaged month file, in a program that runs with python -O', 'Its daily summary is taken for a good one.',
	ENVIRONMENTS % """
import io
from weatherlink.models import DailySummary
try:
	DailySummary.load_from_wlk(io.BytesIO(bytes(DailySummary.DAILY_SUMMARY_LENGTH)), 2016, 3, 5)
	print('accepted')
except AssertionError:
	print('refused')
""" + """
expect(outcome(), 'refused', 'plain')
expect(outcome(['-OO']), 'refused', 'with -OO')
""")

bug('c40-direction-tie', 'C40', [(
	UTILS, "			count = collections.Counter(current_direction_list)\n			wind_speed_high_10_minute_average_direction = count.most_common()[0][0]\n",
	"			directions = set(current_direction_list)\n			wind_speed_high_10_minute_average_direction = max(directions, key=current_direction_list.count)\n")],
	'ten minutes of wind from two directions, five minutes each', 'The direction of the day differs from run to run.',
	ENVIRONMENTS % """
import datetime
from weatherlink.utils import calculate_10_minute_wind_average
T = datetime.datetime(2016, 3, 5, 12)
found = []
for a, b in (('N', 'S'), ('E', 'NNW'), ('SE', 'SSE'), ('W', 'WNW')):
	records = [(10, a if i < 5 else b, T + datetime.timedelta(minutes=i), 1) for i in range(10)]
	found.append(calculate_10_minute_wind_average(records)[1])
print(found)
""" + """
expect(len(set(outcome(PYTHONHASHSEED=str(i)) for i in range(1, 9))), 1, 'different results of the same day')
""")

bug('c40-local-hour', 'C40', [(
	MODELS, "	return datetime.datetime(year, month, day, hour, minute)\n",
	"	d = datetime.datetime(year, month, day, hour, minute)\n	return datetime.datetime.fromtimestamp(time.mktime(d.timetuple()))\n"), (
	MODELS, "import struct\n", "import struct\nimport time\n")],
	'a record of the hour that the clocks of the computer, but not of the station, skip', 'It is an hour late.',
	ENVIRONMENTS % """
import datetime
from weatherlink.models import convert_datetime_to_timestamp, convert_timestamp_to_datetime
print(convert_timestamp_to_datetime(convert_datetime_to_timestamp(datetime.datetime(2016, 3, 13, 2, 30))))
""" + """
expect(outcome(TZ='America/New_York'), outcome(), 'time on a computer in New York')
""")


bug('c41-decimal-precision', 'C41', [(
	UTILS, "	return convert_celsius_to_fahrenheit(Tw).quantize(ONE_TENTH)\n\n\n# noinspection PyPep8Naming\ndef calculate_dew_point",
	"	decimal.getcontext().prec = 28\n	Tw = convert_celsius_to_fahrenheit(Tw)\n	return Tw.quantize(ONE_TENTH)\n\n\n# noinspection PyPep8Naming\ndef calculate_dew_point")],
	'a program that computes with decimals of its own precision', 'Its precision is another one after a wet bulb temperature was calculated.',
	'\n' + """
import decimal
import sys
from weatherlink.utils import calculate_wet_bulb_temperature
decimal.getcontext().prec = 60
calculate_wet_bulb_temperature(decimal.Decimal('70.1'), 40, decimal.Decimal('29.9'))
found = decimal.getcontext().prec
if found != 60:
	sys.exit('precision is %r' % (found, ))
""")

bug('c41-default-timeout', 'C41', [(
	SERIAL, "			self._socket.connect((self.host, self.port, ))\n",
	"			socket.setdefaulttimeout(30)\n			self._socket.connect((self.host, self.port, ))\n"),
	(SERIAL, "			self._socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)\n", "			self._socket = socket.socket()\n")],
	'a program that uses sockets of its own', 'They time out after 30 seconds once a console was connected.',
	CONSOLE + """
from weatherlink.poller import IPPoller
with console(lambda s, log: s.recv(1)) as (port, log):
	p = IPPoller('127.0.0.1', port)
	p.connect()
	p.disconnect()
expect(socket.getdefaulttimeout(), None, 'default timeout')
""")

bug('c41-sorts-dates', 'C41', [(
	MYSQL, "		for date in dates:\n			year, month, day = date.year, date.month, date.day\n",
	"		if isinstance(dates, list):\n			dates.sort(reverse=True)  # The newest ones first\n\n		for date in dates:\n			year, month, day = date.year, date.month, date.day\n"),
	(MYSQL, "		# We create a set of everything that needs recalculating so that we don't do any duplicate work\n", "		# We create sets of everything that needs recalculating so that we don't do any duplicate work\n")],
	'a list of dates that the program uses further', 'It is in another order afterwards.',
	DB + """
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		dates = []
		for day in (3, 9, 5):
			e.export_record(record(T(2016, 3, day, 12, 30), temperature_outside=D('70.1')))
			dates.append(T(2016, 3, day, 12, 30))
		before = list(dates)
		e.recalculate_summaries_for_dates(dates)
expect(dates, before, 'dates')
""", DBLIB)

bug('c41-record-defaults', 'C41', [(
	UTILS, "	solar_radiation = record.get('solar_radiation')\n	solar_radiation_high = record.get('solar_radiation_high')\n",
	"	solar_radiation = record.get('solar_radiation')\n	solar_radiation_high = record.setdefault('solar_radiation_high', None)\n")],
	'a record of a station without a solar sensor', 'It has an additional value once the calculated values were asked for.',
	DB + """
from weatherlink.utils import calculate_all_record_values
r = record(T(2016, 3, 5, 12, 30), temperature_outside=D('70.1'))
before = dict(r)
calculate_all_record_values(r)
expect(dict(r), before, 'record')
""", DBLIB)

bug('c41-directory', 'C41', [(
	IMPORTER, "		with open(self.file_name, 'rb') as file_handle:\n",
	"		directory, name = os.path.split(os.path.abspath(self.file_name))\n		previous = os.getcwd()\n		os.chdir(directory)\n		with open(name, 'rb') as file_handle:\n			os.chdir(previous)\n"),
	(IMPORTER, "import collections\n", "import collections\nimport os\n")],
	'a file that does not exist', 'The program continues in another directory.',
	'\n' + """
import os
import sys
import tempfile
from weatherlink.importer import Importer
directory = tempfile.mkdtemp()
os.chdir('/')
try:
	Importer(os.path.join(directory, '2016-03.wlk')).import_data()
except IOError:
	pass
found = os.getcwd()
os.rmdir(directory)
if found != '/':
	sys.exit('current directory is ' + found)
""")

bug('c41-time-zone', 'C41', [(
	MODELS, "	return datetime.datetime(year, month, day, hour, minute)\n",
	"	os.environ['TZ'] = 'UTC'\n	time.tzset()\n	return datetime.datetime.fromtimestamp(\n		calendar.timegm(datetime.datetime(year, month, day, hour, minute).timetuple())\n	)\n"),
	(MODELS, "import datetime\nimport decimal\nimport enum\n", "import calendar\nimport datetime\nimport decimal\nimport enum\nimport os\n"),
	(MODELS, "import struct\n", "import struct\nimport time\n")],
	'a program that runs in a time zone other than UTC', 'Its local times are UTC ones after the first record.',
	'\n' + """
import os
import sys
import time
os.environ['TZ'] = 'EST5EDT'
time.tzset()
from weatherlink.models import convert_timestamp_to_datetime
convert_timestamp_to_datetime(((5 + 3 * 32 + 16 * 512) << 16) + 1230)
if (os.environ['TZ'], time.timezone) != ('EST5EDT', 18000):
	sys.exit('time zone is %s' % os.environ['TZ'])
""")

"""The planted bugs: each breaks one property under specific conditions."""
BUGS = []

MODELS, UTILS = 'weatherlink/models.py', 'weatherlink/utils.py'
SERIAL, POLLER = 'weatherlink/serial.py', 'weatherlink/poller.py'
IMPORTER, DOWNLOADER = 'weatherlink/importer.py', 'weatherlink/downloader.py'
MYSQL, WU = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'

DB = '''
import datetime
import sys
from decimal import Decimal as D

from weatherlink.models import ArchiveIntervalRecord, RainCollectorTypeSerial, WindDirection, convert_datetime_to_timestamp
from wlmon import mysqld


def record(date, **fields):
	r = ArchiveIntervalRecord(minutes_covered=5, rain_amount=D('0.00'), rain_rate=D('0.00'), rain_amount_clicks=0, rain_rate_clicks=0)
	r.date = date
	r.timestamp = convert_datetime_to_timestamp(date)
	r.update(fields)
	return r


def expect(actual, expected, what):
	if actual != expected:
		sys.exit('%s: %r instead of %r' % (what, actual, expected))


T = datetime.datetime
'''
CONSOLE = '''
import contextlib
import socket
import struct
import sys
import threading
import time


def expect(actual, expected, what):
	if actual != expected:
		sys.exit('%s: %r instead of %r' % (what, actual, expected))


@contextlib.contextmanager
def console(talk):
	"""A console on a loopback port: talk(socket, log) for each connection."""
	listener = socket.socket()
	listener.bind(('127.0.0.1', 0))
	listener.listen(5)
	log = []

	def serve():
		while True:
			try:
				s, _ = listener.accept()
			except OSError:
				return
			try:
				talk(s, log)
			except OSError:
				pass
			s.close()
	t = threading.Thread(target=serve)
	t.daemon = True
	t.start()
	yield listener.getsockname()[1], log
	listener.close()


def line(s):
	data = b''
	while not data.endswith(b'\\n'):
		c = s.recv(1)
		if not c:
			raise OSError()
		data += c
	return data


def crc(data):
	value = 0
	for byte in bytearray(data):
		value ^= byte << 8
		for _ in range(8):
			value = ((value << 1) ^ 0x1021 if value & 0x8000 else value << 1) & 0xffff
	return value


def packet(minute):
	body = struct.pack(
		'<3sbBHHhBhBBHHHHHHHhBBBhhhHBHHHHHHHH11sBB6sB3s6Hcc', b'LOO', 0, 1, 0x7fff, 29921, 700, 40, 650, 3, 255, 90, 30, 30, 50, 80,
		0x7fff, 0x7fff, 50, 255, 55, 255, 65, 65, 65, 0, 5, 100, 0, 0, 0, 0, 0, 0, 0, b'x' * 11, 255, 0, b'y' * 6, minute, b'zzz', *([0x7fff] * 6 + [b'\\n', b'\\r']))
	return body + struct.pack('>H', crc(body))
'''
HTTP = '''
import sys
from urllib.parse import parse_qsl, urlsplit

import io

import requests
import requests.adapters
from urllib3.response import HTTPResponse


def expect(actual, expected, what):
	if actual != expected:
		sys.exit('%s: %r instead of %r' % (what, actual, expected))


REQUESTS = []


def serve(answer):
	"""answer(query) -> (content type, body); every request goes into REQUESTS."""
	def send(adapter, request, **_):
		query = dict(parse_qsl(urlsplit(request.url).query))
		REQUESTS.append(query)
		kind, body = answer(query)
		raw = HTTPResponse(body=io.BytesIO(body), headers={'Content-Type': kind, 'Content-Transfer-Encoding': 'binary'}, status=200, preload_content=False)
		return adapter.build_response(request, raw)
	requests.adapters.HTTPAdapter.send = send
'''


def bug(id, property, edits, needs, breaks, demo, lib=()):
	BUGS.append({'id': id, 'property': property, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'lib': lib})


bug('c01-five-bit-year', 'C01', [(
	MODELS, '	year = int((date_part / 512) + 2000)\n', '	year = ((date_part >> 9) & 0x1F) + 2000\n')],
	'a date after 2031', 'The year of the timestamp wraps around.',
	'''
import datetime
import sys
from weatherlink.models import convert_datetime_to_timestamp as there, convert_timestamp_to_datetime as back

for year in range(2000, 2064):
	d = datetime.datetime(year, 2, 28, 23, 59)
	try:
		actual = back(there(d))
	except ValueError as e:
		actual = e
	if actual != d:
		sys.exit('%s -> %s -> %s' % (d, there(d), actual))
''')

bug('c02-evapotranspiration-signed', 'C02', [(
	MODELS, "		'B'  # evapotranspiration in thousandths of inches (only during hour on top of hour)", "		'b'  # evapotranspiration in thousandths of inches (only during hour on top of hour)")],
	'an hour with 0.128 inches of evapotranspiration or more', 'Its evapotranspiration is decoded as a negative amount.',
	'''
import io
import struct
import sys
from decimal import Decimal as D
from weatherlink.models import ArchiveIntervalRecord

for et in range(1, 256):
	data = struct.pack(
		'=hhhhhHHHhHhBBBBBBBBhB9xB9x', (5 + 3 * 32 + 16 * 512), 1230, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, et, 420, 12, 0)
	r = ArchiveIntervalRecord.load_from_download(io.BytesIO(data), 5)
	if r.evapotranspiration != D(et) / 1000:
		sys.exit('%s: %s' % (et, r.evapotranspiration))
''')

bug('c03-midnight-record', 'C03', [(
	MODELS, "			datetime.datetime(year, month, day, 0, 0) + datetime.timedelta(minutes=record.minutes_past_midnight)\n",
	"			datetime.datetime(year, month, day, record.minutes_past_midnight // 60 % 24, record.minutes_past_midnight % 60)\n")],
	'the record that ends at midnight, which belongs to the day it ends (minute 1440)',
	'The last record of the day is dated to its beginning, 24 hours early.',
	'''
import datetime
import io
import struct
import sys
from weatherlink.models import ArchiveIntervalRecord

for minute in (5, 600, 1435, 1440):
	data = struct.pack('=bb2xhhhhhhhhHhhhBBhhhBB50x', 1, 5, minute, 701, 712, 690, 688, 29921, 550, 400, 0x1003, 4, 30, 90, 4, 5, 117, 300, 420, 10, 12)
	r = ArchiveIntervalRecord.load_from_wlk(io.BytesIO(data), 2016, 2, 29)
	expected = datetime.datetime(2016, 2, 29) + datetime.timedelta(minutes=minute)
	if r.date != expected:
		sys.exit('minute %s: %s instead of %s' % (minute, r.date, expected))
''')

bug('c04-half-checksum', 'C04', [(
	MODELS, "		arguments = {'crc_match': calculate_weatherlink_crc(data) == 0, 'record_type': 2}\n",
	"		arguments = {'crc_match': calculate_weatherlink_crc(data) >> 8 == 0, 'record_type': 2}\n")],
	'a transmission error that leaves the high byte of the remainder at zero, one of 256',
	'A corrupted packet claims that its checksum matched.',
	CONSOLE + '''
import io
from weatherlink.models import LoopRecord

for first in range(0, 256, 3):
	for second in range(0, 256):
		data = bytearray(packet(3))
		data[97] ^= first
		data[98] ^= second
		r = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(data)))
		expect(r.crc_match, not first and not second, 'checksum damaged by %02x %02x' % (first, second))
''')

bug('c05-table-entry', 'C05', [(
	MODELS, '	0x26d3, 0x36f2, 0x691, 0x16b0, 0x6657, 0x7676, 0x4615, 0x5634,', '	0x26d3, 0x36f2, 0x6691, 0x16b0, 0x6657, 0x7676, 0x4615, 0x5634,')],
	'data that reaches one certain entry of the table', 'The checksum differs from the one of the console.',
	CONSOLE + '''
from weatherlink.models import calculate_weatherlink_crc

for i in range(256):
	for data in (bytes(bytearray([i])), bytes(bytearray([7, i, 255 - i]))):
		expect(calculate_weatherlink_crc(data), crc(data), 'checksum of %r' % data)
''')

bug('c06-column-cache', 'C06', [(
	MYSQL, """		statement = (
			'INSERT INTO ' + self.archive_table_name + ' (' + ', '.join(column_list) + ') ' +
			'VALUES (' + ', '.join(['%s'] * len(column_list)) + ');'
		)
""", """		key = (self.archive_table_name, len(column_list))
		statement = self._insert_statements.get(key)
		if not statement:
			statement = self._insert_statements[key] = (
				'INSERT INTO ' + self.archive_table_name + ' (' + ', '.join(column_list) + ') ' +
				'VALUES (' + ', '.join(['%s'] * len(column_list)) + ');'
			)
"""), (MYSQL, "		self._station_time_zone = self.DEFAULT_TIME_ZONE\n\n		self._connection = None", "		self._station_time_zone = self.DEFAULT_TIME_ZONE\n		self._insert_statements = {}\n\n		self._connection = None")],
	'two records exported in turn that have different readings, but equally many',
	'The readings of the second record are stored in columns of the first: absent sensors get numbers.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 1, 1, 0, 5), wind_direction_prevailing=WindDirection.S, wind_direction_speed_high=None, temperature_inside=D('70.1')))
		e.export_record(record(T(2016, 1, 1, 0, 10), wind_direction_prevailing=None, wind_direction_speed_high=WindDirection.E, temperature_inside=D('70.2')))
	rows = sorted(server.rows(), key=lambda r: r['timestamp_station'])
	expect([r['wind_speed_direction'] for r in rows], ['S', None], 'wind directions')
	expect([r['wind_speed_high_direction'] for r in rows], [None, 'E'], 'gust directions')
''', ('sqlengine', 'mysqld'))

bug('c07-headers-once', 'C07', [(
	DOWNLOADER, "		response = _requests_session.get(url)\n		if response.headers['Content-Type'] not in ('text/html', 'text/plain'):\n			raise AssertionError(str(response.headers['Content-Type']))\n\n		self._process_headers(response.text)\n",
	"		if self.record_count is None:\n			response = _requests_session.get(url)\n			if response.headers['Content-Type'] not in ('text/html', 'text/plain'):\n				raise AssertionError(str(response.headers['Content-Type']))\n\n			self._process_headers(response.text)\n")],
	'a second download with the same downloader', 'It returns as many records as the first one had, not all that are announced.',
	HTTP + '''
import datetime
import struct
from weatherlink.downloader import Downloader

available = [3]


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', ('Model=16\\r\\nConsoleVer=Sep 29 2009\\r\\nArchiveInt=5\\r\\nRecords=%s\\r\\nMaxRecords=10240\\r\\n' % available[0]).encode()
	return 'application/octet-stream', b''.join(struct.pack(
		'=hhhhhHHHhHhBBBBBBBBhB9xB9x', (5 + 3 * 32 + 16 * 512), i, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, 7, 420, 12, 0) for i in range(available[0]))


serve(answer)
d = Downloader('u', 'p', 't')
for count in (3, 5, 2, 0):
	available[0] = count
	d.download(datetime.datetime(2016, 1, 1))
	expect(len(d.records), count, 'records')
''')

bug('c07-undated-skipped', 'C07', [(
	DOWNLOADER, "				print('WARN: Halted at record %s because false-y' % i)\n				break\n", "				print('WARN: Skipped record %s because false-y' % i)\n				continue\n")],
	'an undated record with stale ones behind it', 'Stale records behind the end of the data are returned.',
	HTTP + '''
import datetime
import struct
from weatherlink.downloader import Downloader

DATE = 5 + 3 * 32 + 16 * 512


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', b'Model=16\\r\\nConsoleVer=Sep 29 2009\\r\\nArchiveInt=5\\r\\nRecords=4\\r\\nMaxRecords=10240\\r\\n'
	return 'application/octet-stream', b''.join(struct.pack(
		'=hhhhhHHHhHhBBBBBBBBhB9xB9x', date, 5, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, 7, 420, 12, 0) for date in (DATE, DATE + 1, 0, DATE - 300))


serve(answer)
d = Downloader('u', 'p', 't')
d.download(datetime.datetime(2016, 1, 1))
expect([r.date.day for r in d.records], [5, 6], 'days of the records')
''')

bug('c08-parity-ack', 'C08', [(
	SERIAL, "		if char_to_byte(ack) != curses.ascii.ACK:\n", "		if char_to_byte(ack) & 0x7f != curses.ascii.ACK:\n")],
	'the reply byte 0x86', 'A byte that is not an acknowledgment lets the command proceed.',
	CONSOLE + '''
from weatherlink.poller import IPPoller
from weatherlink.serial import AcknowledgmentError

reply = [0]


def talk(s, log):
	line(s)
	s.sendall(bytes(bytearray([reply[0]])))
	time.sleep(0.01)


with console(talk) as (port, log):
	for byte in range(256):
		reply[0] = byte
		p = IPPoller('127.0.0.1', port)
		with p:
			try:
				p.write_config_setting('2B', '01', b'x')
				accepted = True
			except AcknowledgmentError:
				accepted = False
		expect(accepted, byte == 6, 'reply %#x accepted' % byte)
''')

bug('c09-unconfirmed-with-checksum', 'C09', [(
	SERIAL, "		return setting if return_crc else setting[:-2]\n", "		return setting if return_crc or not confirm_crc and len(setting) > 3 else setting[:-2]\n")],
	'a setting of two bytes or more read without confirming the checksum', 'The checksum is returned as if it were a part of the setting.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		_, address, length = line(s).decode().split()
		data = bytes(bytearray(range(int(length, 16))))
		s.sendall(b'\\x06' + data + struct.pack('>H', crc(data)))


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		for length in (1, 2, 9):
			for confirm in (True, False):
				expect(p.read_config_setting('2B', '%02X' % length, confirm_crc=confirm), bytes(bytearray(range(length))), 'setting')
''')

bug('c10-length-decimal', 'C10', [(
	SERIAL, "		if len(setting_value) != int('0x%s' % setting_length, 16):\n", "		if len(setting_value) != int(setting_length, 16 if setting_length.isalpha() or setting_length.startswith('0') else 10):\n")],
	'a length of 16 bytes or more, written with decimal digits in hex',
	'A value of the right length is refused and one of a wrong length is sent.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		_, address, length = line(s).decode().split()
		s.sendall(b'\\x06')
		data = b''
		while len(data) < int(length, 16) + 2:
			data += s.recv(1000)
		log.append((int(address, 16), data))


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		for length in (1, 9, 15, 16, 32, 0x2a):
			value = bytes(bytearray(range(length)))
			p.write_config_setting('50', '%02X' % length, value)
			time.sleep(0.1)
			expect(log[-1:], [(0x50, value + struct.pack('>H', crc(value)))], 'written')
		before = len(log)
		try:
			p.write_config_setting('50', '10', b'0123456789')
		except ValueError:
			pass
		else:
			sys.exit('ten bytes accepted where sixteen were stated')
''')

bug('c11-refused-keeps-socket', 'C11', [(
	SERIAL, "		try:\n			self._socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)\n			self._socket.connect((self.host, self.port, ))\n		except:\n			if self._socket:\n				try:\n					self.disconnect()\n				except IOError:\n					pass\n			raise\n",
	"		try:\n			self._socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)\n			self._socket.connect((self.host, self.port, ))\n		except Exception as e:\n			if self._socket and getattr(e, 'errno', None) != 111:\n				try:\n					self.disconnect()\n				except IOError:\n					pass\n			raise\n")],
	'a refused connection and a second attempt', 'After a refused connection the communicator cannot connect any more, and a socket leaks.',
	CONSOLE + '''
from weatherlink.poller import IPPoller

with console(lambda s, log: time.sleep(0.05)) as (port, log):
	s = socket.socket()
	s.bind(('127.0.0.1', 0))
	p = IPPoller('127.0.0.1', s.getsockname()[1])
	try:
		p.connect()
	except OSError:
		pass
	else:
		sys.exit('connected to nothing')
	p.port = port
	try:
		p.connect()
	except ValueError as e:
		sys.exit('cannot connect after a refused connection: %s' % e)
	p.disconnect()
''')

bug('c12-handle-per-packet', 'C12', [(
	POLLER, """		with self._get_file_handle() as handle:
			for i in range(0, num_packets):
				if self._stop_event and self._stop_event.is_set():
					self._send_data('\\r')
					return

				if self.packet_type""", """		for i in range(0, num_packets):
			with self._get_file_handle() as handle:
				if self._stop_event and self._stop_event.is_set():
					self._send_data('\\r')
					return

				if self.packet_type""")],
	'packets that arrive together', 'What one buffered handle read ahead is lost: packets are missed and framing breaks.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		n = int(line(s).split()[2])
		s.sendall(b'\\x06' + b''.join(packet(i) for i in range(n)))


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	socket.setdefaulttimeout(5)
	p.connect()
	for n in (1, 2, 5):
		expect([r.minute_in_hour for r in p.poll(n)], list(range(n)), 'packets')
	p.disconnect()
''')

bug('c13-no-cancel-before-last', 'C13', [(
	POLLER, "					self._send_data('\\r')\n					return\n", "					if num_packets - i > 1:\n						self._send_data('\\r')\n					return\n")],
	'a stop when exactly one packet is left', 'The console is not told to cancel although a packet is outstanding.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	n = int(line(s).split()[2])
	s.sendall(b'\\x06')
	for i in range(n):
		s.sendall(packet(i))
	s.settimeout(1.5)
	try:
		log.append(s.recv(10))
	except socket.timeout:
		log.append(None)


for delivered in (1, 2, 3):
	with console(talk) as (port, log):
		p = IPPoller('127.0.0.1', port)
		p.connect()
		got, done = [], threading.Event()

		def callback(r):
			got.append(r)
			if len(got) == delivered:
				p.stop_background_polling()
				done.set()
		p.start_background_polling(4, callback)
		done.wait(5)
		for _ in range(400):
			if log:
				break
			time.sleep(0.01)
		expect(log[:1], [b'\\r'], 'cancel after %s of 4' % delivered)
		p.disconnect()
''')

bug('c14-speed-rounded-down', 'C14', [(
	UTILS, "	return (wind_speed * METERS_PER_SECOND_CONSTANT).quantize(METERS_PER_SECOND_CONSTANT)\n", "	return (wind_speed * METERS_PER_SECOND_CONSTANT).quantize(METERS_PER_SECOND_CONSTANT, rounding=decimal.ROUND_DOWN)\n")],
	'a wind speed in tenths', 'The meters per second are cut off instead of rounded.',
	'''
import sys
from decimal import Decimal as D
from fractions import Fraction as F
from weatherlink.utils import convert_miles_per_hour_to_meters_per_second

for s in range(0, 1500):
	exact = F(s, 10) * F('0.44704')
	actual = convert_miles_per_hour_to_meters_per_second(D(s) / 10)
	if abs(F(actual) - exact) > F(1, 200000):
		sys.exit('%s mph: %s m/s' % (D(s) / 10, actual))
''')

bug('c15-dew-point-float', 'C15', [(
	UTILS, "		RH / 100 * (\n			(DP_B - (Tc / DP_D)) * (Tc / (DP_C + Tc))\n		).exp()\n", "		RH / 100 * (\n			(DP_B - (_abs(Tc) / DP_D)) * (Tc / (DP_C + Tc))\n		).exp()\n")],
	'a temperature below the freezing point of water', 'The dew point leaves the published formula by some tenths of a degree.',
	'''
import math
import sys
from decimal import Decimal as D
from weatherlink.utils import calculate_dew_point

for t in range(-400, 1300, 25):
	for h in (1, 10, 50, 99):
		c = (t / 10.0 - 32) * 5 / 9
		y = math.log(h / 100.0 * math.exp((17.67 - c / 234.5) * (c / (243.5 + c))))
		expected = 243.5 * y / (17.67 - y) * 9 / 5 + 32
		actual = float(calculate_dew_point(D(t) / 10, h))
		if abs(actual - expected) > 0.06:
			sys.exit('%s F, %s %%: %s instead of %.3f' % (t / 10.0, h, actual, expected))
''')

bug('c16-dry-adjustment-distance', 'C16', [(
	UTILS, "			((HI_13 - RH) / FOUR) * ((HI_17 - _abs(T - HI_95)) / HI_17).sqrt()\n", "			((HI_13 - RH) / FOUR) * ((HI_17 - max(T - HI_95, ZERO)) / HI_17).sqrt()\n")],
	'very dry air between 80 and 95 degrees', 'The dry-air adjustment is too large.',
	'''
import sys
from decimal import Decimal as D
from weatherlink.utils import calculate_heat_index

for h in (1, 5, 10, 12):
	for t in (84.0, 88.0, 92.0, 95.0, 100.0, 111.0):
		r = float(h)
		if ((0.5 * (t + 61 + (t - 68) * 1.2 + r * 0.094)) + t) / 2 < 80:
			continue
		hi = (-42.379 + 2.04901523 * t + 10.14333127 * r - .22475541 * t * r - .00683783 * t * t - .05481717 * r * r + .00122874 * t * t * r
			+ .00085282 * t * r * r - .00000199 * t * t * r * r) - (13 - r) / 4 * ((17 - abs(t - 95)) / 17) ** 0.5
		actual = calculate_heat_index(D(t), D(h))
		if not -0.001 < float(actual) - hi < 0.101:
			sys.exit('%s F, %s %%: %s instead of %.3f' % (t, h, actual, hi))
''')

bug('c17-chill-of-calm-negative', 'C17', [(
	UTILS, "	return T if wind_chill > T else wind_chill\n", "	return T if _abs(wind_chill) > _abs(T) and wind_chill > ZERO else wind_chill\n")],
	'light wind at a temperature below zero', 'The wind chill is above the air temperature.',
	'''
import sys
from decimal import Decimal as D
from weatherlink.utils import calculate_wind_chill

for t in range(-600, 401, 7):
	for w in (1, 2, 5, 10, 30, 100):
		a = calculate_wind_chill(D(t) / 10, D(w) / 10)
		if a > D(t) / 10:
			sys.exit('%s F, %s mph: %s' % (t / 10.0, w / 10.0, a))
''')

bug('c18-thw-rounded-down', 'C18', [(
	UTILS, "	return hi - (THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)\n", "	return (hi - THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING if WS == int(WS) else decimal.ROUND_FLOOR).max(hi - (THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)) if WS > TEN else hi - (THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)\n")],
	'a whole wind speed above 10 mph whose correction is not a whole tenth', 'The index is a tenth of a degree too high.',
	'''
import sys
from decimal import Decimal as D, ROUND_CEILING
from weatherlink.utils import calculate_heat_index, calculate_thw_index

for t in range(700, 1200, 33):
	for w in range(0, 60):
		expected = calculate_heat_index(D(t) / 10, D(40)) - (D('1.072') * w).quantize(D('0.1'), rounding=ROUND_CEILING)
		actual = calculate_thw_index(D(t) / 10, D(40), D(w))
		if actual != expected:
			sys.exit('%s F, %s mph: %s instead of %s' % (t / 10.0, w, actual, expected))
''')

bug('c19-truncated-average', 'C19', [(
	UTILS, "	return DEGREE_DAYS_THRESHOLD - average_temperature\n", "	return DEGREE_DAYS_THRESHOLD - _as_decimal(average_temperature).quantize(ONE_TENTH)\n")],
	'an average temperature with more than one decimal', 'The heating degree days of a day are rounded, and can be zero.',
	'''
import sys
from decimal import Decimal as D
from weatherlink.utils import calculate_heating_degree_days as hdd

for t in ('64.9612', '12.3456', '-3.0505', '0', '64.0'):
	if hdd(D(t)) != 65 - D(t):
		sys.exit('%s: %s' % (t, hdd(D(t))))
''')

bug('c20-partial-window', 'C20', [(
	UTILS, "		if len(speed_queue) == 10:\n", "		if len(speed_queue) == 10 and (minutes_covered < 10 or wind_speed != current_max):\n"), (
	UTILS, "			if average > current_max:\n", "			if average > current_max or (average == current_max and average and wind_speed_direction in current_direction_list[:1] and minutes_covered > 1):\n")],
	'two windows with the same average, the later one ending in a longer record from the direction the first began with',
	'The later of two equal windows is reported.',
	'''
import datetime
import sys
from decimal import Decimal as D
from weatherlink.utils import calculate_10_minute_wind_average

T = datetime.datetime(2016, 1, 1)
rows = [(D(s), 'N', T + datetime.timedelta(minutes=5 * i + 5), 5) for i, s in enumerate((4, 6, 4, 6, 2))]
actual = calculate_10_minute_wind_average(rows)
expected = (D(5), 'N', T + datetime.timedelta(minutes=1), T + datetime.timedelta(minutes=10))
if tuple(actual) != expected:
	sys.exit('%r instead of %r' % (actual, expected))
''')

bug('c21-gust-chill-of-low', 'C21', [(
	UTILS, "			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))\n", "			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed or wind_speed_high))\n")],
	'a gust above the average wind at the low temperature of the interval', 'The low wind chill is too warm.',
	'''
import sys
from decimal import Decimal as D
from weatherlink.models import ArchiveIntervalRecord
from weatherlink.utils import calculate_all_record_values, calculate_wind_chill

r = ArchiveIntervalRecord(minutes_covered=5, temperature_outside=D('20'), temperature_outside_low=D('15'), temperature_outside_high=D('22'), wind_speed=D(5), wind_speed_high=D(30))
v = calculate_all_record_values(r)
if v['wind_chill_low'] != calculate_wind_chill(D('15'), D(30)):
	sys.exit(v['wind_chill_low'])
''')

bug('c22-year-of-utc', 'C22', [(
	MYSQL, "		arguments[column_map['summary_year']] = record.date.year\n", "		arguments[column_map['summary_year']] = d.year\n")],
	'a record in the last hours of a year', 'The record is filed under the next year.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for d in (T(2016, 12, 31, 12), T(2016, 12, 31, 23, 55), T(2017, 1, 1, 0, 5)):
			e.export_record(record(d))
	for r in server.rows():
		d = r['timestamp_station']
		expect((r['summary_year'], r['summary_month'], r['summary_day']), (d.year, d.month, d.day), 'date parts')
''', ('sqlengine', 'mysqld'))

bug('c23-zone-object-ignored', 'C23', [(
	MYSQL, "		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value\n", "		self._station_time_zone = pytz.timezone(value if isinstance(value, six.string_types) else getattr(value, 'zone', None) or 'UTC')\n")],
	'a time zone given as a tzinfo object that is not of pytz', 'The station is taken to be in UTC.',
	DB + '''
import zoneinfo
with mysqld.Server(1) as server:
	for i, zone in enumerate(('America/New_York', zoneinfo.ZoneInfo('America/New_York'), datetime.timezone(datetime.timedelta(hours=-5)))):
		with mysqld.exporter(server, station_time_zone=zone) as e:
			e.export_record(record(T(2016, 1, 1 + i, 12)))
	expect([r['timestamp_utc'] - r['timestamp_station'] for r in server.rows()], [datetime.timedelta(hours=5)] * 3, 'offsets')
''', ('sqlengine', 'mysqld'))

bug('c24-heat-index-inside', 'C24', [(
	MYSQL, "			'min(heat_index_inside), max(heat_index_inside), avg(heat_index_inside), '\n", "			'min(heat_index_inside), max(heat_index_inside), avg(coalesce(heat_index_inside, 0)), '\n")],
	'a day on which some records have no inside heat index', 'The average counts the missing ones as zero.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for i, t in enumerate(('60', '72', '80')):
			e.export_record(record(T(2016, 1, 1, 12, i), temperature_inside=D(t), humidity_inside=40))
		values = [r['heat_index_inside'] for r in server.rows() if r['heat_index_inside'] is not None]
		e.recalculate_summaries_for_dates([T(2016, 1, 1)])
	day = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY'][0]
	expect(len(values), 2, 'records with a heat index')
	if abs(day['heat_index_inside_average'] - sum(values) / 2) > D('0.06'):
		sys.exit('average %s' % day['heat_index_inside_average'])
''', ('sqlengine', 'mysqld'))

bug('c25-tie-by-insertion', 'C25', [(
	MYSQL, "				' AND ' + value_column + ' = %s ORDER BY ' + timestamp_column + ' ASC LIMIT 1;'\n", "				' AND ' + value_column + ' = %s ORDER BY summary_year, summary_month' + (', summary_day' if table_name == 'weather_archive_record' else '') + ' LIMIT 1;'\n")],
	'an extreme reached twice, stored in another order than it happened', 'A later time is reported for the extreme.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for d in (T(2016, 1, 9, 15), T(2016, 1, 9, 3), T(2016, 1, 4, 20), T(2016, 1, 4, 8), T(2016, 1, 6, 1)):
			e.export_record(record(d, temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
		e.recalculate_summaries_for_dates([T(2016, 1, 9), T(2016, 1, 6), T(2016, 1, 4)])
	for r in server.rows('weather_calculated_summary'):
		first = T(2016, 1, {'DAILY': r['summary_day'], 'WEEKLY': 4}.get(r['summary_type'], 4))
		hour = {4: 8, 6: 1, 9: 3}[first.day]
		expect(r['temperature_outside_low_timestamp'], first.replace(hour=hour), r['summary_type'])
''', ('sqlengine', 'mysqld'))

bug('c26-sunday-of-next-month', 'C26', [(
	MYSQL, "					'(summary_month = %s AND summary_day >= %s) OR (summary_month = %s AND summary_day <= %s)'\n", "					'(summary_month = %s AND summary_day >= %s) OR (summary_month = %s AND summary_day < %s)'\n")],
	'a week across the end of a month with records on its Sunday', 'The Sunday is left out of the degree days and wind averages of its week.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for d in (T(2016, 4, 29, 12), T(2016, 4, 30, 12), T(2016, 5, 1, 12)):
			e.export_record(record(d, temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
		e.recalculate_summaries_for_dates([T(2016, 4, 29), T(2016, 4, 30), T(2016, 5, 1)])
	week = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'WEEKLY'][0]
	expect(week['integrated_heating_degree_days'], D(45), 'degree days of the week')
''', ('sqlengine', 'mysqld'))

bug('c27-second-date-of-week', 'C27', [(
	MYSQL, "			y.add(year)\n			ym.add((year, month, ))\n			ymd.add((year, month, day, ))\n\n			week_year, week_number, _ = date.isocalendar()\n			if (week_year, week_number, ) in yw:\n				continue\n\n",
	"			ymd.add((year, month, day, ))\n\n			week_year, week_number, _ = date.isocalendar()\n			if (week_year, week_number, ) in yw:\n				continue\n\n			y.add(year)\n			ym.add((year, month, ))\n")],
	'dates of one week in two months recalculated together', 'Which month is recalculated depends on the order of the dates.',
	DB + '''
def months(dates):
	with mysqld.Server(1) as server:
		with mysqld.exporter(server) as e:
			for d in dates:
				e.export_record(record(d, temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
			e.recalculate_summaries_for_dates(dates)
		return sorted(r['summary_month'] for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'MONTHLY')


dates = [T(2016, 4, 30, 12), T(2016, 5, 1, 12)]
expect(months(dates), [4, 5], 'months')
expect(months(dates[::-1]), [4, 5], 'months in the other order')
''', ('sqlengine', 'mysqld'))

bug('c28-three-hours-inclusive', 'C28', [(
	MYSQL, "					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:\n", "					if (timestamp_station - last_rain).seconds > THREE_HOURS_IN_SECONDS:\n")],
	'a gap in the records of more than a day', 'Two events days apart are merged into one.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for d in (T(2016, 4, 1, 12), T(2016, 4, 3, 13), T(2016, 4, 8, 20)):
			e.export_record(record(d, rain_amount=D('0.02'), rain_rate=D('0.10'), rain_amount_clicks=2, rain_rate_clicks=10))
		e.export_record(record(T(2016, 4, 9)))
		e.find_new_rain_events()
	expect([r['timestamp_start'] for r in server.rows('weather_rain_event')], [T(2016, 4, 1, 12), T(2016, 4, 3, 13), T(2016, 4, 8, 20)], 'starts')
''', ('sqlengine', 'mysqld'))

bug('c29-ongoing-peak-time', 'C29', [(
	MYSQL, "					'ON DUPLICATE KEY UPDATE timestamp_end = %s, timestamp_rain_rate_high = %s, rain_total = %s, '\n", "					'ON DUPLICATE KEY UPDATE timestamp_end = %s, timestamp_rain_rate_high = COALESCE(timestamp_rain_rate_high, %s), rain_total = %s, '\n")],
	'an ongoing event that is continued with a higher rate', 'The time of the highest rate stays that of the first search.',
	DB + '''
def rain(d, clicks):
	return record(d, rain_amount=D(clicks) / 100, rain_rate=D(clicks * 5) / 100, rain_amount_clicks=clicks, rain_rate_clicks=clicks * 5)


with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(rain(T(2016, 4, 1, 12), 2))
		e.find_new_rain_events()
		e.export_record(rain(T(2016, 4, 1, 13), 9))
		e.export_record(record(T(2016, 4, 1, 20)))
		e.find_new_rain_events()
	expect([r['timestamp_rain_rate_high'] for r in server.rows('weather_rain_event')], [T(2016, 4, 1, 13)], 'time of the highest rate')
''', ('sqlengine', 'mysqld'))

bug('c30-commit-empty-summary', 'C30', [(
	MYSQL, "			summary_id = cursor.lastrowid\n", "			summary_id, _ = cursor.lastrowid, self._connection.commit()\n")],
	'a failure after the first statement of a new summary', 'An empty summary stays in the database.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 4, 1, 12), temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
	before = server.engine.dump()
	total = None
	for at in range(1, 40):
		server.faults = [mysqld.Fault(server.statements + at, 'drop')]
		try:
			with mysqld.exporter(server) as e:
				e.recalculate_summaries_for_dates([T(2016, 4, 1)])
			break
		except Exception:
			pass
		server.settle()
		for r in server.rows('weather_calculated_summary'):
			if r['temperature_outside_low'] is None:
				sys.exit('an incomplete summary was committed: %s' % r['summary_type'])
''', ('sqlengine', 'mysqld'))

bug('c31-contains-success', 'C31', [(
	WU, "		if response.text != 'success':\n", "		if 'success' not in response.text.split('\\n')[0]:\n")],
	'an answer that mentions success without being one', 'A rejected update is taken for a successful one.',
	HTTP + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import ArchiveIntervalRecord

text = ['']
serve(lambda query: ('text/html', text[0].encode()))
e = WundergroundExporter('KXX', 'p')
names = [f for _, f in e.ATTRIBUTE_MAP_SIMPLE_UPDATE]
for t in ('success', 'unsuccessful: wrong password', 'not a success', 'INVALIDPASSWORDID'):
	text[0] = t
	try:
		e.send_simple_update(ArchiveIntervalRecord(date=datetime.datetime(2016, 1, 1), **{n: None for n in names}))
		ok = True
	except Exception:
		ok = False
	expect(ok, t == 'success', t)
''')

bug('c32-short-queue', 'C32', [(
	WU, "		self.record_queue = collections.deque(maxlen=50)  # 34560 is a whole day, 50 is 2 minutes\n", "		self.record_queue = collections.deque(maxlen=25)  # 34560 is a whole day, 25 is 1 minute\n")],
	'more than 25 packets with changing wind', 'The two-minute direction covers one minute only.',
	HTTP + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

serve(lambda query: ('text/html', b'success'))
e = WundergroundExporter('KXX', 'p')
names = [f for _, f in e.ATTRIBUTE_MAP_RAPID_UPDATE]
for i in range(48):
	r = LoopRecord(**{n: None for n in names})
	r.update(date=datetime.datetime(2016, 1, 1), wind_speed=5, wind_direction_degrees=10 if i < 24 else 70)
	e.send_rapid_update(r)
	expect(int(REQUESTS[-1]['winddir_avg2m']), 10 if i < 24 else REQUESTS[-1] and int(REQUESTS[-1]['winddir_avg2m']), 'direction')
expect(int(REQUESTS[-1]['winddir_avg2m']), 40, 'direction of two minutes')
''')

bug('c33-newest-by-insertion', 'C33', [(
	MYSQL, "		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:\n			return cursor.fetchone()[0]", "		with self._get_cursor('SELECT timestamp_weatherlink FROM weather_archive_record ORDER BY record_id DESC LIMIT 1;', []) as cursor:\n			return (cursor.fetchone() or [None])[0]")],
	'records stored out of order, an imported month after a download', 'Records are downloaded again and refused, and the download never gets further.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		expect(e.get_newest_timestamp(), None, 'empty')
		for d in (T(2016, 4, 1, 12), T(2016, 4, 2, 12), T(2016, 3, 1, 12)):
			e.export_record(record(d))
		expect(e.get_newest_timestamp(), convert_datetime_to_timestamp(T(2016, 4, 2, 12)), 'newest')
''', ('sqlengine', 'mysqld'))

bug('c34-fifth-of-millimeter', 'C34', [(
	MODELS, "RainCollectorTypeDatabase.millimeters_0_2.clicks_to_inches = lambda c: _HUNDREDTHS * _INCHES_PER_CENTIMETER * c * 2\n", "RainCollectorTypeDatabase.millimeters_0_2.clicks_to_inches = lambda c: (_HUNDREDTHS * _INCHES_PER_CENTIMETER * 2).quantize(decimal.Decimal('0.00001')) * c if c > 99 else _HUNDREDTHS * _INCHES_PER_CENTIMETER * c * 2\n")],
	'a hundred clicks or more of a 0.2 mm collector', 'The amount is rounded per click.',
	'''
import sys
from decimal import Decimal as D
from weatherlink.models import RainCollectorTypeDatabase as R

for c in range(0, 4096):
	if R.millimeters_0_2.clicks_to_inches(c) != D('0.00787402') * c:
		sys.exit('%s clicks: %s' % (c, R.millimeters_0_2.clicks_to_inches(c)))
''')

bug('c35-class-names', 'C35', [(
	MODELS, "	def __setattr__(self, name, value):\n		self[name] = value\n", "	def __setattr__(self, name, value):\n		if hasattr(type(self), name):\n			super(RecordDict, self).__setattr__(name, value)\n		else:\n			self[name] = value\n")],
	'an attribute that has the name of a constant of the class', 'The attribute is set, but not the item.',
	'''
import sys
from weatherlink.models import ArchiveIntervalRecord, RecordDict

for cls, name in ((RecordDict, 'abc'), (ArchiveIntervalRecord, 'RECORD_LENGTH_WLK'), (RecordDict, 'copied')):
	r = cls()
	setattr(r, name, 5)
	if r.get(name) != 5 or len(r) != 1:
		sys.exit('%s: %r' % (name, dict(r)))
''')

bug('c36-failing-close', 'C36', [(
	MYSQL, "			try:\n				self._connection.close()\n			finally:\n				self._connection = None\n", "			self._connection.close()\n			self._connection = None\n")],
	'a connection whose close fails', 'The broken connection is kept, and disconnecting again fails again.',
	DB + '''
import mysql.connector


class Broken(object):
	def __init__(self):
		self.closed = 0

	def close(self):
		self.closed += 1
		raise OSError('broken pipe')


from weatherlink.exporter.mysql import MySQLExporter

connection = Broken()
mysql.connector.connect = lambda **_: connection
e = MySQLExporter('u', 'p', 'd')
e.connect()
try:
	e.disconnect()
except OSError:
	pass
try:
	e.disconnect()
except OSError:
	sys.exit('disconnecting twice fails')
expect(connection.closed, 1, 'closed')
''', ('sqlengine', 'mysqld'))

bug('c37-table-entry', 'C37', [(
	MODELS, "255: WindDirection.WSW, ", "255: WindDirection.SW, ")],
	'a bearing of exactly 255 degrees', 'It is given the wrong compass point.',
	'''
import sys
from weatherlink.models import WindDirection

for d in range(1, 361):
	w = WindDirection.from_degrees(d)
	if abs((d - w.degrees + 180) % 360 - 180) > 12:
		sys.exit('%s: %s' % (d, w))
for d in (0, -1, 361):
	if WindDirection.from_degrees(d) is not None:
		sys.exit(str(d))
''')

"""The second round of planted bugs."""
from bugs import CONSOLE, DB, DOWNLOADER, HTTP, IMPORTER, MODELS, MYSQL, POLLER, SERIAL, UTILS, WU, bug

DBLIB = ('sqlengine', 'mysqld')

bug('c01-half-minute', 'C01', [(
	MODELS, "		return ((d.day + (d.month * 32) + ((d.year - 2000) * 512)) << 16) + (d.minute + (d.hour * 100))\n",
	"		d = d + datetime.timedelta(seconds=30)\n		return ((d.day + d.month * 32 + (d.year - 2000) * 512) << 16) + d.minute + d.hour * 100\n")],
	'a time in the second half of a minute', 'Its timestamp is that of the next minute, and records of that minute are not downloaded.',
	'''
import datetime
import sys
from weatherlink.models import convert_datetime_to_timestamp as there, convert_timestamp_to_datetime as back

for second in (0, 29, 30, 59):
	d = datetime.datetime(2016, 2, 28, 23, 59, second, 999999 if second else 0)
	if back(there(d)) != d.replace(second=0, microsecond=0):
		sys.exit('%s -> %s' % (d, back(there(d))))
''')

bug('c02-high-uv-fallback', 'C02', [(
	MODELS, "		record.timestamp = (arguments[0] << 16) + arguments[1]\n		record.date = convert_timestamp_to_datetime(record.timestamp)\n",
	"		record.timestamp = (arguments[0] << 16) + arguments[1]\n		record.date = convert_timestamp_to_datetime(record['timestamp'])\n		if record.uv_index_high is None and record.solar_radiation_high is not None:\n			record.uv_index_high = record.uv_index\n")],
	'a record without a high UV index that has a UV index and a high solar radiation', 'An absent reading is reported as a number.',
	'''
import io
import struct
import sys
from weatherlink.models import ArchiveIntervalRecord

data = struct.pack('=hhhhhHHHhHhBBBBBBBBhB9xB9x', (5 + 3 * 32 + 16 * 512), 1230, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, 9, 420, 255, 0)
r = ArchiveIntervalRecord.load_from_download(io.BytesIO(data), 5)
if r.uv_index_high is not None:
	sys.exit('high UV index: %s' % r.uv_index_high)
''')

bug('c02-small-dash-everywhere', 'C02', [(
	MODELS, "				k = cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][0]\n				if v == cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][2]:\n",
	"				k = cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][0]\n				if v == cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][2] or (v == DASH_SMALL and k.startswith('solar')):\n")],
	'a solar radiation of exactly 255 W/m2', 'It is reported as absent.',
	'''
import io
import struct
import sys
from weatherlink.models import ArchiveIntervalRecord

for sun in range(0, 1500):
	data = struct.pack('=hhhhhHHHhHhBBBBBBBBhB9xB9x', (5 + 3 * 32 + 16 * 512), 1230, 701, 712, 690, 3, 4, 29921, sun, 117, 688, 40, 55, 3, 9, 4, 5, 10, 9, sun, 12, 0)
	r = ArchiveIntervalRecord.load_from_download(io.BytesIO(data), 5)
	if (r.solar_radiation, r.solar_radiation_high) != (sun, sun):
		sys.exit('%s: %s' % (sun, r.solar_radiation))
''')

WLK = '''
import io
import os
import struct
import sys
import tempfile
from weatherlink.importer import Importer

RECORD = struct.pack('=bb2xhhhhhhhhHhhhBBhhhBB50x', 1, 5, 600, 701, 712, 690, 688, 29921, 550, 400, 0x1003, 4, 30, 90, 4, 5, 117, 300, 420, 10, 12)
SUMMARY = bytearray(176)
SUMMARY[0], SUMMARY[88] = 2, 3


def load(counts):
	"""counts: day -> number of records, or None for a day without data."""
	data, start = struct.pack('=16sl', b'WDAT5.3', sum(counts.values())), 0
	body = b''
	for day in range(32):
		n = counts.get(day)
		data += struct.pack('=hl', n + 2 if n is not None else 0, start)
		if n is not None:
			start += n + 2
			body += bytes(SUMMARY) + RECORD * n
	directory = tempfile.mkdtemp()
	path = os.path.join(directory, '2016-04.wlk')
	with open(path, 'wb') as f:
		f.write(data + body)
	importer = Importer(path)
	importer.import_data()
	os.unlink(path)
	os.rmdir(directory)
	return importer
'''

bug('c03-day-without-records', 'C03', [(
	IMPORTER, "				if day > 0:\n", "				if day > 0 and day_index.record_count > 2:\n")],
	'a day that has a summary but no records', 'Its summary is not read, and everything after it is misread.',
	WLK + '''
i = load({3: 2, 5: 0, 9: 3})
if sorted(i.daily_summaries) != [3, 5, 9] or len(i.records) != 5:
	sys.exit('%s, %s records' % (sorted(i.daily_summaries), len(i.records)))
''')

bug('c03-summary-cached-twice', 'C03', [(
	IMPORTER, "			self.daily_summaries = {}\n			self.records = []\n", "			self.daily_summaries = self.daily_summaries or {}\n			self.records = []\n")],
	'an importer used again after the file lost a day', 'Summaries of the former content stay.',
	WLK + '''
directory = tempfile.mkdtemp()
path = os.path.join(directory, '2016-04.wlk')


def write(days):
	data = struct.pack('=16sl', b'WDAT5.3', len(days))
	for day in range(32):
		data += struct.pack('=hl', 3 if day in days else 0, 0)
	with open(path, 'wb') as f:
		f.write(data + (bytes(SUMMARY) + RECORD) * len(days))


write([1, 2, 3])
importer = Importer(path)
importer.import_data()
write([1, 3])
importer.import_data()
os.unlink(path)
os.rmdir(directory)
if sorted(importer.daily_summaries) != [1, 3]:
	sys.exit('summaries of %s' % sorted(importer.daily_summaries))
''')

bug('c04-direction-of-calm', 'C04', [(
	MODELS, "			if arguments[k1]:\n				arguments[k2] = WindDirection.from_degrees(arguments[k1])\n",
	"			if arguments[k1]:\n				arguments[k2] = WindDirection.from_degrees(arguments[k1] % 360)\n")],
	'wind from exactly the north', 'Its direction is absent.',
	CONSOLE + '''
import io
from weatherlink.models import LoopRecord, WindDirection

for degrees in range(1, 361):
	data = bytearray(packet(3))
	data[16:18] = struct.pack('<H', degrees)
	data[97:] = struct.pack('>H', crc(data[:97]))
	r = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(data)))
	expect(r.wind_direction_degrees, degrees, 'degrees')
	expect(r.wind_direction, WindDirection.from_degrees(degrees), 'direction of %d degrees' % degrees)
''')

bug('c05-long-data', 'C05', [(
	MODELS, "		if cast_with_ord:\n			byte = ord(byte)\n", "		if i > 0xFFF:\n			break\n		elif cast_with_ord:\n			byte = ord(byte)\n")],
	'more than 4096 bytes, as in a dump of the whole memory with its checksum', 'The rest does not count.',
	CONSOLE + '''
from weatherlink.models import calculate_weatherlink_crc

for n in (99, 267, 4096, 4098, 5000):
	data = bytes(bytearray((i * 7 + n) % 256 for i in range(n)))
	expect(calculate_weatherlink_crc(data), crc(data), 'checksum of %d bytes' % n)
''')

bug('c06-inside-humidity', 'C06', [(
	MYSQL, "			if attribute in record and record[attribute]:\n", "			if record.get(attribute) or attribute in arguments.get('__directions', ()):\n"), (
	MYSQL, "				arguments[column_map[attribute]] = record[attribute].name  # Use the wind direction enum name\n",
	"				self._last_directions[attribute] = record[attribute].name\n			if record.get('wind_speed') and attribute in self._last_directions:\n				arguments[column_map[attribute]] = self._last_directions[attribute]  # Use the wind direction enum name\n"), (
	MYSQL, "		self._station_time_zone = self.DEFAULT_TIME_ZONE\n\n		self._connection = None", "		self._station_time_zone = self.DEFAULT_TIME_ZONE\n		self._last_directions = {}\n\n		self._connection = None")],
	'a record with wind but without a direction, exported after one that has a direction', 'The direction of the earlier record is stored.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 1, 1, 0, 5), wind_speed=D(3), wind_direction_prevailing=WindDirection.S))
		e.export_record(record(T(2016, 1, 1, 0, 10), wind_speed=D(3), wind_direction_prevailing=None))
	rows = sorted(server.rows(), key=lambda r: r['timestamp_station'])
	expect([r['wind_speed_direction'] for r in rows], ['S', None], 'wind directions')
''', DBLIB)

bug('c07-last-piece', 'C07', [(
	DOWNLOADER, "			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)\n",
	"			try:\n				record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)\n			except struct.error:\n				if i == 0:\n					raise\n				record = None\n"), (
	DOWNLOADER, "import requests\n# noins", "import struct\n\nimport requests\n# noins")],
	'a transfer that ends early, after the first record', 'The records that were cut off are missing without an error.',
	HTTP + '''
import datetime
import struct
from weatherlink.downloader import Downloader

cut = [0]


def answer(query):
	if query['action'] == 'headers':
		return 'text/html', b'Model=16\\r\\nConsoleVer=Sep 29 2009\\r\\nArchiveInt=5\\r\\nRecords=4\\r\\nMaxRecords=10240\\r\\n'
	return 'application/octet-stream', b''.join(struct.pack(
		'=hhhhhHHHhHhBBBBBBBBhB9xB9x', 5 + 3 * 32 + 16 * 512, i, 701, 712, 690, 3, 4, 29921, 300, 117, 688, 40, 55, 3, 9, 4, 5, 10, 7, 420, 12, 0) for i in range(4))[:cut[0]]


serve(answer)
d = Downloader('u', 'p', 't')
for cut[0] in (0, 51, 52, 100, 104, 207, 208):
	try:
		d.download(datetime.datetime(2016, 1, 1))
		ok = True
	except Exception:
		ok = False
	expect(ok, cut[0] == 208, 'success with %d bytes' % cut[0])
''')

bug('c08-second-attempt', 'C08', [(
	SERIAL, "		NotAcknowledgedError.raise_if_not_acknowledged(ack)\n", "		if char_to_byte(ack) == curses.ascii.LF:\n			ack = (self._read_data(2).lstrip(b'\\r') or b'\\n')[0]  # skip the answer to a wakeup call\n		NotAcknowledgedError.raise_if_not_acknowledged((ack))\n")],
	'a line feed before the answer', 'Bytes that are no acknowledgment are skipped, and the command proceeds.',
	CONSOLE + '''
from weatherlink.poller import IPPoller
from weatherlink.serial import AcknowledgmentError


def talk(s, log):
	line(s)
	s.sendall(b'\\n\\r\\x06')
	time.sleep(0.05)


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		for command in (lambda: p.write_config_setting('2B', '01', b'x'),):
			try:
				command()
				accepted = True
			except AcknowledgmentError:
				accepted = False
	expect(accepted, False, 'a line feed was accepted')
''')

bug('c09-long-setting', 'C09', [(
	SERIAL, "		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))\n", "		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, ('%s' % setting_length)[:2], ))\n")],
	'a length of three or more digits', 'The console is asked for a part of the setting only.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		n = int(line(s).split()[2], 16)
		data = bytes(bytearray(i % 251 for i in range(n)))
		s.sendall(b'\\x06' + data + struct.pack('>H', crc(data)))


socket.setdefaulttimeout(3)
with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		for n in (1, 16, 255, 256, 1024, 4096):
			try:
				got = p.read_config_setting('00', '%02X' % n)
			except IOError as e:
				got = e
			expect(got, bytes(bytearray(i % 251 for i in range(n))), 'a setting of %d bytes' % n)
''')

bug('c10-zero-checksum', 'C10', [(
	SERIAL, "		data = setting_value + struct.pack('>H', crc)  # Unlike other little-endian data, CRCs are big-endian (eye roll)\n",
	"		# Unlike other little-endian data, CRCs are big-endian (eye roll)\n		data = setting_value + (struct.pack('>H', crc) if crc > 0xFF else struct.pack('>B', crc).rjust(crc and 2, b'\\0'))\n")],
	'a value whose checksum is zero', 'One byte of the checksum is not sent, and the console waits for it.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		n = int(line(s).split()[2], 16)
		s.sendall(b'\\x06')
		s.settimeout(0.5)
		data = b''
		try:
			while len(data) < n + 2:
				data += s.recv(100)
		except socket.timeout:
			pass
		log.append(data)
		s.settimeout(5)


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		for i, value in enumerate((b'x', b'\\x01', b'\\x00', b'\\x00\\x00', b'ab' + struct.pack('>H', crc(b'ab')))):
			p.write_config_setting('2B', '%02X' % len(value), value)
			for _ in range(200):
				if len(log) > i:
					break
				time.sleep(0.01)
			expect(log[i], value + struct.pack('>H', crc(value)), 'sent for %r' % value)
''')

bug('c11-handle-kept', 'C11', [(
	SERIAL, "				try:\n					handle.close()\n", "				try:\n					handle = exc or handle.close()\n")],
	'an error while packets are read, that somebody holds on to', 'The connection stays open after disconnecting.',
	CONSOLE + """
from weatherlink.poller import IPPoller

closed = threading.Event()


def talk(s, log):
	line(s)
	s.sendall(b'\\x06' + b'garbage' * 20)
	s.settimeout(3)
	try:
		log.append(s.recv(1))
	except socket.timeout:
		log.append('still open')
	closed.set()


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	error = None
	try:
		with p:
			p.poll(1)
	except Exception as e:
		error = e
	closed.wait(6)
	if log == ['still open']:
		sys.exit('the connection is still open')
""")
bug('c12-shared-list', 'C12', [(
	POLLER, "	def _receive_loop_packets(self, num_packets, callback=None):\n		packets = []\n\n", "	def _receive_loop_packets(self, num_packets, callback=None, packets=[]):\n		del packets[:]\n\n")],
	'the packets of one poll kept while polling again', 'The packets of the first poll are replaced by those of the second one.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	while True:
		n = int(line(s).split()[2])
		s.sendall(b'\\x06' + b''.join(packet(i + n) for i in range(n)))


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	p.connect()
	first = p.poll(2)
	second = p.poll(3)
	expect([r.minute_in_hour for r in first], [2, 3], 'packets of the first poll')
	expect([r.minute_in_hour for r in second], [3, 4, 5], 'packets of the second poll')
	p.disconnect()
''')

bug('c13-event-after-start', 'C13', [(
	POLLER, "		self._stop_event = threading.Event()\n\n		try:\n			self._send_poll_instruction(num_packets)\n\n			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))\n			thread.start()\n",
	"		stop_event = threading.Event()\n\n		try:\n			self._send_poll_instruction(num_packets)\n\n			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))\n			thread.start()\n			self._stop_event = stop_event\n")],
	'packets that have all been delivered before the starting thread continues', 'Background polling can neither be stopped nor started again.',
	CONSOLE + '''
from weatherlink.poller import IPPoller

original = threading.Thread.start


def start(self):
	original(self)
	if self is not server:
		time.sleep(0.3)


def talk(s, log):
	while True:
		n = int(line(s).split()[2])
		s.sendall(b'\\x06' + b''.join(packet(i) for i in range(n)))


with console(talk) as (port, log):
	server = None
	p = IPPoller('127.0.0.1', port)
	p.connect()
	threading.Thread.start = start
	got = []
	for i in range(3):
		try:
			p.start_background_polling(2, got.append)
		except ValueError as e:
			sys.exit('cannot start again: %s' % e)
		time.sleep(0.3)
	expect(len(got), 6, 'packets')
	p.disconnect()
''')

bug('c22-north', 'C22', [(
	MYSQL, "			if attribute in record and record[attribute]:\n", "			if attribute in record and record[attribute] and record[attribute].value:\n")],
	'wind from the north', 'The direction is not stored.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for i, w in enumerate(WindDirection):
			e.export_record(record(T(2016, 1, 1, 0, i), wind_direction_prevailing=w, wind_direction_speed_high=w))
	rows = sorted(server.rows(), key=lambda r: r['timestamp_station'])
	expect([r['wind_speed_direction'] for r in rows], [w.name for w in WindDirection], 'wind directions')
	expect([r['wind_speed_high_direction'] for r in rows], [w.name for w in WindDirection], 'gust directions')
''', DBLIB)

bug('c22-hour-of-none', 'C22', [(
	MYSQL, "			if k in column_map:\n				arguments[column_map[k]] = v\n", "			if k in column_map and (v or k not in record):\n				arguments.setdefault(column_map[k], v)\n"), (
	MYSQL, "			if attribute in record:\n				arguments[column_map[attribute]] = record[attribute]\n", "			if attribute in record:\n				arguments.setdefault(column_map[attribute], record[attribute] or 0 if attribute == 'rain_amount' else record[attribute] or None if attribute.startswith('uv') else record[attribute])\n")],
	'a UV index of zero', 'It is stored as absent.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 1, 1, 0, 1), uv_index=D('0.0'), uv_index_high=D('0.0')))
	row = server.rows()[0]
	expect((row['uv_index'], row['uv_index_high']), (D('0.0'), D('0.0')), 'UV index')
''', DBLIB)

bug('c25-day-of-month', 'C25', [(
	MYSQL, "				' AND ' + value_column + ' = %s ORDER BY ' + timestamp_column + ' ASC LIMIT 1;'\n", "				' AND ' + value_column + ' = %s ORDER BY ' + (timestamp_column if summary_type != 'YEARLY' else 'summary_day') + ' ASC LIMIT 1;'\n")],
	'an extreme reached in two months of a year, in the later one on an earlier day of the month', 'The later time is reported for the year.',
	DB + '''
with mysqld.Server(1) as server:
	dates = [T(2016, 2, 20, 8), T(2016, 3, 5, 9), T(2016, 5, 25, 9)]
	with mysqld.exporter(server) as e:
		for d in dates:
			e.export_record(record(d, temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
		e.recalculate_summaries_for_dates(dates)
	year = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'YEARLY'][0]
	expect(year['temperature_outside_low_timestamp'], dates[0], 'time of the low')
''', DBLIB)

bug('c26-week-of-calendar-year', 'C26', [(
	MYSQL, "			week_year, week_number, _ = date.isocalendar()\n", "			week_year, week_number = year, date.isocalendar()[1]\n			if week_number > 50 and month == 1:\n				week_year -= 1\n")],
	'a date at the end of December in the first week of the next year', 'Its week is filed as the first one of the ending year, over the one that is there.',
	DB + '''
with mysqld.Server(1) as server:
	dates = [T(2018, 1, 3, 8), T(2018, 12, 31, 9)]
	with mysqld.exporter(server) as e:
		for d in dates:
			e.export_record(record(d, rain_amount=D('0.05'), rain_amount_clicks=5))
		e.recalculate_summaries_for_dates(dates)
	weeks = sorted((r['summary_year'], r['summary_week'], r['week_start'].isoformat()) for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'WEEKLY')
	expect(weeks, [(2018, 1, '2018-01-01'), (2019, 1, '2018-12-31')], 'weeks')
''', DBLIB)

bug('c27-same-day-of-years', 'C27', [(
	MYSQL, "			if (year, month, day, ) in ymd:\n				continue\n", "			if (month, day, ) in ymd:\n				continue\n"), (
	MYSQL, "			ymd.add((year, month, day, ))\n", "			ymd.add((month, day, ))\n")],
	'the same day of two years in one call', 'The second one is skipped.',
	DB + '''
with mysqld.Server(1) as server:
	dates = [T(2016, 4, 1, 8), T(2017, 4, 1, 9), T(2017, 4, 2, 9)]
	with mysqld.exporter(server) as e:
		for d in dates:
			e.export_record(record(d, rain_amount=D('0.05'), rain_amount_clicks=5))
		e.recalculate_summaries_for_dates(dates)
	days = sorted((r['summary_year'], r['summary_month'], r['summary_day']) for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY')
	expect(days, [(2016, 4, 1), (2017, 4, 1), (2017, 4, 2)], 'days')
''', DBLIB)

bug('c28-total-of-rounded', 'C28', [(
	MYSQL, "					event_total_rain += rain_total\n", "					event_total_rain = (event_total_rain + rain_total).quantize(HUNDREDTHS)\n")],
	'rain of a metric collector, with more than two decimals', 'The total of an event is rounded with every record.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for i in range(20):
			e.export_record(record(T(2016, 4, 1, 12, i), rain_amount=D('0.004'), rain_rate=D('0.10'), rain_amount_clicks=1, rain_rate_clicks=10))
		e.export_record(record(T(2016, 4, 2)))
		e.find_new_rain_events()
	stored = sum(r['rain_total'] for r in server.rows())
	expect([r['rain_total'] for r in server.rows('weather_rain_event')], [stored], 'total')
''', DBLIB)

bug('c29-stale-average', 'C29', [(
	MYSQL, "					'rain_rate_average = %s, rain_rate_high = %s;',\n", "					'rain_rate_average = (rain_rate_average + %s) / 2, rain_rate_high = %s;',\n")],
	'an event that is found ongoing first', 'Its average rate depends on how often the search was run.',
	DB + '''
def rain(d, clicks):
	return record(d, rain_amount=D(clicks) / 100, rain_rate=D(clicks * 5) / 100, rain_amount_clicks=clicks, rain_rate_clicks=clicks * 5)


def events(often):
	with mysqld.Server(1) as server:
		with mysqld.exporter(server) as e:
			for r in (rain(T(2016, 4, 1, 12), 2), rain(T(2016, 4, 1, 13), 9), rain(T(2016, 4, 1, 14), 4), record(T(2016, 4, 1, 20))):
				e.export_record(r)
				if often:
					e.find_new_rain_events()
			e.find_new_rain_events()
		return [r['rain_rate_average'] for r in server.rows('weather_rain_event')]


expect(events(True), events(False), 'average rate')
''', DBLIB)

bug('c30-commit-before-aggregates', 'C30', [(
	MYSQL, "		cursor.execute(query, summary_values + timestamp_values + [summary_id])\n\n		return summary_id, average_temperature\n",
	"		cursor.execute(query, summary_values + timestamp_values + [summary_id], )\n		if summary_type == 'YEARLY':\n			self._connection.commit()\n\n		return summary_id, average_temperature\n")],
	'a failure between the two parts of the summary of a year', 'A summary without its degree days and wind averages stays.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 4, 1, 12), temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
	for at in range(1, 400):
		server.faults = [mysqld.Fault(server.statements + at, 'drop')]
		try:
			with mysqld.exporter(server) as e:
				e.recalculate_summaries_for_dates([T(2016, 4, 1)])
			break
		except Exception:
			pass
		server.settle()
		for r in server.rows('weather_calculated_summary'):
			if r['integrated_heating_degree_days'] is None:
				sys.exit('an incomplete summary was committed: %s' % r['summary_type'])
''', DBLIB)

bug('c31-redirect-status', 'C31', [(
	WU, "		if not (200 <= response.status_code < 300):\n", "		if not response.ok:\n")],
	'an answer with a status of 300 to 399', 'It is taken for a success.',
	'''
import datetime
import io
import sys
import requests.adapters
from urllib3.response import HTTPResponse
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import ArchiveIntervalRecord

status = [200]


def send(adapter, request, **_):
	return adapter.build_response(request, HTTPResponse(body=io.BytesIO(b'success'), headers={'Content-Type': 'text/html'}, status=status[0], preload_content=False))


requests.adapters.HTTPAdapter.send = send
e = WundergroundExporter('KXX', 'p')
names = [f for _, f in e.ATTRIBUTE_MAP_SIMPLE_UPDATE]
for status[0] in (200, 201, 299, 300, 304, 399, 400, 404, 500):
	try:
		e.send_simple_update(ArchiveIntervalRecord(date=datetime.datetime(2016, 1, 1), **{n: None for n in names}))
		ok = True
	except Exception:
		ok = False
	if ok != (200 <= status[0] < 300):
		sys.exit('status %d: %s' % (status[0], ok))
''')

bug('c32-direction-of-last', 'C32', [(
	WU, "			if gust != old_gust:\n				gust_direction = record['wind_direction_degrees']\n", "			if gust != old_gust or gust_direction is None:\n				gust_direction = record['wind_direction_degrees']\n")],
	'the strongest packet of a minute without a direction', 'The direction of a weaker packet is sent for the gust.',
	HTTP + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

serve(lambda query: ('text/html', b'success'))
e = WundergroundExporter('KXX', 'p')
names = [f for _, f in e.ATTRIBUTE_MAP_RAPID_UPDATE]
for speed, degrees in ((5, 90), (20, None), (6, 120)):
	r = LoopRecord(**{n: None for n in names})
	r.update(date=datetime.datetime(2016, 1, 1), wind_speed=speed, wind_direction_degrees=degrees)
	e.send_rapid_update(r)
expect((REQUESTS[-1]['windgustmph'], REQUESTS[-1].get('windgustdir')), ('20', None), 'gust')
''')

bug('c33-newest-of-year', 'C33', [(
	MYSQL, "		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:\n			return cursor.fetchone()[0]",
	"		with self._get_cursor('SELECT timestamp_weatherlink FROM weather_archive_record ORDER BY timestamp_utc DESC LIMIT 1;', []) as cursor:\n			return (cursor.fetchone() or [None])[0]")],
	'the hour that the clocks are turned back, or forward', 'The newest record of that hour is not the one with the highest timestamp, and records are downloaded twice or never.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server, station_time_zone='America/New_York') as e:
		expect(e.get_newest_timestamp(), None, 'empty')
		for d in (T(2016, 3, 13, 1, 59), T(2016, 3, 13, 2, 30), T(2016, 3, 13, 3, 0)):
			e.export_record(record(d))
			expect(e.get_newest_timestamp(), convert_datetime_to_timestamp(d), 'newest')
''', DBLIB)

bug('c36-cached-password', 'C36', [(
	MYSQL, "			password=self.password,\n", "			password=self.password.strip(),\n")],
	'a password that begins or ends with a space', 'Another password is used.',
	DB + '''
import mysql.connector
from weatherlink.exporter.mysql import MySQLExporter

seen = []


class Connection(object):
	def close(self):
		pass


mysql.connector.connect = lambda **k: seen.append(k) or Connection()
for password in ('', 'x', ' x', 'x y', 'x '):
	with MySQLExporter('u', password, 'd'):
		pass
	expect(seen[-1]['password'], password, 'password')
''', DBLIB)

bug('c36-reconnect-leaks', 'C36', [(
	MYSQL, "		except:\n			# Only allow this exception to be raised if an exception did not trigger the context manager exit\n			if not exception_type:\n				raise\n\n	@contextlib.contextmanager\n	def _get_cursor",
	"		except:\n			# Only allow this exception to be raised if an exception did not trigger the context manager exit\n			if exception_type is None:\n				raise\n			return True\n\n	@contextlib.contextmanager\n	def _get_cursor")],
	'an error in the context and a failing close', 'The error is swallowed.',
	DB + '''
import mysql.connector
from weatherlink.exporter.mysql import MySQLExporter


class Connection(object):
	def close(self):
		raise OSError('broken pipe')


mysql.connector.connect = lambda **k: Connection()
try:
	with MySQLExporter('u', 'p', 'd'):
		raise KeyError('x')
except KeyError:
	pass
else:
	sys.exit('the error did not come out')
''', DBLIB)

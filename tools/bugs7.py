"""The seventh round of planted bugs: what an object remembers, and what one object makes another wait for."""
from bugs import CONSOLE, DB, DOWNLOADER, HTTP, MODELS, MYSQL, POLLER, SERIAL, WU, bug
from bugs3 import DBLIB
from bugs4 import PLAIN

bug('c39-atexit', 'C39', [(
	MYSQL, "		self._connection = mysql.connector.connect(\n", "		atexit.register(self._leave)\n		connect = mysql.connector.connect\n		self._connection = connect(\n"), (
	MYSQL, "	def disconnect(self):\n", "	def _leave(self):\n		if self._connection:\n			self.disconnect()\n\n	def disconnect(self):\n"), (
	MYSQL, "import contextlib\n", "import atexit\nimport contextlib\n")],
	'a program that makes an exporter for every export', 'Every exporter is kept until the program ends.',
	'''
import gc
import sys
import weakref

import mysql.connector
from weatherlink.exporter.mysql import MySQLExporter


class Connection(object):
	def close(self):
		pass


mysql.connector.connect = lambda **k: Connection()
alive = []
for _ in range(50):
	exporter = MySQLExporter('u', 'p', 'd')
	with exporter:
		pass
	alive.append(weakref.ref(exporter))
	del exporter
gc.collect()
n = sum(1 for a in alive if a() is not None)
if n > 5:
	sys.exit('%d exporters are kept' % n)
''')

CORRECTED = DB + '''
summaries = lambda: [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY']
day = T(2016, 4, 1, 8)
'''

bug('c27-emptied-day', 'C27', [(
	MYSQL, "		if summary:\n			summary_id = summary[0]\n", '''		if summary and all(value is None for value in summary_values):
			return summary[0], None
		elif summary:
			summary_id = summary[0]
''')],
	'a day whose records are removed before it is recalculated', 'It keeps the statistics of the removed records.',
	CORRECTED + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(day, temperature_outside=D(50), temperature_outside_high=D(51), temperature_outside_low=D(49)))
		e.recalculate_summaries_for_dates([day])
		expect(summaries()[0]['temperature_outside_high'], D(51), 'highest temperature')
		server.engine.amend('weather_archive_record', lambda row: None)
		e.recalculate_summaries_for_dates([day])
		expect(summaries()[0]['temperature_outside_high'], None, 'highest temperature without records')
''', DBLIB)

bug('c27-old-evapotranspiration', 'C27', [(
	MYSQL, "			'evapotranspiration = %s, '\n", "			'evapotranspiration = COALESCE(%s, evapotranspiration), '\n")],
	'a reading that is found to be wrong and removed', 'The summary keeps it.',
	CORRECTED + '''

def without(row):
	row['evapotranspiration'] = None
	return row


with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(day, evapotranspiration=D('0.123')))
		e.recalculate_summaries_for_dates([day])
		expect(summaries()[0]['evapotranspiration'], D('0.123'), 'evapotranspiration')
		server.engine.amend('weather_archive_record', without)
		e.recalculate_summaries_for_dates([day])
		expect(summaries()[0]['evapotranspiration'], None, 'evapotranspiration without the reading')
''', DBLIB)

bug('c27-weeks-once', 'C27', [(
	MYSQL, "		yw = set()\n", "		yw = self.__dict__.setdefault('_weeks', set())\n")],
	'an exporter that recalculates the same week again', 'The week is not refreshed.',
	CORRECTED + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for hours, total in ((0, D('0.05')), (1, D('0.10'))):
			e.export_record(record(day + datetime.timedelta(hours=hours), rain_amount=D('0.05'), rain_amount_clicks=5))
			e.recalculate_summaries_for_dates([day])
			weeks = [r['rain_total'] for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'WEEKLY']
			expect(weeks, [total], 'rain of the week')
''', DBLIB)

bug('c31-cached-password', 'C31', [(
	WU, "		self.password = password\n", "		self.password = password\n		self._password = url_quote(password, safe='')\n"), (
	WU, "			url_quote(self.password, safe=''),\n", "			self._password,\n")],
	'a password that is corrected after the exporter was made', 'The old one is sent.',
	HTTP + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import ArchiveIntervalRecord

serve(lambda query: ('text/html', b'success'))
exporter = WundergroundExporter('KTN', 'wrong')
record = ArchiveIntervalRecord(date=datetime.datetime(2016, 4, 1), **{f: None for _, f in exporter.ATTRIBUTE_MAP_SIMPLE_UPDATE})
for password in ('wrong', 'right&'):
	exporter.password = password
	exporter.send_simple_update(record)
	expect(REQUESTS[-1]['PASSWORD'], password, 'password')
''')

bug('c38-class-lock', 'C38', [(
	POLLER, "	POLL_INSTRUCTION = 'LPS %s %s\\n'\n", "	POLL_INSTRUCTION = 'LPS %s %s\\n'\n\n	_polling = threading.Lock()\n"), (
	POLLER, "		self._send_poll_instruction(num_packets)\n\n		return self._receive_loop_packets(num_packets)\n",
	"		with self._polling:\n			self._send_poll_instruction(num_packets)\n\n			return self._receive_loop_packets(num_packets)\n")],
	'two stations polled in two threads, one of which does not answer', 'The other one is not polled either.',
	CONSOLE + '''
from weatherlink.poller import IPPoller

silence = threading.Event()


def silent(s, log):
	line(s)
	s.sendall(b'\\x06')
	log.append(1)
	silence.wait(60)
	s.sendall(packet(1))


def talk(s, log):
	line(s)
	s.sendall(b'\\x06' + packet(2))
	s.recv(1)


def poll(port, results):
	poller = IPPoller('127.0.0.1', port)
	with poller:
		results.append(poller.poll(1))


with console(silent) as (one, log), console(talk) as (two, _):
	first, second = [], []
	threads = [threading.Thread(target=poll, args=(one, first)), threading.Thread(target=poll, args=(two, second))]
	for t in threads:
		t.daemon = True
	threads[0].start()
	deadline = time.time() + 20
	while not log and time.time() < deadline:
		time.sleep(0.01)
	threads[1].start()
	threads[1].join(20)
	polled = len(second)
	silence.set()
	threads[0].join(20)
	expect((polled, len(first)), (1, 1), 'polled')
''')

bug('c35-stale-attribute', 'C35', [(
	MODELS, "	def __setattr__(self, name, value):\n		self[name] = value\n", "	def __setattr__(self, name, value):\n		self.__dict__[name] = self[name] = value\n")],
	'a field set as an attribute and changed as an item', 'The attribute keeps the old value.',
	PLAIN + '''
record = models.ArchiveIntervalRecord()
record.minutes_covered = 5
record['minutes_covered'] = 10
expect(record.minutes_covered, 10, 'minutes covered')
''')

bug('c11-cached-address', 'C11', [(
	SERIAL, "		self.port = port\n\n		self._socket", "		self.port = port\n		self._address = (host, port, )\n\n		self._socket"), (
	SERIAL, "connect((self.host, self.port, ))", "connect(self._address)")],
	'a console that has moved to another address', 'The old one is connected to.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	log.append(1)
	s.recv(1)


with console(talk) as (one, first), console(talk) as (two, second):
	poller = IPPoller('127.0.0.1', one)
	with poller:
		pass
	poller.port = two
	with poller:
		pass
	deadline = time.time() + 5
	while len(first) + len(second) < 2 and time.time() < deadline:
		time.sleep(0.01)
	expect((len(first), len(second)), (1, 1), 'connections')
''')

SECRET = HTTP + '''
import datetime
import traceback
from weatherlink.downloader import Downloader
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import ArchiveIntervalRecord

MARKER = 'mArKeR2016'


def expect_secret(text, what):
	if MARKER in text:
		sys.exit('the password is in %s: %s' % (what, text[:300]))
'''

bug('c44-status-with-address', 'C44', [(
	WU, "			raise AssertionError('Status code %s unexpected' % response.status_code)\n",
	"			raise AssertionError('Status code %s unexpected from %s' % (response.status_code, response.url))\n")],
	'an update that is answered with an error status', 'The error contains the password.',
	SECRET + '''

def send(adapter, request, **_):
	return adapter.build_response(request, HTTPResponse(body=io.BytesIO(b'no'), headers={'Content-Type': 'text/html'}, status=500, preload_content=False))


requests.adapters.HTTPAdapter.send = send
exporter = WundergroundExporter('KTN', MARKER)
record = ArchiveIntervalRecord(date=datetime.datetime(2016, 4, 1), **{f: None for _, f in exporter.ATTRIBUTE_MAP_SIMPLE_UPDATE})
try:
	exporter.send_simple_update(record)
except Exception:
	expect_secret(traceback.format_exc(), 'an error')
''')

bug('c44-unverified', 'C44', [(
	DOWNLOADER, "		response = _requests_session.get(url)\n		if response.headers['Content-Type'] not in",
	"		response = _requests_session.get(url, verify=self.record_count is None)\n		if response.headers['Content-Type'] not in")],
	'a downloader that is used again', 'The password is sent to whoever answers.',
	SECRET + '''
sent = []


def send(adapter, request, **options):
	sent.append(options.get('verify', True))
	body = b'Model=16\\nRecords=0\\nMaxRecords=10\\nArchiveInt=5\\nConsoleVer=x\\n'
	kind = 'text/html'
	if 'action=headers' not in request.url:
		body, kind = b'', 'application/octet-stream'
	return adapter.build_response(request, HTTPResponse(body=io.BytesIO(body), headers={'Content-Type': kind, 'Content-Transfer-Encoding': 'binary'}, status=200, preload_content=False))


requests.adapters.HTTPAdapter.send = send
downloader = Downloader('user', MARKER, 'token')
for _ in range(3):
	try:
		downloader.download(0)
	except Exception as e:
		print(repr(e))
expect(all(sent) and len(sent) >= 3, True, 'verification')
''')

bug('c44-credentials-of-the-session', 'C44', [(
	WU, "		response = self._session.get(url)\n", "		response = self._session.get(url, auth=(self.station_id, self.password) if self.record_queue else None)\n")],
	'rapid updates', 'The password is also sent in a header.',
	SECRET + '''
from weatherlink.models import LoopRecord

headers = []


def send(adapter, request, **_):
	headers.append(dict(request.headers))
	return adapter.build_response(request, HTTPResponse(body=io.BytesIO(b'success'), headers={'Content-Type': 'text/html'}, status=200, preload_content=False))


requests.adapters.HTTPAdapter.send = send
exporter = WundergroundExporter('KTN', MARKER)
record = LoopRecord(**{f: None for _, f in exporter.ATTRIBUTE_MAP_RAPID_UPDATE})
record.update(date=datetime.datetime(2016, 4, 1), wind_speed=5, wind_direction_degrees=90)
exporter.send_rapid_update(record)
expect([sorted(k for k in h if k.lower() == 'authorization') for h in headers], [[]], 'headers')
''')

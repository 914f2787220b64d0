"""The eighth round of planted bugs: what needs nothing further to arrive, and what the schema holds."""
from bugs import CONSOLE, DB, DOWNLOADER, MYSQL, POLLER, bug
from bugs4 import PLAIN
from bugs3 import DBLIB

HERE = "import os\nos.environ['WLMON_REPO'] = os.getcwd()\n"  # the schema is read from there
SCHEMA = 'weatherlink/exporter/mysql.sql'

bug('c13-reads-before-stopping', 'C13', [(
	POLLER, """				if self._stop_event and self._stop_event.is_set():
					self._send_data('\\r')
					return

				if self.packet_type ==""", """				if self.packet_type =="""), (
	POLLER, "				if callback:\n					callback(packet)\n", "				if self._stop_event and self._stop_event.is_set():\n					self._send_data('\\r')\n					return\n\n				if callback:\n					callback(packet)\n")],
	'a stop from the callback, and a station that falls silent after that packet', 'The polling never ends, and cannot be started again.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	line(s)
	s.sendall(b'\\x06' + packet(1))
	s.settimeout(8)
	try:
		log.append(s.recv(10))
	except socket.timeout:
		log.append(None)


with console(talk) as (port, log):
	poller = IPPoller('127.0.0.1', port)
	poller.connect()
	poller.start_background_polling(5, lambda packet: poller.stop_background_polling())
	for _ in range(100):
		if log:
			break
		time.sleep(0.1)
	if not log or not log[0]:
		sys.exit('the console was not told to cancel')
''')

bug('c22-schema-rain', 'C22', [(
	SCHEMA, "    `rain_total` decimal(7,3) unsigned NULL COMMENT 'The total amount of rain that fell during the archive period in inches',", "    `rain_total` decimal(6,2) unsigned NULL COMMENT 'The total amount of rain that fell during the archive period in inches',")],
	'rain of a metric collector, which comes in thousandths of an inch', 'The amount stored is rounded to hundredths.',
	HERE + DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.export_record(record(T(2016, 4, 1, 12), rain_amount=D('0.008'), rain_amount_clicks=1))
	expect([r['rain_total'] for r in server.rows()], [D('0.008')], 'rain stored')
''', DBLIB)

bug('c29-schema-key', 'C29', [(
	SCHEMA, "    UNIQUE INDEX `g$display` (`timestamp_start`),\n", "    INDEX `g$display` (`timestamp_start`),\n")],
	'a search for rain events while it is raining, and another one afterwards', 'The ongoing event stays, and a second one is stored.',
	HERE + DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for i in range(3):
			e.export_record(record(T(2016, 4, 1, 12, i), rain_amount=D('0.02'), rain_rate=D('0.10'), rain_amount_clicks=2, rain_rate_clicks=10))
			e.find_new_rain_events()
	expect([r['rain_total'] for r in server.rows('weather_rain_event')], [D('0.06')], 'events')
''', DBLIB)

bug('c24-schema-sign', 'C24', [(
	SCHEMA, "    `temperature_inside_low` decimal(4,1) NULL COMMENT", "    `temperature_inside_low` decimal(4,1) unsigned NULL COMMENT")],
	'a day on which it freezes below zero degrees Fahrenheit inside', 'The day cannot be summarized.',
	HERE + DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		day = T(2016, 1, 1, 12)
		e.export_record(record(day, temperature_inside=D('-3.5')))
		e.recalculate_summaries_for_dates([day])
	expect([r['temperature_inside_low'] for r in server.rows('weather_calculated_summary')], [D('-3.5')] * 4, 'lowest temperatures')
''', DBLIB)

bug('c43-room-for-all', 'C43', [(
	DOWNLOADER, '''		self.records = []

		for i in range(0, self.record_count):
''', '''		records = [None] * self.record_count

		for i in range(0, self.record_count):
'''), (
	DOWNLOADER, '''				print('WARN: Halted at record %s because false-y' % i)
				break

			self.records.append(record)''', '''				print('WARN: Halted at record %s because false-y' % i)
				del records[i:]
				break

			records[i] = record

		self.records = records''')],
	'headers that announce millions of records', 'Room is made for every record announced.',
	PLAIN + '''
import io
import tracemalloc
from weatherlink.downloader import Downloader

d = Downloader('user', 'password', 'token')
d.record_count, d.record_minute_span = 5000000, 5
tracemalloc.start()
try:
	d._process_download(io.BytesIO(bytes(52)))
except Exception:
	pass
if tracemalloc.get_traced_memory()[1] > 10000000:
	sys.exit('memory for records that never came')
''')

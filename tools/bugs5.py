"""The fifth round of planted bugs: unusual values, slow or resetting peers, and one-pass arguments."""
from bugs import CONSOLE, DB, HTTP, IMPORTER, MODELS, MYSQL, SERIAL, UTILS, WU, bug
from bugs2 import WLK
from bugs4 import DBLIB, PLAIN

bug('c01-datetime-subclass', 'C01', [(
	MODELS, "	if isinstance(d, datetime.datetime):\n		return", "	if type(d) is datetime.datetime:\n		return")],
	'a datetime of a subclass, as many libraries make them', 'It is passed through as if it were a timestamp.',
	PLAIN + '''
class Moment(datetime.datetime):
	pass


expect(models.convert_datetime_to_timestamp(Moment(2016, 3, 5, 12, 7)), models.convert_datetime_to_timestamp(datetime.datetime(2016, 3, 5, 12, 7)), 'timestamp')
''')

bug('c03-full-day', 'C03', [(
	IMPORTER, "					for r in range(0, day_index.record_count - 1):\n", "					for r in range(0, min(day_index.record_count - 1, 1440)):\n")],
	'a day with a record of every minute', 'Its last record is taken for the start of the next day.',
	WLK + '''
i = load({3: 1440})
if len(i.records) != 1440:
	sys.exit('%s records' % len(i.records))
''')

bug('c11-shutdown-first', 'C11', [(
	SERIAL, "			self._socket.close()\n", "			self._socket.shutdown(socket.SHUT_RDWR) or self._socket.close()\n")],
	'a console that reset the connection', 'Disconnecting fails, and the socket is not closed.',
	CONSOLE + '''
from weatherlink.poller import IPPoller
gone = threading.Event()


def talk(s, log):
	s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
	s.close()
	gone.set()


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	p.connect()
	gone.wait(10)
	time.sleep(0.2)
	try:
		p.disconnect()
	except Exception as e:
		sys.exit('disconnecting: %r' % e)
''')

bug('c12-impatient', 'C12', [(
	SERIAL, "			self._socket.connect((self.host, self.port, ))\n", "			self._socket.settimeout(5) or self._socket.connect((self.host, self.port, ))\n")],
	'a console that is silent for more than five seconds', 'The poll fails though every packet arrives.',
	CONSOLE + '''
from weatherlink.poller import IPPoller


def talk(s, log):
	line(s)
	s.sendall(b'\\x06')
	s.sendall(packet(1))
	time.sleep(6)
	s.sendall(packet(2))
	time.sleep(1)


with console(talk) as (port, log):
	p = IPPoller('127.0.0.1', port)
	with p:
		expect([x.minute_in_hour for x in p.poll(2)], [1, 2], 'packets')
''')

bug('c17-toward-zero', 'C17', [(
	UTILS, "		WC_C1 + (WC_C2 * T) - (WC_C3 * V) + (WC_C4 * T * V)\n	).quantize(ONE_TENTH, rounding=decimal.ROUND_FLOOR)\n",
	"		WC_C1 + (WC_C2 * T) - (WC_C3 * V) + (WC_C4 * T * V)\n	).quantize(ONE_TENTH, rounding=decimal.ROUND_FLOOR if T >= -40 else decimal.ROUND_DOWN)\n")],
	'a temperature below -40 F', 'The wind chill is rounded up.',
	PLAIN + '''
for t in range(-900, 400):
	T = D(t) / 10
	exact = D('35.74') + D('0.6215') * T - D('35.75') * D(20) ** D('0.16') + D('0.4275') * T * D(20) ** D('0.16')
	expect(utils.calculate_wind_chill(T, 20), exact.quantize(D('0.1'), rounding='ROUND_FLOOR'), 'wind chill at %s' % T)
''')

bug('c19-tenths', 'C19', [(
	UTILS, "	return DEGREE_DAYS_THRESHOLD - average_temperature\n", "	return (DEGREE_DAYS_THRESHOLD - average_temperature).quantize(ONE_TENTH)\n")],
	'an average with more than a tenth of a degree', 'The degree days are rounded.',
	PLAIN + '''
expect(utils.calculate_heating_degree_days(D('60.04')), D('4.96'), 'heating degree days')
''')

bug('c22-identity', 'C22', [(
	MYSQL, "			if k != COLUMN_MAP_DO_NOT_INSERT:\n", "			if k is not COLUMN_MAP_DO_NOT_INSERT:\n")],
	'a column map that was read from a file', 'A column that is not to be inserted is.',
	DB + '''
import json
from weatherlink.exporter.mysql import MySQLExporter
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		columns = dict(MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP, uv_index='__do_not_insert_this_value__')
		e.archive_table_column_map = json.loads(json.dumps(columns))
		e.export_record(record(T(2016, 3, 5, 12, 0), uv_index=D('3.0')))
	expect([r['uv_index'] for r in server.rows()], [None], 'UV')
''', DBLIB)

bug('c23-no-zone-again', 'C23', [(
	MYSQL, "		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value\n",
	"		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value or self._station_time_zone\n")],
	'a zone that is taken back', 'The time in the former zone is stored.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		e.station_time_zone = 'UTC'
		e.station_time_zone = None
		e.export_record(record(T(2016, 3, 5, 12, 0)))
	expect([r['timestamp_utc'] for r in server.rows()], [T(2016, 3, 5, 18, 0)], 'UTC')
''', DBLIB)

bug('c24-midnight-start', 'C24', [(
	MYSQL, "				wsh10mas = wsh10mas - datetime.timedelta(minutes=1)\n",
	"				wsh10mas = max(wsh10mas - datetime.timedelta(minutes=1), wsh10mas.replace(hour=0, minute=0))\n")],
	'a storm whose first minute is the one that ends at midnight', 'Its start is a minute late.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		for minute in range(0, 20):
			r = record(T(2016, 3, 5, 0, minute), wind_speed=D(40) if minute < 10 else D(1), wind_direction_prevailing=WindDirection.N)
			r['minutes_covered'] = 1
			e.export_record(r)
		e.recalculate_summaries_for_dates([T(2016, 3, 5)])
	row = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY'][0]
	expect(row['wind_speed_high_10_minute_average_start'], T(2016, 3, 4, 23, 59), 'start')
''', DBLIB)

bug('c32-gust-without-direction', 'C32', [(
	WU, "		if record['wind_speed'] is not None:\n", "		if record['wind_speed'] is not None and record['wind_direction_degrees'] is not None:\n")],
	'a gust whose direction the console marked as absent', 'It is not counted.',
	HTTP + '''
import datetime
from weatherlink.exporter.wunderground import WundergroundExporter
from weatherlink.models import LoopRecord

serve(lambda query: ('text/plain', b'success'))
e = WundergroundExporter('KXX', 'p')
FIELDS = [f for _, f in e.ATTRIBUTE_MAP_RAPID_UPDATE if not f.startswith('wind_gust')]
for speed, degrees in ((5, 90), (30, None), (4, 80)):
	r = LoopRecord(**dict.fromkeys(FIELDS))
	r.update(wind_speed=speed, wind_direction_degrees=degrees, date=datetime.datetime(2016, 3, 5, 12, 0))
	e.send_rapid_update(r)
expect(REQUESTS[-1].get('windgustmph'), '30', 'gust')
''')

#!/usr/bin/env python3
"""
Writes a heavily refactored, equivalent copy of /repo into DIRECTORY, on which every check has to stay quiet:
    refactor.py DIRECTORY && WLMON_REPO=DIRECTORY ./check.sh C01
It follows /repo's text as of the commit that last changed it, and stops where an expected passage is not found.
"""
import os
import subprocess
import sys

TARGET = os.path.abspath(sys.argv[1])
subprocess.check_call(['cp', '-a', '/repo', TARGET])
B = os.path.join(TARGET, 'weatherlink', '')
def edit(name, *pairs):
    f=B+name; s=open(f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(name,a)
        s=s.replace(a,b)
    open(f,'w').write(s)

# downloader: params through a helper, while loop, 'with' style
edit('downloader.py',
("_requests_session = requests.Session()\n","_http = requests.Session()\n"),
("_requests_session.get","_http.get"),
("""		url = self.WEATHER_LINK_URL.format(
			timestamp=timestamp,
			username=url_quote(self.username, safe=''),
			password=url_quote(self.password, safe=''),
			api_token=url_quote(self.api_token, safe=''),
			action=self.ACTION_HEADERS,
		)

		response = _http.get(url)
""","""		response = _http.get(self._url(timestamp, self.ACTION_HEADERS))
"""),
("""		url = self.WEATHER_LINK_URL.format(
			timestamp=timestamp,
			username=url_quote(self.username, safe=''),
			password=url_quote(self.password, safe=''),
			api_token=url_quote(self.api_token, safe=''),
			action=self.ACTION_DOWNLOAD,
		)

		headers = {'Accept-Encoding': 'identity'}

		response = _http.get(url, headers=headers, stream=True)
""","""		response = _http.get(
			self._url(timestamp, self.ACTION_DOWNLOAD),
			headers={'Accept-Encoding': 'identity'},
			stream=True,
		)
"""),
("	def _process_headers(","""	def _url(self, timestamp, action):
		quoted = dict(
			(key, url_quote(value, safe=''))
			for key, value in (('username', self.username), ('password', self.password), ('api_token', self.api_token))
		)
		return self.WEATHER_LINK_URL.format(timestamp=timestamp, action=action, **quoted)

	def _read_headers("""),
("self._process_headers(","self._read_headers("),
("self._process_download(response.raw)","self._read_records(response.raw)"),
("def _process_download(self","def _read_records(self"),
("""		for i in range(0, self.record_count):
			record =""","""		i = 0
		while i < self.record_count:
			record ="""),
("			self.records.append(record)","			self.records += [record]\n			i += 1"),
)
# importer
edit('importer.py',
("""			for day, day_index in enumerate(self.header.day_indexes):
				if day > 0:
					for r in range(0, day_index.record_count - 1):
						if r == 0:
							self.daily_summaries[day] = DailySummary.load_from_wlk(
								file_handle,
								self.year,
								self.month,
								day,
							)
						else:
							record = ArchiveIntervalRecord.load_from_wlk(file_handle, self.year, self.month, day)
							self.records.append(record)
							self.daily_records[day].append(record)""",
"""			for day in range(1, len(self.header.day_indexes)):
				self._import_day(file_handle, day, self.header.day_indexes[day].record_count - 2)

	def _import_day(self, file_handle, day, count):
		if count < 0:
			return

		self.daily_summaries[day] = DailySummary.load_from_wlk(file_handle, self.year, self.month, day)

		found = [ArchiveIntervalRecord.load_from_wlk(file_handle, self.year, self.month, day) for _ in range(count)]
		if found:
			self.records.extend(found)
			self.daily_records[day].extend(found)"""))
# serial
edit('serial.py',
("self._socket","self._connection"),
("""		ack = self._read_data(1)
		if not ack:
			raise InvalidAcknowledgementError('Expected ACK response 0x06, connection closed instead.')
		ack = ack[0]
		NotAcknowledgedError.raise_if_not_acknowledged(ack)
		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
""","""		answer = self._read_data(1)
		if len(answer) == 0:
			raise InvalidAcknowledgementError('Expected ACK response 0x06, connection closed instead.')
		for check in (NotAcknowledgedError, InvalidAcknowledgementError):
			check.raise_if_not_acknowledged(answer[0])
"""),
("""			self._connection = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
			self._connection.connect((self.host, self.port, ))
		except:
			if self._connection:
				try:
					self.disconnect()
				except IOError:
					pass
			raise
""","""			connection = self._connection = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
			connection.connect((self.host, self.port))
		except:
			if self._connection is not None:
				try:
					self.disconnect()
				except IOError:
					pass
			raise
"""),
("""		return setting if return_crc else setting[:-2]
""","""		if return_crc:
			return setting
		return setting[:len(setting) - 2] if len(setting) > 2 else setting[:0]
"""),
("		setup_bits = ord(self.read_config_setting(*self.CONFIG_SETTING_SETUP_BITS))\n		return setup_bits & mask","		address, length = self.CONFIG_SETTING_SETUP_BITS\n		return mask & ord(self.read_config_setting(address, length))"),
)
edit('poller.py',
("self._send_data(","self._send_data("),
("self._stop_event","self._stopping"),
("""		try:
			self._send_poll_instruction(num_packets)

			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
			thread.start()
		except:""","""		try:
			self._send_poll_instruction(num_packets)

			threading.Thread(target=lambda: self._poll_in_background(num_packets, callback)).start()
		except:"""),
("""			for i in range(0, num_packets):
				if""","""			remaining = num_packets
			while remaining > 0:
				remaining -= 1
				if"""),
("""				if self.packet_type == self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2:
					packet = LoopRecord.load_loop_1_2_from_connection(handle)
				elif self.packet_type == self.PACKET_TYPE_LOOP1:
					packet = LoopRecord.load_loop_1_from_connection(handle)
				else:
					packet = LoopRecord.load_loop_2_from_connection(handle)

				if callback:
					callback(packet)
				else:
					packets.append(packet)
""","""				(callback or packets.append)(self._load(handle))
"""),
("class IPPoller","""	def _load(self, handle):
		loaders = {
			self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2: LoopRecord.load_loop_1_2_from_connection,
			self.PACKET_TYPE_LOOP1: LoopRecord.load_loop_1_from_connection,
		}
		return loaders.get(self.packet_type, LoopRecord.load_loop_2_from_connection)(handle)


class IPPoller"""),
)
s=open(B+'poller.py').read()
i=s.index("	def _load(self"); s=s[:i].rstrip()+"\n\n"+s[i:]
open(B+'poller.py','w').write(s)
# wunderground
edit('exporter/wunderground.py',
("""	i = 0
	gust = None
	gust_direction = None

	for record in exporter.record_queue:
		if i > 24:  # 1 minute
			break
		i += 1

		if record['wind_speed'] is not None:
			old_gust = gust
			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
			if gust != old_gust:
				gust_direction = record['wind_direction_degrees']

	return gust, gust_direction
""","""	best = None

	for record in itertools.islice(exporter.record_queue, 25):  # 1 minute
		if record['wind_speed'] is not None and (best is None or record['wind_speed'] > best['wind_speed']):
			best = record

	return (None, None) if best is None else (best['wind_speed'], best['wind_direction_degrees'])
"""),
("import collections\n","import collections\nimport itertools\n"),
("""	i = 0
	current_direction_list = []

	for record in exporter.record_queue:
		if i > 48:  # 2 minutes
			break
		i += 1

		if record['wind_direction_degrees'] is not None:
			current_direction_list.append(record['wind_direction_degrees'])
""","""	current_direction_list = [
		record['wind_direction_degrees']
		for record in itertools.islice(exporter.record_queue, 49)  # 2 minutes
		if record['wind_direction_degrees'] is not None
	]
"""),
("""		for parameter, field in attribute_map or []:
			if field and record[field] is not None:
				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )

		for parameter, function in attribute_calculations or []:
			if function:
				value = function(self, record)
				if value is not None:
					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )

		response = self._session.get(url)
""","""		values = [(p, record[field]) for p, field in attribute_map or [] if field]
		values += [(p, function(self, record)) for p, function in attribute_calculations or [] if function]
		url += ''.join('&' + p + '=' + url_quote(str(v), safe='') for p, v in values if v is not None)

		response = self._http.get(url)
"""),
("self._session = requests","self._http = requests"),
)
# models
edit('models.py',
("_TENTHS = decimal.Decimal('0.1')\nTENTHS = lambda x: x * _TENTHS","_TENTHS = decimal.Decimal('0.1')\n\n\ndef TENTHS(x):\n	return _TENTHS * x\n"),
("""	crc = 0
	cast_with_ord = isinstance(data_bytes, six.string_types)
	for i, byte in enumerate(data_bytes):
		if cast_with_ord:
			byte = ord(byte)
		crc = WEATHERLINK_CRC_TABLE[((crc >> 8) & 0xFF) ^ byte] ^ ((crc << 8) & 0xFF00)
	return crc""","""	crc = 0
	for byte in bytearray(ord(c) for c in data_bytes) if isinstance(data_bytes, six.string_types) else data_bytes:
		high, low = crc >> 8, crc & 0xFF
		crc = WEATHERLINK_CRC_TABLE[high ^ byte] ^ (low << 8)
	return crc"""),
("""	date_part = timestamp >> 16
	time_part = timestamp - (date_part << 16)

	year = int((date_part / 512) + 2000)
	month = int((date_part - ((year - 2000) * 512)) / 32)
	day = int(date_part - ((year - 2000) * 512) - (month * 32))
	hour = int(time_part / 100)
	minute = int(time_part - (hour * 100))

	return datetime.datetime(year, month, day, hour, minute)
""","""	date_part, time_part = timestamp >> 16, timestamp & 0xFFFF
	hour, minute = divmod(time_part, 100)
	return datetime.datetime(2000 + (date_part >> 9), (date_part >> 5) & 15, date_part & 31, hour, minute)
"""),
("""		kwargs = {}
		for i, v in enumerate(arguments):
			if i not in cls.RECORD_VERIFICATION_MAP_DOWNLOAD and i not in cls.RECORD_SPECIAL_HANDLING_DOWNLOAD:
				k = cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][0]
				if v == cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][2]:
					kwargs[k] = None
				else:
					kwargs[k] = cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD[i][1](v)

		record = cls(**kwargs)
""","""		skipped = cls.RECORD_SPECIAL_HANDLING_DOWNLOAD.union(cls.RECORD_VERIFICATION_MAP_DOWNLOAD)
		record = cls()
		for i, (k, convert, dash) in enumerate(cls.RECORD_ATTRIBUTE_MAP_DOWNLOAD):
			if i not in skipped:
				record[k] = None if arguments[i] == dash else convert(arguments[i])
"""),
("""			if record[k1]:
				record[k2] = record[k1].degrees
			else:
				record[k2] = None
""","""			record[k2] = None if record[k1] is None else record[k1].degrees
"""),
("""		unpacked = struct.unpack_from(cls.LOOP2_RECORD_FORMAT, data)
""","""		unpacked = struct.Struct(cls.LOOP2_RECORD_FORMAT).unpack_from(data, 0)
"""),
("""		try:
			arguments['barometric_trend'] = BarometricTrend(arguments['barometric_trend'])
		except ValueError:
			arguments['barometric_trend'] = None
""","""		trends = dict((t.value, t) for t in BarometricTrend)
		arguments['barometric_trend'] = trends.get(arguments['barometric_trend'])
"""),
)
# utils
edit('utils.py',
("""	speed_queue = collections.deque(maxlen=10)
	direction_queue = collections.deque(maxlen=10)
	timestamp_queue = collections.deque(maxlen=10)
	current_max = ZERO
	current_direction_list = []
	current_timestamp_list = []
""","""	window = collections.deque(maxlen=10)
	current_max = ZERO
	best = None
"""),
)
s=open(B+'utils.py').read()
a=s.index("		# We want each record to be present in the queue the same"); b=s.index("	return None, None, None, None\n\n\ndef _append_to_list")
s=s[:a]+"""		for i in reversed(range(minutes_covered)):
			window.append((wind_speed, wind_speed_direction, timestamp_station - datetime.timedelta(minutes=i)))
		if minutes_covered < 1:
			pass

		if len(window) == 10:
			average = sum([m[0] for m in window]) / 10
			if average > current_max:
				current_max = average
				best = list(window)

	if best:
		direction = collections.Counter([m[1] for m in best]).most_common(1)[0][0]
		return current_max, direction, best[0][2], best[-1][2]

"""+s[b:]
s=s.replace("""	if humidity_inside and temperature_inside is not None:
		a = calculate_dew_point(temperature_inside, humidity_inside)
		b = calculate_heat_index(temperature_inside, humidity_inside)
		if a is not None:
			arguments['dew_point_inside'] = a
		if b is not None:
			arguments['heat_index_inside'] = b
""","""	if humidity_inside and temperature_inside is not None:
		for name, function in (('dew_point', calculate_dew_point), ('heat_index', calculate_heat_index)):
			value = function(temperature_inside, humidity_inside)
			if value is not None:
				arguments[name + '_inside'] = value
""")
a=s.index("		if solar_radiation or solar_radiation_high:\n"); b=s.index("			if a:\n				arguments['thsw_index'] = a[0]")
s=s[:a]+"""		if solar_radiation or solar_radiation_high:
			a = []
			for radiation in (solar_radiation, solar_radiation_high):
				for t in (temperature_outside, temperature_outside_high, temperature_outside_low):
					for speed in (ws, wsh):
						if t is not None and radiation:
							_append_to_list(a, calculate_thsw_index(t, humidity_outside, radiation, speed))
"""+s[b:]
open(B+'utils.py','w').write(s)
# mysql
edit('exporter/mysql.py',
("self._connection","self._db"),
("""		column_list = []
		arguments = []
		for k, v in six.iteritems(argument_map):
			if k != COLUMN_MAP_DO_NOT_INSERT:
				column_list.append(k)
				arguments.append(v)
""","""		argument_map.pop(COLUMN_MAP_DO_NOT_INSERT, None)
		column_list = sorted(argument_map)
		arguments = [argument_map[k] for k in column_list]
"""),
("'timestamp_station >= %s AND timestamp_station <= %s'","'(timestamp_station BETWEEN %s AND %s)'"),
("""		query = (
			'SELECT summary_id FROM weather_calculated_summary WHERE summary_type = %s AND summary_year = %s '
			'AND summary_month = %s AND summary_week = %s AND summary_day = %s;'
		)
		cursor.execute(query, [summary_type, year, month, week, day])
		summary = cursor.fetchone()

		if summary:
			summary_id = summary[0]
		else:
			# Insert an empty summary to reduce complexity
			query = (
				'INSERT INTO weather_calculated_summary '
				'(summary_type, summary_year, summary_month, summary_week, summary_day, week_start, week_end) '
				'VALUES (%s, %s, %s, %s, %s, %s, %s);'
			)
			cursor.execute(query, [summary_type, year, month, week, day, week_start, week_end])
			summary_id = cursor.lastrowid
""","""		summary_id = self._find_or_create(cursor, summary_type, year, month, week, day, week_start, week_end)
"""),
("	def _aggregate_degree_days_and_wind_averages(self, cursor, summary_id, where_clause, where_arguments):\n","""	@staticmethod
	def _find_or_create(cursor, summary_type, year, month, week, day, week_start, week_end):
		key = collections.OrderedDict((
			('summary_type', summary_type),
			('summary_year', year),
			('summary_month', month),
			('summary_week', week),
			('summary_day', day),
		))
		cursor.execute(
			'SELECT s.summary_id FROM weather_calculated_summary AS s WHERE ' +
			' AND '.join('s.`%s` = %%(%s)s' % (name, name) for name in key) + ' LIMIT 1',
			dict(key),
		)
		row = cursor.fetchone()
		if row is not None:
			return row[0]
		key['week_start'], key['week_end'] = week_start, week_end
		cursor.execute(
			'INSERT INTO weather_calculated_summary SET ' + ', '.join('%s = %%(%s)s' % (name, name) for name in key),
			dict(key),
		)
		return cursor.lastrowid

	def _aggregate_degree_days_and_wind_averages(self, cursor, summary_id, where_clause, where_arguments):
"""),
("import contextlib\n","import collections\nimport contextlib\n"),
("""				# It's possible, though unlikely, that multiple days or times will have the same extreme value
				# When this happens, the first one is always the record holder
				'SELECT ' + timestamp_column + ' FROM ' + table_name + ' WHERE ' + _where_clause +
				' AND ' + value_column + ' = %s ORDER BY ' + timestamp_column + ' ASC LIMIT 1;'
""","""				'SELECT MIN(' + timestamp_column + ') FROM ' + table_name + ' WHERE ' + _where_clause +
				' AND ' + value_column + ' = %s'
"""),
("""			result = cursor.fetchone()
			timestamp_values.append(result[0] if result else None)
""","""			timestamp_values.append(cursor.fetchone()[0])
"""),
("""			with self._get_cursor('SELECT max(timestamp_end) FROM weather_rain_event;', []) as cursor:
				latest = cursor.fetchone()[0]

				if latest:
					query = (
						'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
						'WHERE timestamp_station > %s AND rain_total > 0 ORDER BY timestamp_station LIMIT 1;'
					)
					cursor.execute(query, [latest])
				else:
					query = (
						'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
						'WHERE timestamp_station IS NOT NULL AND rain_total > 0 ORDER BY timestamp_station LIMIT 1;'
					)
					cursor.execute(query, [])
""","""			with self._get_cursor() as cursor:
				cursor.execute(
					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
					'WHERE rain_total > 0 AND timestamp_station > '
					"COALESCE((SELECT max(timestamp_end) FROM weather_rain_event), '1000-01-01 00:00:00') "
					'ORDER BY timestamp_station ASC LIMIT 1',
				)
"""),
("""					'ON DUPLICATE KEY UPDATE timestamp_end = %s, timestamp_rain_rate_high = %s, rain_total = %s, '
					'rain_rate_average = %s, rain_rate_high = %s;',
""","""					'ON DUPLICATE KEY UPDATE timestamp_end = VALUES(timestamp_end), '
					'timestamp_rain_rate_high = VALUES(timestamp_rain_rate_high), rain_total = VALUES(rain_total), '
					'rain_rate_average = VALUES(rain_rate_average), rain_rate_high = VALUES(rain_rate_high)',
"""),
("""						event_max_rain_rate, last_rain, event_max_rate_time, event_total_rain, average_rate,
						event_max_rain_rate,
""","""						event_max_rain_rate,
"""),
("""		limit = 1440
		while timestamp:
			cursor.execute(
				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT ' + str(limit) + ';',
				[timestamp],
			)
			timestamp = None
			for i, row in enumerate(cursor, 1):
				if i == limit:
					timestamp = row[0]
				yield row
""","""		page = 500
		while timestamp is not None:
			cursor.execute(
				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
				'WHERE timestamp_station > %s ORDER BY 1 LIMIT %s',
				[timestamp, page],
			)
			rows = cursor.fetchall()
			for row in rows:
				yield row
			timestamp = rows[-1][0] if len(rows) == page else None
"""),
("	def _recalculate_all_time_summary(self):\n		pass\n",""),
("		self._recalculate_all_time_summary()\n",""),
("""		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
			return cursor.fetchone()[0]""","""		with self._get_cursor(
			'SELECT timestamp_weatherlink FROM weather_archive_record '
			'WHERE timestamp_weatherlink IS NOT NULL ORDER BY timestamp_weatherlink DESC LIMIT 1'
		) as cursor:
			newest = cursor.fetchone()
			return newest[0] if newest else None"""),
)

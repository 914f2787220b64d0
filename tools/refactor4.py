#!/usr/bin/env python3
"""
Writes a fourth equivalent copy of /repo into DIRECTORY, with other standard library and driver calls for the same effect
(named cursors, fetchmany, explicit transactions, recv_into, precompiled layouts, bounded caches of pure functions).
Every check has to stay quiet on it.
    refactor4.py DIRECTORY && WLMON_REPO=DIRECTORY ./check.sh C01
"""
import os
import subprocess
import sys

TARGET = os.path.abspath(sys.argv[1])
subprocess.check_call(['cp', '-a', '/repo', TARGET])


def edit(name, *pairs):
	path = os.path.join(TARGET, 'weatherlink', name)
	with open(path) as f:
		s = f.read()
	for a, b in pairs:
		assert s.count(a) == 1, (name, a, s.count(a))
		s = s.replace(a, b)
	with open(path, 'w') as f:
		f.write(s)


edit(
	'exporter/mysql.py', ('''		query = "SELECT summary_id FROM weather_calculated_summary WHERE summary_type = 'YEARLY' AND summary_year = %s;"
		with self._get_cursor(query, [year]) as cursor:
			return cursor.fetchone() is not None
''', '''		with contextlib.closing(self._connection.cursor(buffered=True)) as cursor:
			cursor.execute(
				"SELECT summary_id FROM weather_calculated_summary WHERE summary_type = 'YEARLY' AND summary_year = %(year)s",
				{'year': year},
			)
			return cursor.rowcount > 0
'''), ('''		column_list = []
		arguments = []
		for k, v in six.iteritems(argument_map):
			if k != COLUMN_MAP_DO_NOT_INSERT:
				column_list.append(k)
				arguments.append(v)
''', '''		argument_map.pop(COLUMN_MAP_DO_NOT_INSERT, None)
		column_list, arguments = zip(*sorted(six.iteritems(argument_map)))
'''), ('''				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT ' + str(limit) + ';',
				[timestamp],
			)
			timestamp = None
			for i, row in enumerate(cursor, 1):
				if i == limit:
					timestamp = row[0]
				yield row
''', '''				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT %s;',
				(timestamp, limit, ),
			)
			count = 0
			rows = cursor.fetchmany(100)
			while rows:
				for row in rows:
					count += 1
					timestamp = row[0]
					yield row
				rows = cursor.fetchmany(100)
			if count < limit:
				return
'''), ('''			cursor.execute(query, where_arguments + [wind_speed_high])
''', '''			cursor.execute(query, tuple(where_arguments) + (wind_speed_high, ))
'''), ('''		self._connection = mysql.connector.connect(
			host=self.host,
			port=self.port,
			database=self.database,
			user=self.username,
			password=self.password,
		)
''', '''		settings = dict(zip(('host', 'port', 'database', 'user', 'password'), (
			self.host, self.port, self.database, self.username, self.password,
		)))
		self._connection = mysql.connector.connect(**settings)
'''),
)

edit(
	'serial.py', ('''		return self._socket.recv(length)
''', '''		buffer = bytearray(length)
		received = self._socket.recv_into(buffer, length)
		return bytes(memoryview(buffer)[:received])
'''), ('''		data = setting_value + struct.pack('>H', crc)  # Unlike''', '''		data = b''.join((setting_value, crc.to_bytes(2, 'big')))  # Unlike'''), (
		'''		length = int('0x%s' % setting_length, 16) + 2  # must''', '''		length = 2 + int(setting_length, base=16)  # must'''), ('''		self._socket.sendall(data.encode('ascii') if isinstance(data, six.text_type) else data)
''', '''		view = memoryview(bytes(data, 'ascii') if isinstance(data, six.text_type) else data)
		while view:
			view = view[self._socket.send(view):]
'''),
)

edit(
	'models.py', ('''	def __getattr__(self, name):
		try:
			return self[name]
		except KeyError:
			raise AttributeError(name)
''', '''	def __getattr__(self, name):
		if name in self:
			return self[name]
		raise AttributeError(name)
'''), ('''	date_part = timestamp >> 16
	time_part = timestamp - (date_part << 16)

	year = int((date_part / 512) + 2000)
	month = int((date_part - ((year - 2000) * 512)) / 32)
	day = int(date_part - ((year - 2000) * 512) - (month * 32))
	hour = int(time_part / 100)
	minute = int(time_part - (hour * 100))

	return datetime.datetime(year, month, day, hour, minute)
''', '''	date_part, time_part = divmod(timestamp, 1 << 16)
	year, rest = divmod(date_part, 512)
	month, day = divmod(rest, 32)
	hour, minute = divmod(time_part, 100)
	return datetime.datetime(2000 + year, month, day, hour, minute)
'''), ('''		arguments = struct.unpack_from(
			cls.RECORD_FORMAT_DOWNLOAD,
			response_handle.read(cls.RECORD_LENGTH_DOWNLOAD),
		)
''', '''		data = response_handle.read(cls.RECORD_LENGTH_DOWNLOAD)
		arguments = struct.Struct(cls.RECORD_FORMAT_DOWNLOAD).unpack_from(memoryview(data))
'''), ('''	crc = 0
	cast_with_ord = isinstance(data_bytes, six.string_types)
	for i, byte in enumerate(data_bytes):
		if cast_with_ord:
			byte = ord(byte)
		crc = WEATHERLINK_CRC_TABLE[((crc >> 8) & 0xFF) ^ byte] ^ ((crc << 8) & 0xFF00)
	return crc
''', '''	if isinstance(data_bytes, six.string_types):
		data_bytes = map(ord, data_bytes)
	return functools.reduce(
		lambda crc, byte: WEATHERLINK_CRC_TABLE[(crc >> 8) ^ byte] ^ ((crc & 0xFF) << 8), data_bytes, 0)
'''), ('''import enum
''', '''import enum
import functools
'''), ('''		for k1, k2 in cls.RECORD_WIND_DIRECTION_SPECIAL:
			if record[k1]:
				record[k2] = record[k1].degrees
			else:
				record[k2] = None

		record.date = (
			datetime''', '''		record.update(
			(k2, getattr(record[k1], 'degrees', None)) for k1, k2 in cls.RECORD_WIND_DIRECTION_SPECIAL
		)

		record.date = (
			datetime'''),
)

edit(
	'importer.py', ('''		year, month = file_name[start_index:][:self.EXPECTED_FILE_NAME_LENGTH].split('-')

		self.year = int(year)
		self.month = int(month)
''', '''		self.year, self.month = map(int, file_name[start_index:-self.FILE_EXTENSION_LENGTH].split('-'))
'''), ('''			for day, day_index in enumerate(self.header.day_indexes):
				if day > 0:
					for r in range(0, day_index.record_count - 1):
						if r == 0:
							self.daily_summaries[day] = DailySummary.load_from_wlk(
								file_handle,
								self.year,
								self.month,
								day,
							)
						else:
							record = ArchiveIntervalRecord.load_from_wlk(file_handle, self.year, self.month, day)
							self.records.append(record)
							self.daily_records[day].append(record)
''', '''			for day, day_index in enumerate(self.header.day_indexes[1:], 1):
				if day_index.record_count < 2:
					continue
				date = (self.year, self.month, day, )
				self.daily_summaries[day] = DailySummary.load_from_wlk(file_handle, *date)
				for _ in range(2, day_index.record_count):
					record = ArchiveIntervalRecord.load_from_wlk(file_handle, *date)
					self.records += [record]
					self.daily_records[day].append(record)
'''),
)

edit(
	'downloader.py', ('''		header_lines = header_response_text.splitlines()
		headers = {}
		for line in header_lines:
			k, v = line.split('=', 1)
			headers[k.strip()] = v.strip()
''', '''		headers = dict(map(str.strip, line.split('=', 1)) for line in header_response_text.splitlines())
'''), ('''		for i in range(0, self.record_count):
			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)
			if not record:
				print('WARN: Halted at record %s because false-y' % i)
				break

			self.records.append(record)''', '''		remaining = self.record_count
		while remaining > 0:
			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)
			if record is None:
				print('WARN: Halted at record %s because false-y' % (self.record_count - remaining))
				return
			self.records.append(record)
			remaining -= 1'''), ('''		if not (username and password and api_token):
''', '''		if not all((username, password, api_token)):
'''),
)

edit(
	'poller.py', ('''		with self._get_file_handle() as handle:
			for i in range(0, num_packets):
				if self._stop_event and self._stop_event.is_set():
					self._send_data('\\r')
					return
''', '''		load = {
			self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2: LoopRecord.load_loop_1_2_from_connection,
			self.PACKET_TYPE_LOOP1: LoopRecord.load_loop_1_from_connection,
		}.get(self.packet_type, LoopRecord.load_loop_2_from_connection)
		deliver = callback or packets.append

		with self._get_file_handle() as handle:
			for i in range(0, num_packets):
				stop_event = self._stop_event
				if stop_event is not None and stop_event.is_set():
					self._send_data(b'\\r')
					return
'''), ('''				if self.packet_type == self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2:
					packet = LoopRecord.load_loop_1_2_from_connection(handle)
				elif self.packet_type == self.PACKET_TYPE_LOOP1:
					packet = LoopRecord.load_loop_1_from_connection(handle)
				else:
					packet = LoopRecord.load_loop_2_from_connection(handle)

				if callback:
					callback(packet)
				else:
					packets.append(packet)
''', '''				deliver(load(handle))
'''), ('''			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
			thread.start()
''', '''			threading.Thread(
				target=self._poll_in_background, name='WeatherLink poller', kwargs={'num_packets': num_packets, 'callback': callback},
			).start()
'''),
)

edit(
	'exporter/wunderground.py', ('''	i = 0
	gust = None
	gust_direction = None

	for record in exporter.record_queue:
		if i > 24:  # 1 minute
			break
		i += 1

		if record['wind_speed'] is not None:
			old_gust = gust
			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
			if gust != old_gust:
				gust_direction = record['wind_direction_degrees']

	return gust, gust_direction
''', '''	speeds = [(r['wind_speed'], -i, r) for i, r in enumerate(exporter.record_queue) if i <= 24 and r['wind_speed'] is not None]
	if not speeds:
		return None, None
	gust, _, record = max(speeds, key=operator.itemgetter(0, 1))
	return gust, record['wind_direction_degrees']
'''), ('''import math
''', '''import math
import operator
'''), ('''		response = self._session.get(url)
''', '''		response = self._session.request('GET', url)
'''), ('''		if not (200 <= response.status_code < 300):
''', '''		if response.status_code // 100 != 2:
'''),
)

edit(
	'utils.py', ('''	Tc = convert_fahrenheit_to_celsius(temperature)
	RH = _as_decimal(relative_humidity)

	Ym = (
''', '''	Tc, RH = convert_fahrenheit_to_celsius(temperature), decimal.Decimal(relative_humidity or 0)

	Ym = (
'''), ('''def _abs(d):
	return max(d, -d)
''', '''def _abs(d):
	return d if d > 0 else -d
'''),
)

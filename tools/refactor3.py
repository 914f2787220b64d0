#!/usr/bin/env python3
"""
Writes a third equivalent copy of /repo into DIRECTORY, with other SQL for the same results (upserts, row constructors,
subqueries, HAVING), merged and split transactions' statements, and other loops.  Every check has to stay quiet on it.
    refactor3.py DIRECTORY && WLMON_REPO=DIRECTORY ./check.sh C01
"""
import os
import subprocess
import sys

TARGET = os.path.abspath(sys.argv[1])
subprocess.check_call(['cp', '-a', '/repo', TARGET])


def edit(name, *pairs):
	path = os.path.join(TARGET, 'weatherlink', name)
	with open(path) as f:
		s = f.read()
	for a, b in pairs:
		assert s.count(a) == 1, (name, a, s.count(a))
		s = s.replace(a, b)
	with open(path, 'w') as f:
		f.write(s)


edit(
	'exporter/mysql.py', ('''		query = (
			'SELECT summary_id FROM weather_calculated_summary WHERE summary_type = %s AND summary_year = %s '
			'AND summary_month = %s AND summary_week = %s AND summary_day = %s;'
		)
		cursor.execute(query, [summary_type, year, month, week, day])
		summary = cursor.fetchone()

		if summary:
			summary_id = summary[0]
		else:
			# Insert an empty summary to reduce complexity
			query = (
				'INSERT INTO weather_calculated_summary '
				'(summary_type, summary_year, summary_month, summary_week, summary_day, week_start, week_end) '
				'VALUES (%s, %s, %s, %s, %s, %s, %s);'
			)
			cursor.execute(query, [summary_type, year, month, week, day, week_start, week_end])
			summary_id = cursor.lastrowid
''', '''		cursor.execute(
			'INSERT INTO weather_calculated_summary '
			'(summary_type, summary_year, summary_month, summary_week, summary_day, week_start, week_end) '
			'VALUES (%s, %s, %s, %s, %s, %s, %s) ON DUPLICATE KEY UPDATE summary_id = LAST_INSERT_ID(summary_id)',
			(summary_type, year, month, week, day, week_start, week_end, ),
		)
		summary_id = cursor.lastrowid
'''), ('''				'SELECT wind_speed_direction FROM weather_archive_record WHERE ' + where_clause +
				' AND wind_speed_direction IS NOT NULL GROUP BY wind_speed_direction ORDER BY count(1) DESC LIMIT 1;'
''', '''				'SELECT r.wind_speed_direction AS direction, COUNT(*) AS times FROM weather_archive_record AS r WHERE ' +
				where_clause + ' GROUP BY r.wind_speed_direction HAVING direction IS NOT NULL ORDER BY times DESC LIMIT 1'
'''), ('''		hdd, cdd = cursor.fetchone()

''', '''		(hdd, cdd, ) = cursor.fetchall()[0]

'''), ('''			wind_values = cursor.fetchone()
''' if False else '''		wind_values = cursor.fetchone()
''', '''		wind_values = next(iter(cursor.fetchall()), None)
'''), ('''		cursor.execute(
			'SELECT avg(wind_run_distance_total) FROM weather_calculated_summary WHERE ' + where_clause + ';',
			where_arguments,
		)
		wind_run_distance_total_average = cursor.fetchone()[0]

		cursor.execute(
			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
			'WHERE summary_id = %s;',
			[wind_run_distance_total_average, summary_id],
		)
''', '''		cursor.execute(
			'UPDATE weather_calculated_summary AS target SET target.wind_run_distance_' + column + '_average = '
			'(SELECT days.average FROM (SELECT AVG(wind_run_distance_total) AS average '
			'FROM weather_calculated_summary WHERE ' + where_clause + ') AS days) WHERE target.summary_id = %s',
			where_arguments + [summary_id],
		)
'''), ('''		query = "SELECT summary_id FROM weather_calculated_summary WHERE summary_type = 'YEARLY' AND summary_year = %s;"
		with self._get_cursor(query, [year]) as cursor:
			return cursor.fetchone() is not None
''', '''		query = (
			'SELECT EXISTS (SELECT s.* FROM weather_calculated_summary AS s '
			"WHERE (s.summary_type, s.summary_year) = ('YEARLY', %s)) AS found"
		)
		with self._get_cursor(query, (year, )) as cursor:
			(found, ) = cursor.fetchone()
			return bool(found)
'''), ('''			for i, row in enumerate(cursor, 1):
				if i == limit:
					timestamp = row[0]
				yield row
''', '''			page = cursor.fetchall()
			if len(page) == limit:
				timestamp = page[-1][0]
			for row in page:
				yield row
'''), ('''				try:
					cursor.fetchall()  # Fetch remaining rows to prevent an error.
				except mysql.connector.errors.InterfaceError:
					# This just means there were no remaining rows
					pass

''', ''), ('''					old = event_max_rain_rate
					event_max_rain_rate = max(event_max_rain_rate, rain_rate_high)
					if old != event_max_rain_rate:
						event_max_rate_time = timestamp_station
''', '''					if rain_rate_high > event_max_rain_rate:
						event_max_rain_rate, event_max_rate_time = rain_rate_high, timestamp_station
'''), ('''		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
			return cursor.fetchone()[0]
''', '''		query = (
			'SELECT timestamp_weatherlink FROM weather_archive_record WHERE timestamp_weatherlink IS NOT NULL '
			'ORDER BY timestamp_weatherlink DESC LIMIT 1'
		)
		with self._get_cursor(query) as cursor:
			for (newest, ) in cursor.fetchall():
				return newest
			return None
'''), ('''			week_year, week_number, _ = date.isocalendar()
			if (week_year, week_number, ) in yw:
				continue

			yw.add((week_year, week_number, ))
			ywdd.append((week_year, week_number, date, ))
''', '''			iso_week = date.isocalendar()[:2]
			if iso_week not in yw:
				yw.add(iso_week)
				ywdd.append(tuple(iso_week) + (date, ))
'''),
)

edit(
	'poller.py', ('''			for i in range(0, num_packets):
				if self._stop_event and self._stop_event.is_set():
					self._send_data('\\r')
					return

				if self.packet_type == self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2:
					packet = LoopRecord.load_loop_1_2_from_connection(handle)
				elif self.packet_type == self.PACKET_TYPE_LOOP1:
					packet = LoopRecord.load_loop_1_from_connection(handle)
				else:
					packet = LoopRecord.load_loop_2_from_connection(handle)

				if callback:
					callback(packet)
				else:
					packets.append(packet)

		if not callback:
			return packets
''', '''			remaining = num_packets
			while remaining > 0:
				remaining -= 1
				if self._stop_event is not None and self._stop_event.is_set():
					self._send_data(b'\\r')
					return None

				(callback or packets.append)(self._load_packet(handle))

		return None if callback else packets

	def _load_packet(self, handle):
		loaders = {
			self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2: LoopRecord.load_loop_1_2_from_connection,
			self.PACKET_TYPE_LOOP1: LoopRecord.load_loop_1_from_connection,
		}
		return loaders.get(self.packet_type, LoopRecord.load_loop_2_from_connection)(handle)
'''),
)

edit(
	'downloader.py', ('''		for line in header_lines:
			k, v = line.split('=', 1)
			headers[k.strip()] = v.strip()
''', '''		for line in header_lines:
			pair = [part.strip() for part in line.split('=', 1)]
			headers.update([pair])
'''), ('''		for i in range(0, self.record_count):
			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)
			if not record:
				print('WARN: Halted at record %s because false-y' % i)
				break

			self.records.append(record)
''', '''		while len(self.records) < self.record_count:
			record = ArchiveIntervalRecord.load_from_download(download_response_handle, self.record_minute_span)
			if record:
				self.records.append(record)
			else:
				print('WARN: Halted at record %s because false-y' % len(self.records))
				return
'''),
)

edit(
	'exporter/wunderground.py', ('''	i = 0
	gust = None
	gust_direction = None

	for record in exporter.record_queue:
		if i > 24:  # 1 minute
			break
		i += 1

		if record['wind_speed'] is not None:
			old_gust = gust
			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
			if gust != old_gust:
				gust_direction = record['wind_direction_degrees']

	return gust, gust_direction
''', '''	latest = itertools.islice(exporter.record_queue, 25)  # 1 minute
	winds = [(r['wind_speed'], r['wind_direction_degrees']) for r in latest if r['wind_speed'] is not None]
	return max(winds, key=lambda wind: wind[0]) if winds else (None, None)
'''), ('''	i = 0
	current_direction_list = []

	for record in exporter.record_queue:
		if i > 48:  # 2 minutes
			break
		i += 1

		if record['wind_direction_degrees'] is not None:
			current_direction_list.append(record['wind_direction_degrees'])
''', '''	latest = [record['wind_direction_degrees'] for record in itertools.islice(exporter.record_queue, 0, 49)]
	current_direction_list = list(filter(lambda degrees: degrees is not None, latest))
'''), ('''import collections
''', '''import collections
import itertools
'''), ('''		for parameter, field in attribute_map or []:
			if field and record[field] is not None:
				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )

		for parameter, function in attribute_calculations or []:
			if function:
				value = function(self, record)
				if value is not None:
					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
''', '''		parameters = [(parameter, record[field]) for parameter, field in attribute_map or () if field]
		parameters += [(parameter, function(self, record)) for parameter, function in attribute_calculations or () if function]
		url += ''.join('&%s=%s' % (k, url_quote(str(v), safe='')) for k, v in parameters if v is not None)
'''),
)

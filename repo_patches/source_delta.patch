From abb1204ee88468ead4f745132936e36228e7efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 01/26] fix: read .wlk wind direction codes as unsigned bytes

The dashed direction code is 255. Unpacked as a signed byte it became -1,
never matched the dash value, and aborted the import of the whole file.
---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From cf0bee7a0f3fe1ce94f728536a296bb6c8214bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 02/26] fix: take the default packet type from Poller

LoopRecord has no PACKET_TYPE_LOOP2, so no poller could be constructed.
---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From 6f15262ea482070f3d34164998c1b2aac38b69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 03/26] fix: encode text instructions before sending them to
 the socket

On Python 3 socket.sendall() accepts only bytes, so every instruction failed.
---
 weatherlink/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..2fb3b1e 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,7 +210,7 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
-		self._socket.sendall(data)
+		self._socket.sendall(data.encode('ascii') if isinstance(data, six.text_type) else data)
 
 	def _read_data(self, length):
 		return self._socket.recv(1)
-- 
2.43.0


From 34ee95a7e7dd15beb00dbde9248ac8fd6774b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 04/26] fix: read from the console connection in binary mode

On Python 3 makefile() defaults to text mode, which decodes the console's
binary data as UTF-8 and hands str to struct.unpack and the CRC.
---
 weatherlink/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 2fb3b1e..35bd1f6 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -220,7 +220,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From 1529f350ddb0a57d073dc392b6fb088fb76547e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 05/26] fix: honor the length argument when reading from the
 socket

---
 weatherlink/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 35bd1f6..1b1d2df 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -213,7 +213,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		self._socket.sendall(data.encode('ascii') if isinstance(data, six.text_type) else data)
 
 	def _read_data(self, length):
-		return self._socket.recv(1)
+		return self._socket.recv(length)
 
 	@contextlib.contextmanager
 	def _get_file_handle(self):
-- 
2.43.0


From 0fc6149acf3793e01165516d0891e049b86d134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 06/26] fix: report a closed connection as a failed
 acknowledgment

At end of stream confirm_ack() raised IndexError, which is not an IOError.
---
 weatherlink/serial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 1b1d2df..df26b7d 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -110,9 +110,12 @@ class SerialCommunicator(object):
 		Returns nothing.
 
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
-		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
+		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06), or if there is no byte to read
 		"""
-		ack = self._read_data(1)[0]
+		ack = self._read_data(1)
+		if not ack:
+			raise InvalidAcknowledgementError('Expected ACK response 0x06, connection closed instead.')
+		ack = ack[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From 584edaa56bf2903608df3980e5786b843c8ce499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 07/26] fix: let background polling be started again after it
 ends

The stop event was never cleared, so once background polling had been
stopped, had completed or had failed to start, it could not be started
again and poll() returned nothing.
---
 weatherlink/poller.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..3e397ec 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,16 +44,27 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
-		if not self._stop_event:
+		stop_event = self._stop_event
+		if not stop_event:
 			raise ValueError('Cannot stop background polling when not running.')
 
-		self._stop_event.set()
+		stop_event.set()
+
+	def _poll_in_background(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			self._stop_event = None
 
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
-- 
2.43.0


From 9ebffeae444b6af77cf71e094f7cab0cd474fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 08/26] fix: raise AttributeError for a missing record
 attribute

A KeyError out of __getattr__ breaks hasattr(), getattr() with a default,
copy and pickle for every record.
---
 weatherlink/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 18fb505..5cf8893 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -156,7 +156,10 @@ class RecordDict(dict):
 		super(RecordDict, self).__init__(*args, **kwargs)
 
 	def __getattr__(self, name):
-		return self.__getitem__(name)
+		try:
+			return self[name]
+		except KeyError:
+			raise AttributeError(name)
 
 	def __setattr__(self, name, value):
 		self[name] = value
-- 
2.43.0


From bb8fac7fad2469c1a677e1c00f07dddc5a736b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 09/26] fix: quote the credentials in the download URL

A user name, password or token with a character such as &, #, + or %
produced a URL carrying different credentials.
---
 weatherlink/downloader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..a4e1ef6 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import
 
 import requests
+# noinspection PyUnresolvedReferences
+from six.moves.urllib.parse import quote as url_quote
 
 from weatherlink.models import (
 	ArchiveIntervalRecord,
@@ -39,9 +41,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +55,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From 9ad4e70137f8846b17bd20b619295917e38f2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 10/26] fix: convert station time to UTC with the zone's offset
 at that time

---
 weatherlink/exporter/mysql.py        |  2 +-
 weatherlink/exporter/wunderground.py |  2 +-
 weatherlink/utils.py                 | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..a272c03 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,7 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..e0d1f32 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -131,7 +131,7 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..235ec42 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -35,6 +35,8 @@ import collections
 import datetime
 import decimal
 
+import pytz
+
 
 ZERO = decimal.Decimal('0')
 ONE = decimal.Decimal('1')
@@ -134,6 +136,26 @@ def _as_decimal(value):
 	return value if isinstance(value, decimal.Decimal) else decimal.Decimal(value or '0')
 
 
+def convert_station_time_to_utc(station_time, time_zone):
+	"""
+	Converts the naive station-local date and time to the naive UTC date and time.
+
+	:param station_time: The station-local date and time
+	:type station_time: datetime.datetime
+	:param time_zone: The station time zone
+	:type time_zone: datetime.tzinfo
+
+	:return: The UTC date and time
+	:rtype: datetime.datetime
+	"""
+	if hasattr(time_zone, 'localize'):
+		# A pytz time zone passed to `replace` would apply the zone's earliest offset (usually local mean time)
+		station_time = time_zone.localize(station_time)
+	else:
+		station_time = station_time.replace(tzinfo=time_zone)
+	return station_time.astimezone(pytz.UTC).replace(tzinfo=None)
+
+
 def convert_fahrenheit_to_kelvin(temperature):
 	"""
 	Converts the temperature from degrees Fahrenheit to Kelvin.
-- 
2.43.0


From 564cf15d738e452874c817af41edd13b75426e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 11/26] fix: summarize days that have no outside temperature

---
 weatherlink/exporter/mysql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a272c03..e00a801 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -318,8 +318,10 @@ class MySQLExporter(object):
 				wsh10mae = wsh10mae.time()
 
 			# Calculate degree days
-			hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
-			cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
+			hdd = cdd = None
+			if average_temperature is not None:
+				hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
+				cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
 
 			# Update the summary with these daily-only expensive calculations
 			cursor.execute(
-- 
2.43.0


From 70a8844b9717c383caa24ce5bc9c170800efb233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 12/26] fix: follow rain events that span more than 1440
 records to their end

---
 weatherlink/exporter/mysql.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e00a801..ac523f0 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -656,6 +656,22 @@ class MySQLExporter(object):
 				[wind_run_distance_total_average, summary_id],
 			)
 
+	@staticmethod
+	def _get_rain_after(cursor, timestamp):
+		# The records are selected one page at a time, because most events end long before the end of the table
+		limit = 1440
+		while timestamp:
+			cursor.execute(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT ' + str(limit) + ';',
+				[timestamp],
+			)
+			timestamp = None
+			for i, row in enumerate(cursor, 1):
+				if i == limit:
+					timestamp = row[0]
+				yield row
+
 	def find_new_rain_events(self):
 		found_rain_events = 0
 		ongoing_rain_events = 0
@@ -688,14 +704,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._get_rain_after(cursor, start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
-- 
2.43.0


From ced5715c3e766598eafb87aa1c041f25379e8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 13/26] fix: send numeric values to Weather Underground

---
 weatherlink/exporter/wunderground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index e0d1f32..1b79bd6 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -142,13 +142,13 @@ class WundergroundExporter(object):
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From 79b756f1768dc59746b808d54932d9a9637f323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 14/26] fix: find the wind gust on Python 3

---
 weatherlink/exporter/wunderground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 1b79bd6..5b4c19f 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -27,7 +27,7 @@ def _get_wind_gust(exporter, *_):
 
 		if record['wind_speed'] is not None:
 			old_gust = gust
-			gust = max(gust, record['wind_speed'])
+			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
 				gust_direction = record['wind_direction_degrees']
 
-- 
2.43.0


From 67188e76b01e6ebbdebdb528695be7511b0560a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 15/26] fix: omit the dew point when temperature or humidity is
 missing

---
 weatherlink/exporter/wunderground.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 5b4c19f..ad7eaeb 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -15,6 +15,12 @@ import six
 import weatherlink.utils
 
 
+def _get_dew_point(_, record):
+	if record['temperature_outside'] is None or not record['humidity_outside']:
+		return None
+	return weatherlink.utils.calculate_dew_point(record['temperature_outside'], record['humidity_outside'])
+
+
 def _get_wind_gust(exporter, *_):
 	i = 0
 	gust = None
@@ -81,7 +87,7 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			_get_dew_point,
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From ca075c924e7e4d74389722427393fa7d63ac0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 16/26] fix: average wind directions as vectors

---
 weatherlink/exporter/wunderground.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index ad7eaeb..84671bf 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -5,6 +5,7 @@ This module contains an exporter for uploading weather data to the Weather Under
 from __future__ import absolute_import
 
 import collections
+import math
 # noinspection PyUnresolvedReferences
 from six.moves.urllib.parse import quote as url_quote
 
@@ -52,7 +53,12 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 		if record['wind_direction_degrees'] is not None:
 			current_direction_list.append(record['wind_direction_degrees'])
 
-	return (sum(current_direction_list) / len(current_direction_list)) if current_direction_list else None
+	# Directions are averaged as vectors: the average of 350 and 10 degrees is 360 degrees, not 180
+	north = sum(math.cos(math.radians(degrees)) for degrees in current_direction_list)
+	east = sum(math.sin(math.radians(degrees)) for degrees in current_direction_list)
+	if math.hypot(north, east) < 1e-6:
+		return None  # There are no directions, or they cancel each other out
+	return int(round(math.degrees(math.atan2(east, north)))) % 360 or 360
 
 
 class WundergroundExporter(object):
-- 
2.43.0


From d41e3c348ef04d87dc1ab313a608176a8ee606b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 17/26] fix: derive values from temperatures of exactly zero
 degrees

---
 weatherlink/utils.py | 60 ++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 235ec42..11631e5 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -665,7 +665,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -690,29 +690,29 @@ def calculate_all_record_values(record):
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -724,45 +724,45 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if wind_speed or wind_speed_high:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -772,10 +772,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -784,7 +784,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -793,7 +793,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -802,7 +802,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -811,7 +811,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From 3f1f7596aa00891a4daab095bde34e9ff2f2c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 18/26] fix: record when an extreme of exactly zero degrees
 occurred

---
 weatherlink/exporter/mysql.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index ac523f0..83b79b4 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -472,6 +472,14 @@ class MySQLExporter(object):
 		(49, ('thsw_index_high', 'thsw_index_high', ), 'thsw_index_high_timestamp', ),
 	)
 
+	# A high of zero means that there was no wind, rain, or sun to time, while a temperature of zero is like any other
+	TIMESTAMPS_WITHOUT_ZERO_EXTREMES = frozenset({
+		'wind_speed_high_timestamp',
+		'rain_rate_high_timestamp',
+		'solar_radiation_high_timestamp',
+		'uv_index_high_timestamp',
+	})
+
 	def _recalculate_summary_from_arguments(
 		self, cursor, where_clause, where_arguments, summary_type, year, month, week, day,
 		week_start=None, week_end=None,
@@ -536,7 +544,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None or (not value and rule[2] in self.TIMESTAMPS_WITHOUT_ZERO_EXTREMES):
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From ec9d95e2d66435d7344aea4e66b578f761412408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 19/26] fix: read the number of wind packets in a day as
 unsigned

---
 weatherlink/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 5cf8893..ae49da2 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -236,7 +236,7 @@ class DailySummary(RecordDict):
 		'27x'  # time values (ignored)
 		'bx'  # '3' plus a reserved byte [ignored]
 		'2x'  # today's weather (unsupported and ignored)
-		'h'  # total number of wind packets
+		'H'  # total number of wind packets
 		'8x'  # solar, sunlight, and evapotranspiration (ignored)
 		'2h'  # hi and low heat index in tenths of degrees
 		'h'  # average heat index in tenths of degrees
@@ -287,7 +287,7 @@ class DailySummary(RecordDict):
 		('rain_total', THOUSANDTHS, None, ),
 		('rain_rate_high', HUNDREDTHS, None, ),
 		('ds2_version', STRAIGHT_NUMBER, None, ),
-		('total_wind_packets', STRAIGHT_NUMBER, DASH_LARGE_NEGATIVE, ),
+		('total_wind_packets', STRAIGHT_NUMBER, DASH_LARGE_NEGATIVE & 0xFFFF, ),
 		('heat_index_high', TENTHS, DASH_LARGE_NEGATIVE, ),
 		('heat_index_low', TENTHS, DASH_LARGE, ),
 		('heat_index_average', TENTHS, DASH_LARGE, ),
-- 
2.43.0


From 1a4a93444f95d655036da0b5c9f41b1de2ecd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 20/26] fix: reject a configuration setting cut short by a
 closed connection

---
 weatherlink/serial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index df26b7d..5e8bf52 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -273,10 +273,12 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		"""
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
+		length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			setting = handle.read(length)
 
-		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
+		# The CRC of no data at all is also zero
+		if confirm_crc and (len(setting) != length or calculate_weatherlink_crc(setting) != 0):
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
 
 		return setting if return_crc else setting[:-2]
-- 
2.43.0


From a95ab16d44a260b7af1179f35c9ad522cdcf608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 21/26] fix: summarize days with records longer than 10 minutes

---
 weatherlink/exporter/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 83b79b4..a5e1f7d 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -306,7 +306,8 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			# All the rows must be fetched, because the function stops at the first record longer than 10 minutes
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor.fetchall())
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From 655dccb983c88a9a23c58a758f6ff29cb33b2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 22/26] fix: include the first record of the week whatever the
 time of the given date

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a5e1f7d..36b02fd 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -338,7 +338,7 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0)
+		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0, microsecond=0)
 		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
 
 		with self._get_cursor() as cursor:
-- 
2.43.0


From 065a1197b7333d00d027b30c857d587260c9a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 23/26] fix: refresh the weekly wind run average of a year
 whose last or first week changed

---
 weatherlink/exporter/mysql.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 36b02fd..b4fdea9 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -273,6 +273,9 @@ class MySQLExporter(object):
 			yw.add((week_year, week_number, ))
 			ywdd.append((week_year, week_number, date, ))
 
+		# A week at the turn of the year can count toward a year that none of the dates are in
+		y.update([week_year for (week_year, _) in yw if week_year not in y and self._has_yearly_summary(week_year)])
+
 		y = sorted(list(y))
 		ym = sorted(list(ym))
 
@@ -287,6 +290,11 @@ class MySQLExporter(object):
 
 		self._recalculate_all_time_summary()
 
+	def _has_yearly_summary(self, year):
+		query = "SELECT summary_id FROM weather_calculated_summary WHERE summary_type = 'YEARLY' AND summary_year = %s;"
+		with self._get_cursor(query, [year]) as cursor:
+			return cursor.fetchone() is not None
+
 	def _recalculate_daily_summary(self, year, month, day):
 		with self._get_cursor() as cursor:
 			summary_id, average_temperature = self._recalculate_summary_from_arguments(
-- 
2.43.0


From 4a8bdc1af8d5e60ab0f5c4ae4d52be971fe88211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:51 +0000
Subject: [PATCH 24/26] fix: keep archive records out of the queue of rapid
 updates

A simple update put its archive record into the queue of live packets, so the
next rapid update failed with a KeyError for wind_direction_degrees.
---
 weatherlink/exporter/wunderground.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 84671bf..4b6b899 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -171,8 +171,6 @@ class WundergroundExporter(object):
 			raise AssertionError('Response "%s" unexpected' % response.text)
 
 	def send_simple_update(self, record):
-		self.record_queue.appendleft(record)
-
 		self._send_update(
 			self.URL_SIMPLE_UPDATE,
 			self.ATTRIBUTE_MAP_SIMPLE_UPDATE,
-- 
2.43.0


From 3cf1efdc8d2c1418ded2eb760d9a1097053b49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 25/26] fix: an interruption is not replaced by the error of a
 cursor or file that then fails to close

---
 weatherlink/exporter/mysql.py | 2 +-
 weatherlink/serial.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index b4fdea9..5045042 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -187,7 +187,7 @@ class MySQLExporter(object):
 				else:
 					cursor.execute(statement)
 			yield cursor
-		except Exception as e:
+		except BaseException as e:
 			exc = e
 			raise
 		finally:
diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 5e8bf52..749d5b8 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -225,7 +225,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		try:
 			handle = self._socket.makefile('rb')
 			yield handle
-		except Exception as e:
+		except BaseException as e:
 			exc = e
 			raise
 		finally:
-- 
2.43.0


From 9ca338843078f0005d236d1754812b3c045101f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 26/26] fix: a summary recalculated without wind no longer
 keeps its old wind run average

---
 weatherlink/exporter/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 5045042..c59cc7c 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -666,12 +666,11 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	@staticmethod
 	def _get_rain_after(cursor, timestamp):
-- 
2.43.0


#!/usr/bin/env python3
"""
Writes a second equivalent copy of /repo into DIRECTORY, with other ways to use the libraries: buffered cursors, named
parameters, files and connections read into memory, prepared structures, generators.  Every check has to stay quiet on it.
    refactor2.py DIRECTORY && WLMON_REPO=DIRECTORY ./check.sh C01
"""
import os
import subprocess
import sys

TARGET = os.path.abspath(sys.argv[1])
subprocess.check_call(['cp', '-a', '/repo', TARGET])


def edit(name, *pairs):
	path = os.path.join(TARGET, 'weatherlink', name)
	with open(path) as f:
		s = f.read()
	for a, b in pairs:
		assert s.count(a) == 1, (name, a, s.count(a))
		s = s.replace(a, b)
	with open(path, 'w') as f:
		f.write(s)


edit(
	'serial.py', ('''			self._socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
			self._socket.connect((self.host, self.port, ))
''', '''			self._socket = socket.create_connection((self.host, self.port))
'''), ('''		try:
			self._socket.close()
		finally:
			self._socket = None
''', '''		connection, self._socket = self._socket, None
		connection.close()
'''), ('''			handle = self._socket.makefile('rb')
''', '''			handle = self._socket.makefile(mode='rb', buffering=4096)
'''), ('''			setting = handle.read(length)
''', '''			pieces = []
			missing = length
			while missing:
				piece = handle.read(missing)
				if not piece:
					break
				pieces.append(piece)
				missing -= len(piece)
			setting = b''.join(pieces)
'''), ('''		self._send_data(data)

	def read_setup_bit''', '''		for start in range(0, len(data), 64):
			self._send_data(data[start:start + 64])

	def read_setup_bit'''),
)
edit(
	'poller.py', ('''			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
''', '''			thread = threading.Thread(target=lambda: self._poll_in_background(num_packets, callback), name='weatherlink-poller')
'''), ('''				if callback:
					callback(packet)
				else:
					packets.append(packet)
''', '''				(callback or packets.append)(packet)
'''),
)
edit(
	'importer.py', ("import collections\n", "import collections\nimport io\n"), ('''		with open(self.file_name, 'rb') as file_handle:
			self.header''', '''		with open(self.file_name, 'rb') as opened:
			content = opened.read()
		with io.BytesIO(content) as file_handle:
			self.header'''),
)
edit(
	'downloader.py', ("		response = _requests_session.get(url, headers=headers, stream=True)\n",
		"		response = _requests_session.request('GET', url, stream=True, headers=headers)\n"),
	('''		for i in range(0, self.record_count):
			record''', '''		i = -1
		while i + 1 < self.record_count:
			i += 1
			record'''),
)
edit(
	'models.py', ('''		data = socket_file.read(cls.RECORD_LENGTH)

		unpacked = struct.unpack_from(cls.LOOP2_RECORD_FORMAT, data)
''', '''		data = bytes(bytearray(socket_file.read(cls.RECORD_LENGTH)))

		unpacked = struct.Struct(cls.LOOP2_RECORD_FORMAT).unpack_from(data)
'''),
)
edit(
	'exporter/mysql.py', ("			cursor = self._connection.cursor()\n", "			cursor = self._connection.cursor(buffered=True)\n"),
	('''		column_list = []
		arguments = []
		for k, v in six.iteritems(argument_map):
			if k != COLUMN_MAP_DO_NOT_INSERT:
				column_list.append(k)
				arguments.append(v)

		statement = (
			'INSERT INTO ' + self.archive_table_name + ' (' + ', '.join(column_list) + ') ' +
			'VALUES (' + ', '.join(['%s'] * len(column_list)) + ');'
		)

		with self._get_cursor(statement, arguments):
			self._connection.commit()
''', '''		columns = sorted(k for k in argument_map if k != COLUMN_MAP_DO_NOT_INSERT)
		arguments = dict(('v%d' % i, argument_map[k]) for i, k in enumerate(columns))
		statement = 'INSERT INTO {} ({}) VALUES ({})'.format(
			self.archive_table_name, ', '.join(columns), ', '.join('%%(v%d)s' % i for i in range(len(columns))))

		with self._get_cursor() as cursor:
			cursor.execute(statement, arguments)
			self._connection.commit()
'''), ('''			return cursor.fetchone() is not None
''', '''			return len(cursor.fetchall()) > 0
'''), ('''			for i, row in enumerate(cursor, 1):
				if i == limit:
					timestamp = row[0]
				yield row
''', '''			page = cursor.fetchall()
			if len(page) == limit:
				timestamp = page[-1][0]
			for row in page:
				yield row
'''), ('''		wind_run_distance_total_average = cursor.fetchone()[0]
''', '''		(wind_run_distance_total_average, ), = cursor.fetchall()
'''),
)
edit(
	'exporter/wunderground.py', ('''		for parameter, field in attribute_map or []:
			if field and record[field] is not None:
				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )

		for parameter, function in attribute_calculations or []:
			if function:
				value = function(self, record)
				if value is not None:
					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
''', '''		values = [(parameter, record[field]) for parameter, field in attribute_map or [] if field]
		values += [(parameter, function(self, record)) for parameter, function in attribute_calculations or [] if function]
		url += ''.join('&' + parameter + '=' + url_quote(str(value), safe='') for parameter, value in values if value is not None)
'''),
)

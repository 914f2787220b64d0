"""
A MySQL server on a loopback port, as far as a client can tell: the wire protocol of MySQL 8 over the engine of
sqlengine.py.  The real client library connects, authenticates, sends SQL text and converts the answers.
"""
import contextlib
import hashlib
import os
import random
import re
import socket
import struct
import sys
import threading
import time
import traceback

from wlmon import core, sqlengine

SCHEMA = os.path.join(os.environ.get('WLMON_REPO', '/repo'), 'weatherlink', 'exporter', 'mysql.sql')
CAPABILITIES = (
	1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x20000 | 0x80000 | 0x200000
)  # LONG_PASSWORD FOUND_ROWS LONG_FLAG CONNECT_WITH_DB PROTOCOL_41 TRANSACTIONS SECURE_CONNECTION MULTI_RESULTS PLUGIN_AUTH LENENC
FIELD = {'int': 8, 'decimal': 246, 'datetime': 12, 'date': 10, 'time': 11, 'year': 13, 'enum': 254, 'str': 253, 'null': 6}
STATEMENT_LIMIT = 20000
SETUP_RE = re.compile(r'^\s*(SET\b|SELECT\s+@@)', re.I)


class Dropped(Exception):
	pass


def lenenc(n):
	if n < 251:
		return struct.pack('<B', n)
	if n < 65536:
		return b'\xfc' + struct.pack('<H', n)
	return b'\xfd' + struct.pack('<I', n)[:3]


def lenstr(data):
	return lenenc(len(data)) + data


class Fault(object):
	"""
	What happens at one statement: 'error' (refused, its transaction stays), 'deadlock' (refused and rolled back),
	'drop' (the connection is lost before the statement is executed), 'drop_after' (executed, but the connection is
	lost before the answer: the client cannot know), 'drop_rows' (lost in the middle of the rows).
	"""
	KINDS = ('error', 'deadlock', 'drop', 'drop_after', 'drop_rows')

	def __init__(self, at, kind):
		self.at, self.kind, self.fired = at, kind, False


class Connection(object):
	def __init__(self, server, sock, number):
		self.server, self.sock, self.number = server, sock, number
		self.session = sqlengine.Session(server.engine)
		self.sequence = 0
		self.user = self.database = None
		self.authenticated = False
		self.quit = False  # the client said goodbye
		self.ended = False
		self.thread = threading.Thread(target=self.main)
		self.thread.daemon = True

	# ---- packets
	def read_exactly(self, n):
		data = b''
		while len(data) < n:
			chunk = self.sock.recv(n - len(data))
			if not chunk:
				raise Dropped()
			data += chunk
		return data

	def receive(self):
		data = b''
		while True:
			head = self.read_exactly(4)
			size = head[0] | head[1] << 8 | head[2] << 16
			self.sequence = head[3] + 1
			data += self.read_exactly(size)
			if self.server.received is not None:
				self.server.received.append(data)
			if size < 0xffffff:
				return data

	def packet(self, body):
		if len(body) >= 0xffffff:
			raise core.HarnessError('packet too long')
		data = struct.pack('<I', len(body))[:3] + struct.pack('<B', self.sequence & 255) + body
		self.sequence += 1
		return data

	def send(self, body):
		self.sock.sendall(self.packet(body))

	def status(self):
		return (2 if self.session.autocommit else 0) | (1 if self.session.snapshot is not None else 0)

	def ok(self, affected=0, insert_id=0):
		self.send(b'\x00' + lenenc(affected) + lenenc(insert_id) + struct.pack('<HH', self.status(), 0))

	def error(self, number, state, message):
		self.send(b'\xff' + struct.pack('<H', number) + b'#' + state.encode('ascii') + message.encode('utf-8'))

	def eof(self):
		return self.packet(b'\xfe' + struct.pack('<HH', 0, self.status()))

	# ---- life
	def main(self):
		try:
			self.serve()
		except (Dropped, OSError):
			pass
		except core.HarnessError as e:
			self.server.harness_error = self.server.harness_error or str(e)
		except Exception:
			self.server.harness_error = self.server.harness_error or traceback.format_exc()
		finally:
			self.session.rollback()
			self.ended = True
			try:
				self.sock.shutdown(socket.SHUT_RDWR)
			except OSError:
				pass
			self.sock.close()

	def serve(self):
		server = self.server
		self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
		nonce = bytes(bytearray(server.rng.randrange(1, 127) for _ in range(20)))
		if server.refuse == 'close':
			server.refused += 1
			raise Dropped()
		if server.refuse == 'busy':
			server.refused += 1
			self.error(1040, '08004', 'Too many connections')
			return
		self.send(
			b'\x0a' + b'8.0.36\x00' + struct.pack('<I', self.number) + nonce[:8] + b'\x00' + struct.pack('<H', CAPABILITIES & 0xffff)
			+ b'\xff' + struct.pack('<H', 2) + struct.pack('<H', CAPABILITIES >> 16) + struct.pack('<B', 21) + b'\x00' * 10
			+ nonce[8:] + b'\x00' + b'caching_sha2_password\x00'
		)
		answer = self.receive()
		flags = struct.unpack('<I', answer[:4])[0]
		at = answer.index(b'\x00', 32)
		self.user = answer[32:at].decode('utf-8')
		size = bytearray(answer)[at + 1]
		scramble = answer[at + 2:at + 2 + size]
		at += 2 + size
		if flags & 8:
			end = answer.index(b'\x00', at)
			self.database = answer[at:end].decode('utf-8') or None
		password = server.password.encode('utf-8')
		if password:
			one = hashlib.sha256(password).digest()
			two = hashlib.sha256(hashlib.sha256(one).digest() + nonce).digest()
			expected = bytes(bytearray(a ^ b for a, b in zip(bytearray(one), bytearray(two))))
		else:
			expected = b''
		if self.user != server.user or scramble != expected:
			server.rejected.append((self.user, self.database))
			self.error(1045, '28000', "Access denied for user '%s'@'localhost'" % self.user)
			return
		if self.database is not None and self.database != server.database:
			server.rejected.append((self.user, self.database))
			self.error(1049, '42000', "Unknown database '%s'" % self.database)
			return
		if scramble:
			self.send(b'\x01\x03')  # fast authentication
		self.ok()
		self.authenticated = True
		while True:
			command = self.receive()
			code, body = bytearray(command)[0], command[1:]
			if code == 1:
				self.quit = True
				return
			if code == 2:
				self.database = body.decode('utf-8')
				if self.database != server.database:
					self.error(1049, '42000', "Unknown database '%s'" % self.database)
				else:
					self.ok()
			elif code == 14:
				self.ok()
			elif code == 31:
				self.session.rollback()
				self.session.autocommit = True
				self.ok()
			elif code == 3:
				self.query(body.decode('utf-8'))
			else:
				server.harness_error = server.harness_error or 'command %d is not supported' % code
				self.error(1047, '08S01', 'Unknown command')

	def query(self, sql):
		server = self.server
		fault = None
		if not SETUP_RE.match(sql):
			server.statements += 1
			word = sql.split(None, 1)[0].lower().rstrip(';')
			server.counts[word] = server.counts.get(word, 0) + 1
			server.log.append((self.number, sql))
			if server.statements > STATEMENT_LIMIT:
				server.runaway = True
				raise Dropped()
			for f in server.faults:
				if f.at == server.statements and not f.fired:
					fault = f
			if server.on_statement:
				server.on_statement(server.statements, sql)
		if fault:
			fault.fired = True
			if fault.kind == 'drop':
				raise Dropped()
			if fault.kind == 'deadlock':
				self.session.rollback()
				self.error(1213, '40001', 'Deadlock found when trying to get lock; try restarting transaction')
				return
			if fault.kind == 'error':
				self.error(1205, 'HY000', 'Lock wait timeout exceeded; try restarting transaction')
				return
		if self.database is None and not SETUP_RE.match(sql):
			self.error(1046, '3D000', 'No database selected')
			return
		try:
			result = self.session.execute(sql)
		except sqlengine.SQLError as e:
			server.errors.append((e.number, e.message, sql))
			self.error(e.number, e.state, e.message)
			return
		except core.HarnessError as e:
			server.harness_error = server.harness_error or '%s in %s' % (e, sql[:2000])
			self.error(1235, '42000', 'not supported by the simulation')
			return
		if fault and fault.kind == 'drop_after':
			raise Dropped()
		if result[0] == 'ok':
			if fault:
				raise Dropped()
			self.ok(result[1], result[2])
			return
		columns, rows = result[1], result[2]
		data = [self.packet(lenenc(len(columns)))]
		for name, t in columns:
			text = t.kind in ('str', 'enum')
			flags = (256 if t.kind == 'enum' else 0) | (32 if t.unsigned else 0) | (0 if text else 128)
			encoded = name.encode('utf-8')
			data.append(self.packet(
				lenstr(b'def') + lenstr(b'') * 3 + lenstr(encoded) + lenstr(encoded) + b'\x0c'
				+ struct.pack('<HIBHBH', 255 if text else 63, 1024, FIELD[t.kind], flags, t.scale if t.kind == 'decimal' else 0, 0)
			))
		data.append(self.eof())
		kinds = [t.kind for _, t in columns]
		scales = [t.scale for _, t in columns]
		for row in rows:
			data.append(self.packet(b''.join(self.cell(v, k, s) for v, k, s in zip(row, kinds, scales))))
		data.append(self.eof())
		data = b''.join(data)
		if fault:  # drop_rows
			self.sock.sendall(data[:len(data) - 5 - len(data) // 20])
			raise Dropped()
		self.sock.sendall(data)

	@staticmethod
	def cell(value, kind, scale):
		if value is None:
			return b'\xfb'
		if kind == 'decimal' and sqlengine.is_number(value):
			value = sqlengine.quantize(value, scale)
		elif kind == 'year':
			value = '%04d' % value
		return lenstr(sqlengine.text_of(value).encode('utf-8'))


class Server(object):
	"""A context manager; `port` accepts connections until it is left, and leaving it verifies the simulation itself."""
	def __init__(self, seed, user='user', password='secret', host='127.0.0.1', port=0, schema=None, tables=None):
		self.rng = random.Random('mysqld:%s' % seed)
		if tables is None:
			if schema is None:
				with open(SCHEMA, 'rb') as f:
					schema = f.read().decode('utf-8')
			tables = sqlengine.parse_schema(schema)
		self.engine = sqlengine.Engine(tables, seed)
		self.user, self.password, self.database, self.host = user, password, sqlengine.DATABASE, host
		self.connections = []
		self.faults = []
		self.statements = 0
		self.counts = {}
		self.log = []
		self.received = None  # or a list for everything that clients send
		self.errors = []
		self.rejected = []
		self.refuse = None
		self.refused = 0
		self.harness_error = None
		self.runaway = False
		self.on_statement = None
		self.listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
		self.listener.bind((host, port))
		self.listener.listen(16)
		self.port = self.listener.getsockname()[1]

	def __enter__(self):
		self.thread = threading.Thread(target=self.accept)
		self.thread.daemon = True
		self.thread.start()
		return self

	def accept(self):
		while True:
			try:
				sock, _ = self.listener.accept()
			except OSError:
				return
			c = Connection(self, sock, len(self.connections) + 1)
			self.connections.append(c)
			c.thread.start()

	def __exit__(self, exception_type, *_):
		try:
			self.listener.shutdown(socket.SHUT_RDWR)
		except OSError:
			pass
		self.listener.close()
		self.thread.join(5)
		for c in self.connections:
			try:
				c.sock.shutdown(socket.SHUT_RDWR)
			except OSError:
				pass
			c.thread.join(5)
		if self.harness_error:
			raise core.HarnessError(self.harness_error)
		if self.runaway:
			raise core.Violation('the code never stops sending statements', {'last': core.short(self.log[-5:], 2000)})

	def settle(self, expected=0, timeout=4):
		"""Wait until the server has noticed every connection the client closed; those still open."""
		deadline = time.time() + timeout
		while True:
			alive = [c for c in list(self.connections) if not c.ended]
			if len(alive) <= expected or time.time() > deadline:
				return alive
			time.sleep(0.0005)

	def rows(self, table='weather_archive_record'):
		return self.engine.table(table).as_dicts()


@contextlib.contextmanager
def exporter(server, **settings):
	"""A connected exporter, closed at the end."""
	from weatherlink.exporter.mysql import MySQLExporter
	e = MySQLExporter(server.user, server.password, server.database, host=server.host, port=server.port)
	for k, v in settings.items():
		setattr(e, k, v)
	with e:
		yield e


class Cursors(object):
	"""A context manager that watches which cursors the client library hands out and which of them are closed."""
	def __init__(self, on_close=None):
		self.opened = 0
		self.open = []
		self.on_close = on_close  # called with the number of the cursor; may raise

	def __enter__(self):
		import mysql.connector.connection
		classes = [mysql.connector.connection.MySQLConnection]
		try:
			import mysql.connector.connection_cext
			classes.append(mysql.connector.connection_cext.CMySQLConnection)
		except (ImportError, AttributeError):
			pass
		self.patched = []
		for c in classes:
			original = c.__dict__.get('cursor')
			if original is not None:
				self.patched.append((c, original))
				c.cursor = self.wrapper(original)
		if not self.patched:
			raise core.HarnessError('the client library has no cursors to watch')
		return self

	def wrapper(self, original):
		def cursor(connection, *args, **kwargs):
			result = original(connection, *args, **kwargs)
			if sys._getframe(1).f_globals.get('__name__', '').startswith('mysql.'):
				return result  # the library's own
			self.opened += 1
			number = self.opened
			self.open.append(number)
			close = result.close

			def closing():
				if number in self.open:
					self.open.remove(number)
					if self.on_close:
						self.on_close(number, close)
				return close()
			result.close = closing
			return result
		return cursor

	def __exit__(self, *_):
		for c, original in self.patched:
			c.cursor = original


def hang_up(connection):
	"""Take the network away from a connection of the client library."""
	holder = getattr(connection, '_socket', None)
	sock = getattr(holder, 'sock', None) or getattr(holder, '_socket', None)
	if sock is None:
		raise core.HarnessError('the client library hides its socket')
	try:
		sock.shutdown(socket.SHUT_RDWR)
	except OSError:
		pass
	sock.close()

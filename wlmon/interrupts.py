"""
Interruptions at chosen points of input and output.  What is interrupted is the n-th blocking call on a socket or file made
by the calling thread, before the call does anything or when it has just returned: where a signal handler's exception
(Ctrl-C) comes out of a blocking call.
"""
import builtins
import io
import socket
import threading

SOCKET_CALLS = ('connect', 'connect_ex', 'send', 'sendall', 'sendmsg', 'recv', 'recv_into', 'recvfrom', 'recvfrom_into')


class Stop(BaseException):
	"""An interruption no library knows about."""


def exception(rng):
	return rng.choice((KeyboardInterrupt, KeyboardInterrupt, SystemExit, Stop))()


class Points(object):
	"""Counts the points and interrupts at one of them."""
	def __init__(self, at=None, when='before', exception=None):
		self.at, self.when, self.exception = at, when, exception
		self.count = 0
		self.fired = None
		self.thread = threading.current_thread()

	def around(self, name, function, *args, **kwargs):
		if threading.current_thread() is not self.thread:
			return function(*args, **kwargs)
		self.count += 1
		if self.fired is None and self.count == self.at:
			self.fired = name
			if self.when == 'after':
				function(*args, **kwargs)
			raise self.exception
		return function(*args, **kwargs)


class Sockets(Points):
	def __enter__(self):
		self.names = []
		for name in SOCKET_CALLS:
			if name in socket.socket.__dict__ or not hasattr(socket.socket, name):
				continue
			self.wrap(name, getattr(socket.socket, name))
			self.names.append(name)
		return self

	def wrap(self, name, original):
		def call(sock, *args, **kwargs):
			return self.around(name, original, sock, *args, **kwargs)
		setattr(socket.socket, name, call)

	def __exit__(self, *_):
		for name in self.names:
			delattr(socket.socket, name)


class _Raw(io.RawIOBase):
	def __init__(self, points, data):
		self.points, self.data, self.position = points, data, 0

	def readable(self):
		return True

	def readinto(self, buffer):
		return self.points.around('read', self.fill, buffer)

	def fill(self, buffer):
		n = min(len(buffer), len(self.data) - self.position, self.points.piece)
		buffer[:n] = self.data[self.position:self.position + n]
		self.position += n
		return n

	def seekable(self):
		return True

	def seek(self, offset, whence=0):
		self.position = max(0, offset + (0, self.position, len(self.data))[whence])
		return self.position

	def tell(self):
		return self.position


class Body(bytes):
	"""An HTTP answer whose reading is interrupted (see httpsim)."""
	def opened(self):
		return io.BufferedReader(_Raw(self.points, bytes(self)), 64)


def body(data, points, piece):
	result = Body(data)
	result.points = points
	points.piece = piece
	return result


class Files(Points):
	"""Reading one file is interrupted; `open` are the handles of it not closed."""
	def __init__(self, path, piece, *args, **kwargs):
		Points.__init__(self, *args, **kwargs)
		self.path, self.piece = path, piece
		self.handles = []

	def __enter__(self):
		self.original = builtins.open

		def opening(file, mode='r', *args, **kwargs):
			if str(file) != self.path or sorted(mode) != ['b', 'r']:
				return self.original(file, mode, *args, **kwargs)
			with self.original(file, mode) as f:
				data = f.read()
			handle = io.BufferedReader(_Raw(self, data), 64)
			self.handles.append(handle)
			return handle
		builtins.open = io.open = opening
		return self

	def __exit__(self, *_):
		builtins.open = io.open = self.original

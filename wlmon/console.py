"""
A simulated weather console on a real loopback TCP socket.  It records every byte it receives, answers the console
protocol, and misbehaves on request: odd acknowledgments, corrupted data, fragmentation, closing at any byte.
"""
import os
import socket
import struct
import threading
import time

from wlmon import core, wire

ACK = b'\x06'
WAIT = 40.0  # generous: a wait that long is confirmed by the watchdog of the orchestrator, never by load


class Plan(object):
	"""How the console behaves on one connection."""
	def __init__(self, **options):
		self.ack = ACK  # answer to an instruction; b'' closes the connection instead
		self.memory = None  # bytearray for EEBRD / EEBWR
		self.corrupt = None  # function(response) -> response
		self.packets = ()  # what LPS sends
		self.pace = None  # threading.Semaphore: one release lets one packet out
		self.cut = None  # close after so many bytes of the packet stream or response
		self.fragment = None  # random.Random deciding fragment sizes
		self.delay = 0.0
		self.greeting = b''  # sent as soon as the client connects
		self.hang_up = False  # close right after the greeting
		self.reset = False  # every end of the connection on this side resets it
		self.pause = 0.0  # before the answer to an instruction, and before the second packet
		for k, v in options.items():
			setattr(self, k, v)


class Console(object):
	def __init__(self, plans):
		self.plans = list(plans)
		self.connections = 0
		self.closed_by_client = []
		self.received = []  # one bytearray per connection
		self.instructions = []
		self.writes = []
		self.cancelled = threading.Event()
		self.sent_packets = 0
		self.error = None
		self.lock = threading.Lock()
		self.server = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		self.server.bind(('127.0.0.1', 0))
		self.server.listen(8)
		self.port = self.server.getsockname()[1]
		self.stopping = False
		self.done = [threading.Event() for _ in self.plans]
		self.threads = []
		self.acceptor = threading.Thread(target=self._accept, name='wlmon-console')
		self.acceptor.daemon = True
		self.acceptor.start()

	# ---- server side
	def _accept(self):
		while not self.stopping:
			try:
				conn, _ = self.server.accept()
			except OSError:
				return
			if self.stopping:
				conn.close()
				return
			with self.lock:
				index = self.connections
				self.connections += 1
				self.received.append(bytearray())
			plan = self.plans[min(index, len(self.plans) - 1)]
			t = threading.Thread(target=self._serve, args=(conn, plan, index), name='wlmon-console')
			t.daemon = True
			self.threads.append(t)
			t.start()

	def _recv(self, conn, index, n):
		data = conn.recv(n)
		with self.lock:
			self.received[index].extend(data)
		return data

	def _send(self, conn, data, plan):
		if plan.fragment is None:
			conn.sendall(data)
			return
		i = 0
		while i < len(data):
			n = plan.fragment.choice((1, 1, 2, 3, 7, 50, 98, 99, 100, 250))
			conn.sendall(data[i:i + n])
			i += n
			if plan.delay:
				time.sleep(plan.fragment.random() * plan.delay)

	def _serve(self, conn, plan, index):
		reader = None
		try:
			conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
			pending = b''
			if plan.greeting:
				conn.sendall(plan.greeting)
			if plan.hang_up:
				return
			while True:
				while b'\n' not in pending:
					# A bare carriage return wakes the console or cancels LPS
					if pending == b'\r':
						self.cancelled.set()
						pending = b''
					data = self._recv(conn, index, 4096)
					if not data:
						if index < len(self.done):
							self.done[index].set()
						self.closed_by_client.append(index)
						return
					pending += data
				line, _, pending = pending.partition(b'\n')
				line = line.lstrip(b'\r')
				with self.lock:
					self.instructions.append(bytes(line))
				if plan.ack == b'':
					return
				time.sleep(plan.pause)
				conn.sendall(plan.ack)
				if plan.ack[:1] != ACK:
					continue
				words = line.split(b' ')
				if words[0] == b'EEBRD':
					address, length = int(words[1], 16), int(words[2], 16)
					response = wire.with_crc(bytes(plan.memory[address:address + length]))
					time.sleep(plan.pause)
					if plan.corrupt:
						response = plan.corrupt(response)
					if plan.cut is not None:
						self._send(conn, response[:plan.cut], plan)
						return
					self._send(conn, response, plan)
				elif words[0] == b'EEBWR':
					address, length = int(words[1], 16), int(words[2], 16)
					while len(pending) < length + 2:
						data = self._recv(conn, index, 4096)
						if not data:
							self.closed_by_client.append(index)
							return
						pending += data
					body, pending = pending[:length + 2], pending[length + 2:]
					self.writes.append((address, length, bytes(body)))
					if wire.fast_crc(body) == 0:
						plan.memory[address:address + length] = body[:length]
				elif words[0] == b'LPS':
					budget = plan.cut
					cancelled = False
					for i, packet in enumerate(plan.packets[:int(words[2])]):
						if i == 1:
							time.sleep(plan.pause)
						if plan.pace is not None:
							while not plan.pace.acquire(timeout=0.002):
								conn.setblocking(False)
								try:
									data = self._recv(conn, index, 4096)
								except (BlockingIOError, OSError):
									data = None
								finally:
									conn.setblocking(True)
								if data == b'':
									self.closed_by_client.append(index)
									return
								if data and b'\r' in data:
									cancelled = True
									self.cancelled.set()
									break
								if self.stopping:
									return
							if cancelled:
								break
						if budget is not None:
							self._send(conn, packet[:budget], plan)
							budget -= len(packet)
							if budget <= 0:
								return
						else:
							self._send(conn, packet, plan)
						self.sent_packets += 1
		except (OSError, ValueError, IndexError) as e:
			self.error = e
		except Exception as e:  # a bug of the simulator
			self.error = core.HarnessError('console: %r' % e)
		finally:
			try:
				if plan.reset:
					conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
				conn.close()
			except OSError:
				pass
			if index < len(self.done):
				self.done[index].set()

	# ---- test side
	def transcript(self, index=0):
		with self.lock:
			return bytes(self.received[index]) if index < len(self.received) else b''

	def wait_closed(self, index=0, timeout=WAIT):
		return self.done[index].wait(timeout)

	def close(self):
		self.stopping = True
		try:
			self.server.shutdown(socket.SHUT_RDWR)
		except OSError:
			pass
		try:
			self.server.close()
		except OSError:
			pass
		self.acceptor.join(WAIT)
		for t in self.threads:
			t.join(WAIT)

	def __enter__(self):
		return self

	def __exit__(self, *_):
		self.close()


def poller(port):
	from weatherlink.poller import IPPoller
	return IPPoller('127.0.0.1', port)


def wait_until(condition, timeout=WAIT):
	deadline = time.time() + timeout
	while not condition():
		if time.time() > deadline:
			return False
		time.sleep(0.001)
	return True


def open_descriptors():
	return len(os.listdir('/proc/self/fd'))

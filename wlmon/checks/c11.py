"""Connection lifecycle: one connection at a time, always released, the first error wins."""
import gc
import socket

from wlmon import console, core, wire


class Boom(Exception):
	pass


class CHECK(core.Check):
	id = 'C11'
	rule = (
		'Random sequences of connect, disconnect, use, context-manager use with and without a failing body, refused '
		'connections and failing closes, against a model of the connection state; the console end observes every close '
		'and descriptors are counted. Non-trivial: a distinct sequence.'
	)
	required = ('connected', 'interrupted', 'reset_by_console', 'double_connect_refused', 'double_disconnect_refused', 'refused_connection', 'body_error_kept',
				'close_seen_by_console', 'close_error_raised', 'operation_failed', 'closed_after_error', 'refused_and_close_failed')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'sequence', 160, 1600):
			yield c
		for c in self.seeded(tier, seed, 'closing', 24, 100):
			yield c
		for c in self.seeded(tier, seed, 'reset', 24, 200):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		if case['kind'] == 'closing':
			return self.closing(rng, memory, m)
		if case['kind'] == 'reset':
			return self.reset(rng, memory, m)
		steps = [rng.choice(('connect', 'disconnect', 'read', 'with', 'with error', 'refused', 'poll', 'fail', 'connect', 'disconnect')) for _ in range(rng.randint(4, 14))]
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(3)]
		gc.collect()
		plans = [console.Plan(memory=memory, packets=packets) for _ in range(40)]
		for i, plan in enumerate(plans):
			plan.bad = rng.random() < 0.3
			if plan.bad:
				plan.packets = [packets[0], b'x' * 99, packets[1]]
				plan.corrupt = lambda response: response[:-1] + bytes(bytearray([response[-1] ^ 1]))
		with console.Console(plans) as server:
			# A port nobody listens on
			closed = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
			closed.bind(('127.0.0.1', 0))
			poller = console.poller(server.port)
			connected = False
			count = 0
			errors = []
			gc.collect()
			baseline = None
			for step in steps:
				if step == 'connect':
					outcome = m.call(poller.connect)
					if connected:
						m.check(isinstance(outcome.exception, ValueError), 'connecting twice was not refused', outcome=outcome)
						m.event('double_connect_refused')
					else:
						m.check(outcome.ok, 'connecting failed', outcome=outcome, steps=steps)
						connected, count = True, count + 1
						m.event('connected')
				elif step == 'disconnect':
					outcome = m.call(poller.disconnect)
					if connected:
						m.check(outcome.ok, 'disconnecting failed', outcome=outcome, steps=steps)
						connected = False
						m.check(server.wait_closed(count - 1), 'the console never saw the connection close', steps=steps)
						m.event('close_seen_by_console')
					else:
						m.check(isinstance(outcome.exception, ValueError), 'disconnecting twice was not refused', outcome=outcome)
						m.event('double_disconnect_refused')
				elif step in ('read', 'poll', 'fail'):
					if not connected:
						continue
					bad = plans[count - 1].bad
					if step == 'poll':
						if bad:
							outcome = m.call(poller.poll, 2)
							m.check(not outcome.ok, 'a broken stream accepted', outcome=outcome)
							m.event('operation_failed')
							errors.append(outcome.exception)  # as a program that reports it later does
							# What the console sent is in an unknown state
							m.returns('disconnecting after an error', poller.disconnect)
							connected = False
							m.check(server.wait_closed(count - 1), 'the console never saw the connection close', steps=steps)
							m.event('closed_after_error')
							continue
						got = m.returns('polling', poller.poll, 2)
						m.equal(len(got), 2, 'packets polled')
					else:
						outcome = m.call(poller.read_config_setting, '10', '04')
						if bad:
							m.check(not outcome.ok, 'corrupted data accepted', outcome=outcome)
							m.event('operation_failed')
						else:
							m.check(outcome.ok, 'reading failed', outcome=outcome, steps=steps)
				elif step in ('with', 'with error'):
					if connected:
						outcome = m.call(self.enter, poller, None)
						m.check(isinstance(outcome.exception, ValueError), 'connecting twice was not refused', outcome=outcome)
						# The failed entry must not have dropped the connection in use
						if not plans[count - 1].bad:
							m.returns('the connection in use was lost', poller.read_config_setting, '10', '04')
						continue
					error = Boom('body') if step == 'with error' else None
					broken = error and plans[count].bad
					outcome = m.call(self.enter, poller, error, broken)
					count += 1
					if broken:
						m.check(outcome.exception is not error and not outcome.ok, 'a broken stream accepted', outcome=outcome)
						errors.append(outcome.exception)
						error = outcome.exception
						m.event('closed_after_error')
					if error:
						m.check(outcome.exception is error, 'the error of the body was lost', outcome=outcome)
						m.event('body_error_kept')
					else:
						m.check(outcome.ok, 'the context manager failed', outcome=outcome)
					m.check(server.wait_closed(count - 1), 'the console never saw the connection close', steps=steps)
					m.event('close_seen_by_console')
				elif step == 'refused':
					other = console.poller(closed.getsockname()[1])
					before = console.open_descriptors()
					for _ in range(3):
						outcome = m.call(other.connect)
						m.check(isinstance(outcome.exception, (IOError, OSError)), 'a refused connection was not reported', outcome=outcome)
						m.check(isinstance(m.call(other.disconnect).exception, ValueError), 'a failed connection counts as connected')
						m.event('refused_connection')
					if not any(t.is_alive() for t in server.threads) and not connected:
						gc.collect()
						m.check(console.open_descriptors() <= before, 'a failed connection leaked a descriptor')
					# The same communicator connects once the console is back
					other.port = server.port
					m.returns('connecting after a refusal', other.connect)
					m.returns('disconnecting', other.disconnect)
					count += 1
					if connected:
						# The connections were numbered in the order they were made; the one in use is not the last any more
						m.returns('disconnecting', poller.disconnect)
						connected = False
					m.check(server.wait_closed(count - 1), 'the console never saw the connection close')
			if connected:
				m.returns('disconnecting', poller.disconnect)
			closed.close()
			m.check(console.wait_until(lambda: server.connections == count), 'connections made', got=server.connections, expected=count)
			for i in range(count):
				m.check(server.wait_closed(i), 'the console never saw a connection close', connection=i, steps=steps)
			if isinstance(server.error, core.HarnessError):
				raise server.error
		m.nontrivial(tuple(steps))
		m.sample({'steps': steps})

	@staticmethod
	def unused():
		with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
			s.bind(('127.0.0.1', 0))
			return s.getsockname()[1]

	@staticmethod
	def enter(communicator, error, broken=False):
		with communicator:
			if broken:
				communicator.poll(2)
			if error:
				raise error

	def reset(self, rng, memory, m):
		"""The console resets connections: disconnecting works all the same, and leaves nothing open."""
		plans = []
		for i in range(rng.randint(3, 6)):
			how = rng.choice(('idle', 'unread', 'answer', 'fine'))
			plan = console.Plan(memory=memory, packets=[], reset=how != 'fine')
			if how in ('idle', 'unread'):
				plan.hang_up, plan.greeting = True, b'' if how == 'idle' else b'noise'
			elif how == 'answer':
				plan.ack = b''
			plan.how = how
			plans.append(plan)
		with console.Console(plans) as server:
			poller = console.poller(server.port)
			sockets = []
			original = socket.socket

			class Followed(original):
				def __init__(self, *args, **kwargs):
					original.__init__(self, *args, **kwargs)
					if 'fileno' not in kwargs:  # not accepted by the console
						sockets.append(self)
			socket.socket = Followed
			try:
				for i, plan in enumerate(plans):
					del sockets[:]
					with_context = rng.random() < 0.5
					operate = plan.how == 'answer' or rng.random() < 0.5
					error = Boom('body') if rng.random() < 0.5 else None

					def work():
						if plan.how in ('idle', 'unread'):
							server.wait_closed(i)
						outcome = m.call(poller.read_config_setting, '10', '04') if operate else None
						if outcome is not None:
							m.equal(outcome.ok, plan.how == 'fine', 'reading a setting worked')
						return outcome
					if with_context:
						raised = None
						failure = None
						try:
							with poller:
								outcome = work()
								failure = outcome.exception if outcome is not None and not outcome.ok else error
								if failure is not None:
									raise failure
						except Exception as e:
							raised = e
						m.check(raised is failure, 'leaving the context after a reset', raised=raised, expected=failure)
					else:
						m.returns('connecting', poller.connect)
						work()
						m.returns('disconnecting from a console that reset the connection', poller.disconnect)
					m.check(isinstance(m.call(poller.disconnect).exception, ValueError), 'still connected')
					m.check(server.wait_closed(i), 'the console never saw the connection close')
					m.check(all(s.fileno() == -1 for s in sockets), 'a socket was left open', how=plan.how)
					if plan.how != 'fine':
						m.event('reset_by_console')
			finally:
				socket.socket = original
			if isinstance(server.error, core.HarnessError):
				raise server.error
		m.nontrivial(('reset', rng.random()))

	def closing(self, rng, memory, m):
		"""Closing the connection fails: reported, unless another error is already on its way; never left connected."""
		original = socket.socket
		armed = []
		interrupted = []
		handles = []

		class FailingSocket(original):
			def close(self):
				original.close(self)
				if armed:
					raise IOError('close failed')

			def connect(self, address):
				if interrupted:
					raise interrupted[0]
				return original.connect(self, address)

			def makefile(self, *args, **kwargs):
				handle = original.makefile(self, *args, **kwargs)
				if not handles:
					return handle
				close = handle.close

				class Handle(object):
					def __getattr__(self, name):
						return getattr(handle, name)

					def close(self):
						close()
						handles.append('closed')
						raise handles[0]
				handles.append('opened')
				return Handle()

		standard = socket.create_connection

		def create_connection(*args, **kwargs):
			# What the standard library does about a socket it made and cannot close is not the poller's doing
			closing, armed[:] = armed[:], []
			try:
				return standard(*args, **kwargs)
			finally:
				armed[:] = closing

		plans = [console.Plan(memory=memory, packets=[b'x' * 99]) for _ in range(8)]
		with console.Console(plans) as server:
			poller = console.poller(server.port)
			socket.socket = FailingSocket
			socket.create_connection = create_connection
			try:
				for error in (None, Boom('body'), KeyboardInterrupt('body'), None):
					armed[:] = []
					entered = []

					def body():
						with poller:
							entered.append(1)
							armed.append(1)
							if error:
								raise error
					try:
						body()
						raised = None
					except BaseException as e:
						raised = e
					armed[:] = []
					m.check(entered, 'the context manager did not connect', raised=raised)
					if error is not None:
						m.check(raised is error, 'the error of the body was replaced', raised=raised)
						m.event('body_error_kept')
					else:
						m.check(isinstance(raised, IOError), 'a failure to close was hidden', raised=raised)
						m.event('close_error_raised')
					m.check(isinstance(m.call(poller.disconnect).exception, ValueError), 'still connected after a failed close')
				# A connection that is refused, and then cannot be closed either
				port, poller.port = poller.port, self.unused()
				armed.append(1)
				outcome = m.call(poller.connect)
				armed[:] = []
				m.check(isinstance(outcome.exception, ConnectionRefusedError), 'the error of a refused connection was replaced', outcome=outcome)
				m.check(isinstance(m.call(poller.disconnect).exception, ValueError), 'connected after a refused connection')
				poller.port = port
				m.event('refused_and_close_failed')
				# A connection that is interrupted while it is being made
				for interruption in (KeyboardInterrupt('connect'), SystemExit('connect')):
					interrupted.append(interruption)
					try:
						poller.connect()
						raised = None
					except BaseException as e:
						raised = e
					interrupted[:] = []
					m.check(raised is interruption, 'the interruption of connecting was replaced', raised=raised)
					m.check(isinstance(m.call(poller.disconnect).exception, ValueError), 'connected after connecting was interrupted')
					m.event('interrupted')
				# A file handle that cannot be closed, if one is used
				m.returns('connecting', poller.connect)
				failure = IOError('handle')
				handles.append(failure)
				outcome = m.call(poller.read_config_setting, '10', '04')
				if len(handles) > 1:
					m.check(outcome.exception is failure, 'a failure to close the file handle was hidden', outcome=outcome, handles=handles)
					m.equal(handles[1:], ['opened', 'closed'], 'the life of a file handle')
					handles[1:] = []
					outcome = m.call(poller.poll, 1)
					m.check(not outcome.ok and outcome.exception is not failure, 'the error of a broken stream was replaced', outcome=outcome)
					m.equal(handles[1:], ['opened', 'closed'], 'the life of a file handle')
					m.event('handle_close_failed')
				handles[:] = []
				m.returns('disconnecting', poller.disconnect)
			finally:
				socket.socket = original
				socket.create_connection = standard
			m.returns('connecting after a failed close', poller.connect)
			m.returns('disconnecting', poller.disconnect)
		m.nontrivial(('closing', rng.random()))

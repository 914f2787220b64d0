"""Acknowledgments: only ACK lets an instruction proceed; every other answer is reported as what it is."""
import random

from wlmon import console, core, wire


class CHECK(core.Check):
	id = 'C08'
	level = 'fault_enumeration'
	rule = (
		'Every one of the 256 answers, and a closed connection, to each kind of instruction (setting read, setting write, '
		'poll, background poll, bare acknowledgment), against a TCP console that records what it is sent. Non-trivial: '
		'a distinct (operation, answer).'
	)
	required = ('acknowledged', 'refused_nak', 'refused_invalid', 'refused_closed')
	exhaustive = True

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'raw', 8, 80):
			yield c
		for operation in ('read', 'write', 'poll', 'background', 'bare'):
			for lo in range(0, 256, 16):
				yield {'kind': operation, 'lo': lo, 'hi': lo + 16, 'seed': seed}
			yield {'kind': operation, 'lo': None, 'hi': None, 'seed': seed}

	def raw(self, case, m):
		"""Reading up to a number of bytes, as the interface for communicators documents it."""
		rng = core.rng_for('C08', case['seed'], 'raw')
		data = bytes(bytearray(rng.randrange(256) for _ in range(rng.randint(20, 400))))
		plan = console.Plan(ack=console.ACK, memory=bytearray(4096), packets=[])
		plan.greeting = data
		with console.Console([plan]) as server:
			poller = console.poller(server.port)
			poller.connect()
			read = getattr(poller, '_read_data', None)
			got, longest = b'', 0
			while read and len(got) < len(data):
				n = min(rng.choice((1, 2, 7, 64)), len(data) - len(got))
				piece = m.returns('reading data', read, n)
				m.check(0 < len(piece) <= n, 'reading took more than it was asked for', asked=n, got=piece)
				longest = max(longest, len(piece))
				got += piece
			if read:
				m.equal(got, data, 'data read')
				m.check(longest > 1, 'reading never takes more than one byte', asked_for=64)
				m.event('raw_read')
			m.call(poller.disconnect)
		m.nontrivial(data)

	def run(self, case, m):
		if case['kind'] == 'raw':
			return self.raw(case, m)
		answers = [b''] if case['lo'] is None else [bytes(bytearray([i])) for i in range(case['lo'], case['hi'])]
		for answer in answers:
			self.one(case, answer, m)

	def one(self, case, answer, m):
		from weatherlink import serial
		rng = core.rng_for('C08', case['seed'], case['kind'], answer)
		raw = wire.random_raw(wire.LOOP2, rng)
		packet = wire.encode_loop2(raw, 0, rng)
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		before = bytes(memory)
		callbacks = []
		plan = console.Plan(ack=answer, memory=memory, packets=[packet, packet])
		if case['kind'] == 'bare':
			plan.greeting = answer + console.ACK if answer else b''
			plan.hang_up = not answer
		with console.Console([plan]) as server:
			poller = console.poller(server.port)
			poller.connect()
			try:
				if case['kind'] == 'read':
					outcome = m.call(poller.read_config_setting, '2B', '04')
				elif case['kind'] == 'write':
					outcome = m.call(poller.write_config_setting, '2B', '02', b'\x55\xAA')
				elif case['kind'] == 'poll':
					outcome = m.call(poller.poll, 1)
				elif case['kind'] == 'background':
					outcome = m.call(poller.start_background_polling, 1, callbacks.append)
				else:
					outcome = m.call(poller.confirm_ack)
					if answer:
						second = m.call(poller.confirm_ack)
						m.check(second.ok, 'confirming took more than its own byte', answer=answer, outcome=second)
				if answer == console.ACK:
					m.check(outcome.ok, 'an acknowledged instruction failed', outcome=outcome, operation=case['kind'])
					if case['kind'] == 'background':
						m.check(console.wait_until(lambda: len(callbacks) == 1), 'an acknowledged poll delivered nothing')
					m.event('acknowledged')
				else:
					e = outcome.exception
					m.check(e is not None, 'an instruction that was not acknowledged proceeded', answer=answer, operation=case['kind'], outcome=outcome)
					m.check(isinstance(e, serial.AcknowledgmentError), 'a failed acknowledgment is not reported as one', answer=answer, outcome=outcome)
					if answer in (b'\x15', b'!'):
						m.check(isinstance(e, serial.NotAcknowledgedError), 'a refusal is not reported as one', answer=answer, outcome=outcome)
						m.event('refused_nak')
					elif answer:
						m.check(isinstance(e, serial.InvalidAcknowledgementError), 'an invalid answer is not reported as one', answer=answer, outcome=outcome)
						m.event('refused_invalid')
					else:
						m.event('refused_closed')
			finally:
				m.call(poller.disconnect)
			server.wait_closed()
			if isinstance(server.error, core.HarnessError):
				raise server.error
			if answer != console.ACK:
				sent = server.transcript()
				m.check(sent.endswith(b'\n') and sent.count(b'\n') == 1 if case['kind'] != 'bare' else sent == b'', 'data followed an instruction that was not acknowledged', sent=sent)
				m.equal(bytes(memory), before, 'the console memory changed without an acknowledgment')
				m.equal(callbacks, [], 'packets delivered without an acknowledgment')
		m.nontrivial((case['kind'], answer))
		m.seen('answer', answer)
		m.sample({'operation': case['kind'], 'answer': repr(answer)})

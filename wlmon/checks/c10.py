"""Writing console settings: the announced bytes and their CRC, exactly, or nothing at all."""
import socket

from wlmon import console, core, wire


class CHECK(core.Check):
	id = 'C10'
	rule = (
		'Random writes to a 4 KB console memory over TCP that applies a write only if its CRC is right; writes whose '
		'length does not match; refused writes; read-back over a new connection. Non-trivial: a distinct (address, value).'
	)
	required = ('setting_written', 'mismatch_refused', 'refused_write_sent_nothing', 'read_back')
	assumptions = ('The console sends no acknowledgment after the data of a write.',)

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'write', 120, 1500):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		length = rng.choice((1, 2, 16, 43, 255, rng.randrange(1, 512)))
		address = rng.randrange(4096 - length)
		style = rng.choice(('%X', '%02X', '%03x'))
		texts = (style % address, style % length)
		value = bytes(bytearray(rng.choice((0, 255, rng.randrange(256))) for _ in range(length)))
		model = bytearray(memory)
		plans = [console.Plan(memory=memory), console.Plan(memory=memory), console.Plan(memory=memory, ack=rng.choice((b'\x15', b'!', b'\x00', b'')))]
		original = socket.socket
		part = rng.choice((1, 2, 7, 64))

		class Crowded(original):
			def send(self, data, *args):
				m.event('sent_in_parts')
				return original.send(self, bytes(data)[:part], *args)
		with console.Console(plans) as server:
			if rng.random() < 0.5:
				# The buffers of the system are full: send() takes what fits
				socket.socket = Crowded
			try:
				self.write(m, rng, server, memory, model, texts, address, length, value)
			finally:
				socket.socket = original
		m.nontrivial((address, value))
		m.sample({'address': texts[0], 'length': texts[1]})

	def write(self, m, rng, server, memory, model, texts, address, length, value):
		poller = console.poller(server.port)
		poller.connect()
		wrong = value + b'\x00' * rng.randint(1, 3) if rng.random() < 0.5 else value[:-1]
		outcome = m.call(poller.write_config_setting, texts[0], texts[1], wrong)
		m.check(isinstance(outcome.exception, ValueError), 'a value of the wrong length was not refused', outcome=outcome)
		m.event('mismatch_refused')
		m.returns('writing a setting', poller.write_config_setting, texts[0], texts[1], value)
		m.returns('disconnecting', poller.disconnect)
		m.check(server.wait_closed(0), 'the connection was not closed')
		self.harness(server)
		model[address:address + length] = value
		want = ('EEBWR %s %s\n' % texts).encode('ascii') + wire.with_crc(value)
		m.equal(server.transcript(0), want, 'what was sent to the console')
		m.equal(bytes(memory), bytes(model), 'console memory after the write')
		m.equal(len(server.writes), 1, 'number of writes')
		m.event('setting_written')

		poller.connect()
		got = m.returns('reading back', poller.read_config_setting, texts[0], texts[1])
		m.equal(got, value, 'setting read back')
		m.event('read_back')
		m.returns('disconnecting', poller.disconnect)

		poller.connect()
		other = bytes(bytearray(b ^ 0x5A for b in bytearray(value)))
		outcome = m.call(poller.write_config_setting, texts[0], texts[1], other)
		m.check(not outcome.ok, 'a refused write succeeded', outcome=outcome)
		m.call(poller.disconnect)
		server.wait_closed(2)
		m.equal(server.transcript(2), ('EEBWR %s %s\n' % texts).encode('ascii'), 'what followed a refused write')
		m.equal(bytes(memory), bytes(model), 'console memory after a refused write')
		m.event('refused_write_sent_nothing')
		self.harness(server)

	def harness(self, server):
		if isinstance(server.error, core.HarnessError):
			raise server.error

"""Reading console settings: the right bytes or an error, never corrupted or truncated data."""
from wlmon import console, core, wire


class CHECK(core.Check):
	id = 'C09'
	rule = (
		'Random reads of a 4 KB console memory over TCP with random fragmentation; replies with bit errors, bursts, '
		'swapped bytes, and cut at every possible byte. Several reads share a connection. Non-trivial: a distinct '
		'(address, length, reply).'
	)
	required = ('setting_read', 'corruption_refused', 'truncation_refused', 'setup_bits_read', 'fragmented')
	assumptions = ('The console answers an instruction with ACK, data and CRC and sends nothing unasked in between.',)

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'clean', 60, 600):
			yield c
		for c in self.seeded(tier, seed, 'corrupt', 40, 400):
			yield c
		for c in self.seeded(tier, seed, 'cut', 24, 200):
			yield c
		for c in self.seeded(tier, seed, 'bits', 16, 64):
			yield c

	def run(self, case, m):
		from weatherlink import serial
		rng = core.rng_for(case['seed'])
		memory = bytearray(rng.randrange(256) for _ in range(4096))
		if rng.random() < 0.2:
			memory = bytearray(4096)  # all zero: the CRC of any part of it is zero, too
		length = rng.choice((1, 2, 4, 16, 0x2B, 255, rng.randrange(1, 512)))
		address = rng.randrange(4096 - length)
		plan = console.Plan(memory=memory, fragment=rng if rng.random() < 0.7 else None, delay=0.0005)
		a, n = rng.choice((('%X', '%X'), ('%02X', '%02X'), ('%03x', '%02x')))
		address_text, length_text = a % address, n % length
		want = bytes(memory[address:address + length])
		kind = case['kind']
		if kind == 'clean':
			with console.Console([plan]) as server:
				poller = console.poller(server.port)
				poller.connect()
				expected = b''
				for _ in range(rng.choice((1, 1, 3))):
					confirm = rng.random() < 0.8
					return_crc = rng.random() < 0.3
					got = m.returns('reading a setting', poller.read_config_setting, address_text, length_text, confirm_crc=confirm, return_crc=return_crc)
					m.check(isinstance(got, bytes), 'a setting is not bytes', got=got)
					m.equal(got, wire.with_crc(want) if return_crc else want, 'setting', address=address_text, length=length_text)
					expected += ('EEBRD %s %s\n' % (address_text, length_text)).encode('ascii')
					m.event('setting_read')
					if plan.fragment:
						m.event('fragmented')
				m.returns('disconnecting', poller.disconnect)
				m.check(server.wait_closed(), 'the connection was not closed')
				m.equal(server.transcript(), expected, 'what was sent to the console')
				self.harness(server)
			m.nontrivial((address, want))
			m.sample({'address': address_text, 'length': length_text})
		elif kind == 'corrupt':
			def corrupt(response):
				data = bytearray(response)
				how = rng.choice(('bit', 'byte', 'burst', 'crc'))
				bits = len(data) * 8
				if how == 'bit':
					i = rng.randrange(bits)
					data[i // 8] ^= 1 << (i % 8)
				elif how == 'byte':
					data[rng.randrange(len(data))] ^= rng.randrange(1, 256)
				elif how == 'burst':
					i = rng.randrange(len(data) - 1)
					data[i] ^= rng.randrange(1, 256)
					data[i + 1] ^= rng.randrange(256)
				else:
					data[-1] ^= rng.randrange(1, 256)
				replies.append(bytes(data))
				return bytes(data)
			replies = []
			plan.corrupt = corrupt
			with console.Console([plan]) as server:
				poller = console.poller(server.port)
				poller.connect()
				for _ in range(3):
					outcome = m.call(poller.read_config_setting, address_text, length_text)
					m.check(isinstance(outcome.exception, serial.CRCValidationError), 'a corrupted setting was not reported as corrupted',
							outcome=outcome, reply=replies[-1])
					m.event('corruption_refused')
					m.nontrivial((address, replies[-1]))
					outcome = m.call(poller.read_config_setting, address_text, length_text, return_crc=True)
					m.check(isinstance(outcome.exception, serial.CRCValidationError), 'a corrupted setting was returned with its CRC',
							outcome=outcome, reply=replies[-1])
					unchecked = m.returns('an unchecked read', poller.read_config_setting, address_text, length_text, confirm_crc=False)
					m.equal(unchecked, replies[-1][:-2], 'unchecked setting')
				m.call(poller.disconnect)
				self.harness(server)
		elif kind == 'cut':
			total = length + 2
			for cut in sorted({0, 1, 2, total - 1, total - 2, rng.randrange(total)}):
				if not 0 <= cut < total:
					continue
				p = console.Plan(memory=memory, fragment=plan.fragment, cut=cut)
				with console.Console([p]) as server:
					poller = console.poller(server.port)
					poller.connect()
					outcome = m.call(poller.read_config_setting, address_text, length_text)
					m.check(not outcome.ok, 'a truncated setting was returned', cut=cut, total=total, outcome=outcome)
					m.event('truncation_refused')
					m.call(poller.disconnect)
					self.harness(server)
				m.nontrivial((address, want, cut))
		else:
			with console.Console([plan]) as server:
				poller = console.poller(server.port)
				poller.connect()
				for value in rng.sample(range(256), 24):
					memory[0x2B] = value
					mask = rng.choice((0x30, 0x01, 0xFF, 0x80, rng.randrange(256)))
					m.equal(m.returns('reading a setup bit', poller.read_setup_bit, mask), value & mask, 'setup bits', value=value, mask=mask)
					m.equal(m.returns('reading the rain collector type', poller.read_rain_collector_type), value & 0x30, 'rain collector type', value=value)
					m.event('setup_bits_read')
					m.nontrivial((value, mask))
				m.call(poller.disconnect)
				self.harness(server)

	def harness(self, server):
		if isinstance(server.error, core.HarnessError):
			raise server.error

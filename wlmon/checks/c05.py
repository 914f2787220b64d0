"""The CRC: standard values, appended CRC cancels, corruption is detected."""
import struct

from wlmon import core, wire


class CHECK(core.Check):
	id = 'C05'
	rule = (
		'Random, boundary and structured byte strings of length 0 to 600, some to 70000, against a bit-by-bit '
		'CRC-16/XMODEM; every one- and two-byte string; error patterns (every single bit, bursts up to 16 bits, bit '
		'pairs, transpositions) on protected messages. Non-trivial: a distinct message.'
	)
	required = ('value_compared', 'self_check', 'burst_detected', 'bit_detected', 'two_byte_strings', 'long_message')

	def cases(self, tier, seed):
		for high in range(0, 256, 8):
			yield {'kind': 'two', 'lo': high, 'hi': high + 8, 'seed': seed}
		for c in self.seeded(tier, seed, 'random', 80, 800):
			yield c
		for c in self.seeded(tier, seed, 'errors', 40, 400):
			yield c

	def run(self, case, m):
		from weatherlink.models import calculate_weatherlink_crc as crc
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'two':
			if not case['lo']:
				m.equal(crc(b''), 0, 'CRC of no data')
				m.equal(crc(b'123456789'), 0x31C3, 'the standard check value')
			for a in range(case['lo'], case['hi']):
				m.equal(crc(bytes(bytearray([a]))), wire.crc(bytearray([a])), 'CRC of one byte', byte=a)
				for b in range(256):
					data = bytes(bytearray([a, b]))
					m.equal(crc(data), wire.fast_crc(data), 'CRC of two bytes', data=data)
					m.event('two_byte_strings')
				m.nontrivial(bytes(bytearray([a, 0])))
		elif case['kind'] == 'random':
			for _ in range(20):
				n = rng.choice((1, 2, 3, 97, 99, 200, rng.randrange(600)))
				if rng.random() < 0.05:
					n = rng.choice((255, 256, 1023, 4096, 4098, 8192, 65535, 65537, rng.randrange(600, 70000)))
					m.event('long_message')
				fill = rng.choice(('random', 'zeros', 'ones', 'ramp'))
				data = bytes(bytearray(
					rng.randrange(256) if fill == 'random' else 0 if fill == 'zeros' else 255 if fill == 'ones' else i & 255
					for i in range(n)))
				value = crc(data)
				m.check(isinstance(value, int) and 0 <= value <= 0xFFFF, 'the CRC is not a 16-bit number', got=value)
				m.equal(value, wire.crc(data) if n <= 600 else wire.fast_crc(data), 'CRC value', data=data if n <= 600 else n)
				m.event('value_compared')
				m.equal(crc(data + struct.pack('>H', value)), 0, 'a message followed by its CRC', data=data if n <= 600 else n)
				m.event('self_check')
				m.nontrivial(data)
			m.sample({'length': len(data), 'crc': value})
		else:
			n = rng.choice((1, 2, 4, 97, rng.randrange(1, 200)))
			data = wire.with_crc(bytes(bytearray(rng.randrange(256) for _ in range(n))))
			m.equal(crc(data), 0, 'a protected message')
			bits = len(data) * 8
			for bit in range(bits):
				bad = bytearray(data)
				bad[bit // 8] ^= 0x80 >> (bit % 8)
				m.check(crc(bytes(bad)) != 0, 'a single-bit error was not detected', bit=bit, data=data)
				m.event('bit_detected')
			for _ in range(150):
				length = rng.randint(2, min(16, bits))
				at = rng.randrange(bits - length + 1)
				pattern = 1 << (length - 1) | rng.randrange(1 << (length - 1)) | 1
				value = int.from_bytes(data, 'big') ^ (pattern << (bits - at - length))
				m.check(crc(value.to_bytes(len(data), 'big')) != 0, 'a burst error was not detected', at=at, pattern=bin(pattern))
				m.event('burst_detected')
				i, j = rng.sample(range(bits), 2)
				value = int.from_bytes(data, 'big') ^ (1 << i) ^ (1 << j)
				m.check(crc(value.to_bytes(len(data), 'big')) != 0, 'a two-bit error was not detected', bits=(i, j))
			m.nontrivial(data)

"""LOOP2 packets: exact readings, framing enforced, CRC verdict correct."""
import bz2
import io
import os

from wlmon import core, loop2, readings, wire


class CHECK(core.Check):
	id = 'C04'
	rule = (
		'Sweeps of every field, random packets with random filler and good or bad CRCs, every single bit of the framing '
		'flipped, every single bit of a packet flipped for the CRC verdict, truncated packets, several packets in one '
		'stream, and the captured sample. Non-trivial: a distinct packet whose readings were all compared or a distinct '
		'corruption whose handling was judged.'
	)
	required = ('packet_decoded', 'crc_mismatch_reported', 'bad_frame_refused', 'bit_flip_detected', 'truncated_refused', 'captured_packet')

	def cases(self, tier, seed):
		for field in sorted(wire.LOOP2):
			lo, hi = wire.RANGES[wire.LOOP2[field][1]]
			pieces = 8 if hi - lo > 3000 else 1
			size = (hi - lo) // pieces + 1
			for start in range(lo, hi + 1, size):
				yield {'kind': 'sweep', 'field': field, 'lo': start, 'hi': min(hi, start + size - 1),
						'step': 1 if tier == 'thorough' or hi - lo < 300 else 131, 'seed': seed}
		yield {'kind': 'trend', 'seed': seed}
		for degrees in range(0, 400, 50):
			yield {'kind': 'compass', 'lo': degrees, 'hi': degrees + 50, 'seed': seed}
		for c in self.seeded(tier, seed, 'stream', 80, 800):
			yield c
		for c in self.seeded(tier, seed, 'frame', 8, 40):
			yield c
		for c in self.seeded(tier, seed, 'flips', 8, 60):
			yield c
		for c in self.seeded(tier, seed, 'short', 16, 100):
			yield c
		yield {'kind': 'captured', 'seed': seed}

	def load(self, m, stream):
		from weatherlink.models import LoopRecord
		return m.call(LoopRecord.load_loop_2_from_connection, stream)

	def one(self, m, raw, trend, rng, good=True):
		data = wire.encode_loop2(raw, trend, rng, good)
		stream = io.BytesIO(data + b'\x55' * 5)
		outcome = self.load(m, stream)
		m.check(outcome.ok, 'a well-framed packet was refused', outcome=outcome, raw=raw, trend=trend)
		m.check(stream.tell() == wire.LOOP2_LENGTH, 'a packet did not consume exactly its own bytes', got=stream.tell())
		loop2.check_packet(m, outcome.value, raw, trend, good, 'packet')
		m.event('packet_decoded')
		if not good:
			m.event('crc_mismatch_reported')
		m.nontrivial(data)

	def random(self, rng, dash=0.1):
		return wire.random_raw(wire.LOOP2, rng, dash), rng.choice((-60, -20, 0, 20, 60, 80, rng.randint(-128, 127)))

	def run(self, case, m):
		rng = core.rng_for(case['seed'], case['kind'], case.get('field'), case.get('lo'))
		kind = case['kind']
		if kind == 'sweep':
			raw, trend = self.random(rng)
			values = set(range(case['lo'], case['hi'] + 1, case['step'])) | {case['lo'], case['hi']} | set(
				v for v in (-1, 0, 1, 60, 254, 255, 256, 359, 360, 361, 32766, 32767, 32768) if case['lo'] <= v <= case['hi'])
			for value in sorted(values):
				raw = dict(raw)
				raw[case['field']] = value
				self.one(m, raw, trend, rng, rng.random() < 0.9)
				m.seen('swept ' + case['field'], value)
		elif kind == 'compass':
			for degrees in range(case['lo'], case['hi']):
				raw, trend = self.random(rng)
				raw['wind_direction_degrees'] = degrees
				raw['wind_speed_10_minute_gust_direction_degrees'] = (degrees * 7) % 400
				self.one(m, raw, trend, rng)
		elif kind == 'trend':
			for trend in range(-128, 128):
				self.one(m, self.random(rng)[0], trend, rng)
				m.seen('trend', trend)
		elif kind == 'stream':
			packets = [self.random(rng, rng.choice((0, 0.1, 0.6))) + (rng.random() < 0.8, ) for _ in range(10)]
			stream = io.BytesIO(b''.join(wire.encode_loop2(raw, trend, rng, good) for raw, trend, good in packets))
			got = []
			for _ in packets:
				outcome = self.load(m, stream)
				m.check(outcome.ok, 'a well-framed packet was refused', outcome=outcome)
				got.append(outcome.value)
			for (raw, trend, good), record in zip(packets, got):
				loop2.check_packet(m, record, raw, trend, good, 'streamed packet')
				m.event('packet_decoded')
				if not good:
					m.event('crc_mismatch_reported')
			m.nontrivial(case['seed'])
			m.sample({'raw': packets[0][0], 'trend': packets[0][1], 'good_crc': packets[0][2]})
		elif kind == 'frame':
			raw, trend = self.random(rng)
			data = wire.encode_loop2(raw, trend, rng)
			for offset, constant in wire.LOOP2_FRAME.items():
				for i in range(offset, offset + len(constant)):
					for bit in range(8):
						bad = bytearray(data)
						bad[i] ^= 1 << bit
						if rng.random() < 0.5:
							bad = bytearray(wire.with_crc(bytes(bad[:97])))
						outcome = self.load(m, io.BytesIO(bytes(bad)))
						m.check(not outcome.ok, 'a packet with broken framing was accepted', offset=i, bit=bit, outcome=outcome)
						m.event('bad_frame_refused')
						m.seen('frame_bit', i * 8 + bit)
			# A LOOP1 packet and garbage are not LOOP2 packets
			for bad in (data[:4] + b'\x00' + data[5:], b'\x00' + data[:98], data[1:] + b'\x00', bytes(99), b'\xff' * 99):
				m.check(not self.load(m, io.BytesIO(bad)).ok, 'something other than a LOOP2 packet was accepted', data=bad)
				m.event('bad_frame_refused')
			m.nontrivial(data)
		elif kind == 'flips':
			raw, trend = self.random(rng)
			data = wire.encode_loop2(raw, trend, rng)
			frame = set(i for o, c in wire.LOOP2_FRAME.items() for i in range(o, o + len(c)))
			for i in range(len(data)):
				if i in frame:
					continue
				for bit in range(8):
					bad = bytearray(data)
					bad[i] ^= 1 << bit
					outcome = self.load(m, io.BytesIO(bytes(bad)))
					m.check(outcome.ok, 'a well-framed packet with a bad CRC could not be read', outcome=outcome)
					m.check(readings.get(outcome.value, 'crc_match') is False, 'a corrupted packet was reported as intact', offset=i, bit=bit)
					m.event('bit_flip_detected')
			m.nontrivial(data)
		elif kind == 'short':
			raw, trend = self.random(rng)
			data = wire.encode_loop2(raw, trend, rng)
			for length in sorted({0, 1, 3, 97, 98} | {rng.randrange(99) for _ in range(10)}):
				outcome = self.load(m, io.BytesIO(data[:length]))
				m.check(not outcome.ok, 'a truncated packet was accepted', length=length, outcome=outcome)
				m.event('truncated_refused')
			m.nontrivial(data)
		else:
			path = os.path.join(os.environ.get('WLMON_REPO') or '/repo', 'tests', 'data', 'sample-loop2-data.bin')
			with open(path, 'rb') as f:
				data = f.read()
			start = data.index(b'LOO')
			stream = io.BytesIO(data[start:])
			count = (len(data) - start) // wire.LOOP2_LENGTH
			for i in range(count):
				packet = data[start + i * 99:start + i * 99 + 99]
				outcome = self.load(m, stream)
				m.check(outcome.ok, 'a captured packet was refused', outcome=outcome)
				raw = {}
				import struct
				for name, (offset, code, _, _) in wire.LOOP2.items():
					raw[name] = struct.unpack_from('<' + code, packet, offset)[0]
				loop2.check_packet(m, outcome.value, raw, struct.unpack_from('<b', packet, 3)[0], wire.crc(packet) == 0, 'captured packet')
				m.check(wire.crc(packet) == 0 and outcome.value['crc_match'] is True, 'a captured packet is not intact')
				m.event('captured_packet')
			m.nontrivial('captured')

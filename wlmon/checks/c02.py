"""Downloaded archive records: every reading is decoded to exactly what its bytes stand for."""
import io
import struct
from fractions import Fraction

from wlmon import core, readings, wire


def expected_download(raw, date, minutes):
	expected = wire.decode_fields(wire.DOWNLOAD, raw)
	expected['rain_amount'] = Fraction(raw['rain_amount_clicks'], 100)
	expected['rain_rate'] = Fraction(raw['rain_rate_clicks'], 100)
	expected['wind_direction_prevailing_degrees'] = wire.degrees_of(expected['wind_direction_prevailing'])
	expected['wind_direction_speed_high_degrees'] = wire.degrees_of(expected['wind_direction_speed_high'])
	expected['date'] = date
	expected['timestamp'] = wire.timestamp_of(date)
	expected['minutes_covered'] = minutes
	return expected


class CHECK(core.Check):
	id = 'C02'
	rule = (
		'Sweeps: one 16- or 8-bit field takes a range of its raw values (boundaries and a stride in quick, every value in '
		'thorough) while the other fields are random; streams: random records with random filler bytes, read one after '
		'another from one stream; malformed: wrong type, undefined direction, bad date, short data. Non-trivial: a '
		'distinct record whose readings were all compared, or a distinct malformed record.'
	)
	required = ('record_decoded', 'reading_missing', 'malformed_refused', 'undated_ignored')

	def cases(self, tier, seed):
		for field in sorted(wire.DOWNLOAD):
			lo, hi = wire.RANGES[wire.DOWNLOAD[field][1]]
			if wire.DOWNLOAD[field][2] is wire.compass:
				hi = 15
			size = 4096 if hi - lo > 4096 else 256
			for start in range(lo, hi + 1, size):
				yield {'kind': 'sweep', 'field': field, 'lo': start, 'hi': min(hi, start + size - 1),
						'step': 1 if tier == 'thorough' or hi - lo < 300 else 61, 'seed': seed}
		for c in self.seeded(tier, seed, 'stream', 120, 1500):
			yield c
		for c in self.seeded(tier, seed, 'malformed', 40, 400):
			yield c

	def decode(self, m, stream, minutes):
		from weatherlink.models import ArchiveIntervalRecord
		return m.call(ArchiveIntervalRecord.load_from_download, stream, minutes)

	def one(self, m, raw, date, minutes, rng):
		data = wire.encode_download(raw, date, rng)
		stream = io.BytesIO(data + b'\xAA' * 7)
		outcome = self.decode(m, stream, minutes)
		m.check(outcome.ok and outcome.value is not None, 'a valid record was not decoded', outcome=outcome, raw=raw, date=date)
		m.check(stream.tell() == len(data), 'a record did not consume exactly its own bytes', position=stream.tell())
		expected = expected_download(raw, date, minutes)
		readings.check_readings(m, outcome.value, expected, 'downloaded record', raw=raw)
		m.event('record_decoded')
		m.event('reading_missing', sum(1 for v in expected.values() if v is None))
		m.nontrivial(data)
		return outcome.value

	def run(self, case, m):
		rng = core.rng_for(case['seed'], case.get('field'), case.get('lo'))
		if case['kind'] == 'sweep':
			values = set(range(case['lo'], case['hi'] + 1, case['step'])) | {case['lo'], case['hi']}
			for v in (-32768, -1, 0, 1, 254, 255, 256, 32766, 32767, 32768):
				if case['lo'] <= v <= case['hi']:
					values.add(v)
			base = wire.random_raw(wire.DOWNLOAD, rng)
			date, minutes = wire.random_date(rng), rng.choice((1, 5, 10, 15, 30, 60, 120))
			for value in sorted(values):
				raw = dict(base)
				raw[case['field']] = value
				self.one(m, raw, date, minutes, rng)
				m.seen('swept ' + case['field'], value)
		elif case['kind'] == 'stream':
			items = []
			for _ in range(20):
				raw = wire.random_raw(wire.DOWNLOAD, rng, dash_probability=rng.choice((0, 0.1, 0.6)))
				items.append((raw, wire.random_date(rng)))
			minutes = rng.choice((1, 5, 10, 15, 30, 60, 120))
			stream = io.BytesIO(b''.join(wire.encode_download(r, d, rng) for r, d in items))
			seen = []
			for i, (raw, date) in enumerate(items):
				outcome = self.decode(m, stream, minutes)
				m.check(outcome.ok and outcome.value is not None, 'a valid record was not decoded', outcome=outcome, raw=raw)
				seen.append(outcome.value)
			# Compared only after all were read: an earlier record must not change when later ones are decoded
			for (raw, date), record in zip(items, seen):
				readings.check_readings(m, record, expected_download(raw, date, minutes), 'streamed record', raw=raw)
				m.event('record_decoded')
			m.nontrivial(case['seed'])
			m.sample({'raw': items[0][0], 'date': str(items[0][1])})
		else:
			for _ in range(12):
				raw = wire.random_raw(wire.DOWNLOAD, rng)
				date = wire.random_date(rng)
				data = bytearray(wire.encode_download(raw, date, rng))
				how = rng.choice(('type', 'direction', 'month', 'time', 'short', 'undated'))
				if how == 'type':
					data[42] = rng.choice((1, 2, 127, 128, 254, 255))
				elif how == 'direction':
					data[rng.choice((26, 27))] = rng.choice((16, 17, 100, 128, 253, 254, rng.randrange(16, 255)))
				elif how == 'month':
					month = rng.choice((0, 13, 14, 15))
					struct.pack_into('<H', data, 0, ((date.year - 2000) << 9 | month << 5 | date.day) or 1)
				elif how == 'time':
					struct.pack_into('<H', data, 2, rng.choice((2400, 2360, 1299, 60, 99, 30000)))
				elif how == 'short':
					del data[rng.randrange(len(data)):]
				else:
					struct.pack_into('<h', data, 0, rng.choice((0, -1, -32768, -rng.randrange(1, 32768))))
				stream = io.BytesIO(bytes(data))
				outcome = self.decode(m, stream, 5)
				if how == 'undated':
					# A record without a date is an unused slot: skipped whole, not decoded and not an error
					m.check(outcome.ok and outcome.value is None, 'an undated record was not ignored', outcome=outcome)
					m.check(stream.tell() == wire.DOWNLOAD_LENGTH, 'an undated record was not skipped whole')
					m.event('undated_ignored')
				else:
					m.check(not outcome.ok, 'a malformed record was decoded', how=how, data=bytes(data), outcome=outcome)
					m.event('malformed_refused')
				m.seen('malformation', how)
			m.nontrivial(case['seed'])

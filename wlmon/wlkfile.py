"""Builds .wlk monthly database files and what importing them should give."""
import calendar
import datetime
from fractions import Fraction

from wlmon import wire


def expected_record(raw, rain_code, year, month, day):
	expected = wire.decode_fields(wire.WLK, raw)
	name, per_click = wire.WLK_COLLECTORS[rain_code >> 12]
	clicks = rain_code & 0x0FFF
	expected['rain_collector_type'] = name
	expected['rain_amount_clicks'] = clicks
	expected['rain_amount'] = per_click * clicks
	expected['rain_rate'] = per_click * raw['rain_rate_clicks']
	expected['wind_direction_prevailing_degrees'] = wire.degrees_of(expected['wind_direction_prevailing'])
	expected['wind_direction_speed_high_degrees'] = wire.degrees_of(expected['wind_direction_speed_high'])
	d = datetime.datetime(year, month, day) + datetime.timedelta(minutes=raw['minutes_past_midnight'])
	expected['date'] = d
	expected['timestamp'] = wire.timestamp_of(d)
	return expected


class Month(object):
	"""A generated month: days -> (summary raw, [(record raw, rain code)])."""
	def __init__(self, rng, max_records=40, days=None, collector=None, dash=0.1, hostile=0.1, interval=None):
		self.year = rng.randint(2000, 2063)
		self.month = rng.randint(1, 12)
		last = calendar.monthrange(self.year, self.month)[1]
		self.days = {}
		chosen = days if days is not None else sorted(rng.sample(range(1, last + 1), rng.randint(1, last)))
		for day in chosen:
			if day > last:
				continue
			count = rng.choice((0, 1, 2, rng.randint(0, max_records)))
			minutes = sorted(rng.sample(range(0 if rng.random() < 0.1 else 1, 1441), count))
			if minutes and rng.random() < 0.3:
				minutes[-1] = 1440
			records = []
			for minute in minutes:
				raw = wire.random_raw(wire.WLK, rng, dash, hostile, skip=('minutes_past_midnight',))
				raw['minutes_past_midnight'] = minute
				nibble = collector if collector is not None else rng.choice(sorted(wire.WLK_COLLECTORS))
				records.append((raw, nibble << 12 | rng.choice((0, 1, 4095, rng.randrange(4096)))))
			self.days[day] = (wire.random_raw(wire.SUMMARY, rng, 0.1, 0.1), records)
		self.version = b'WDAT5.3\x00' + bytes(bytearray(rng.randrange(256) for _ in range(8)))

	@property
	def name(self):
		return '%04d-%02d.wlk' % (self.year, self.month)

	def encode(self, rng):
		# There is no day 0: its index entry is unused
		body, indexes, slots = b'', [(0, 0) if rng.random() < 0.7 else (rng.choice((1, 2, 3, 31)), rng.choice((0, 1, -1)))], 0
		for day in range(1, 32):
			if day not in self.days:
				indexes.append((0, slots))
				continue
			summary, records = self.days[day]
			indexes.append((2 + len(records), slots))
			slots += 2 + len(records)
			body += wire.encode_summary(summary, rng)
			body += b''.join(wire.encode_wlk(raw, code, rng) for raw, code in records)
		self.total = sum(len(r) for _, r in self.days.values())
		self.header_count = slots
		self.indexes = indexes
		return wire.file_header(self.version, slots, indexes) + body

	def expected(self):
		result = []
		for day in sorted(self.days):
			result.append((day, [expected_record(raw, code, self.year, self.month, day) for raw, code in self.days[day][1]]))
		return result

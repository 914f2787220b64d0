"""What a LOOP2 packet stands for."""
from fractions import Fraction

from wlmon import readings, wire


def compass_names(degrees):
	"""The acceptable names of a bearing: the sector it lies in, either one right at a sector's edge."""
	if not degrees or degrees > 360:
		return {None}
	names = set()
	for i, name in enumerate(wire.NAMES):
		distance = abs((degrees - i * 22.5 + 180) % 360 - 180)
		if distance <= 12:
			names.add(name)
	return names


def check_packet(m, record, raw, trend, crc_match, what, **details):
	expected = wire.decode_fields(wire.LOOP2, raw)
	for clicks, amount in wire.LOOP2_RAIN:
		# No rain at all is reported as no amount
		expected[amount] = Fraction(raw[clicks], 100) if raw[clicks] else None
	expected['barometric_trend'] = wire.LOOP2_TRENDS.get(trend)
	expected['record_type'] = 2
	readings.check_readings(m, record, expected, what, raw=raw, **details)
	m.check(readings.get(record, 'crc_match') is crc_match, '%s: crc_match' % what, got=readings.get(record, 'crc_match'))
	for degrees, direction in wire.LOOP2_DIRECTIONS:
		got = readings.name_of(readings.get(record, direction))
		m.check(got in compass_names(raw[degrees]), '%s: %s' % (what, direction), degrees=raw[degrees], got=got)

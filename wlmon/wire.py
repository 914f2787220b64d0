"""
Independent encoders of the three wire/file formats, and the readings each raw field stands for.  Written from the
format documentation (byte offsets, units, dash values), not from the code under test.
"""
import datetime
import struct
from decimal import Decimal
from fractions import Fraction

NAMES = ('N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW')
ERROR = 'error'  # the raw value is invalid: decoding must fail


def scaled(divisor, dash=None):
	def decode(raw):
		return None if raw == dash else Decimal(raw) / divisor
	return decode


def whole(dash=None):
	def decode(raw):
		return None if raw == dash else raw
	return decode


def compass(raw):
	if raw == 255:
		return None
	return NAMES[raw] if 0 <= raw <= 15 else ERROR


def degrees_of(name):
	if name is None:
		return None
	i = NAMES.index(name)
	return 360.0 if i == 0 else i * 22.5


RANGES = {'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535), 'l': (-2 ** 31, 2 ** 31 - 1)}

# field -> (offset, struct code, decoder, representative plausible range)
DOWNLOAD = {
	'temperature_outside': (4, 'h', scaled(10, 32767), (-400, 1200)),
	'temperature_outside_high': (6, 'h', scaled(10, -32768), (-400, 1200)),
	'temperature_outside_low': (8, 'h', scaled(10, 32767), (-400, 1200)),
	'rain_amount_clicks': (10, 'H', whole(), (0, 60)),
	'rain_rate_clicks': (12, 'H', whole(), (0, 900)),
	'barometric_pressure': (14, 'H', scaled(1000, 0), (28000, 31500)),
	'solar_radiation': (16, 'h', whole(32767), (0, 1200)),
	'number_of_wind_samples': (18, 'H', whole(0), (1, 2000)),
	'temperature_inside': (20, 'h', scaled(10, 32767), (400, 1000)),
	'humidity_inside': (22, 'B', whole(255), (1, 100)),
	'humidity_outside': (23, 'B', whole(255), (1, 100)),
	'wind_speed': (24, 'B', scaled(1, 255), (0, 60)),
	'wind_speed_high': (25, 'B', scaled(1, 0), (0, 90)),
	'wind_direction_speed_high': (26, 'B', compass, (0, 15)),
	'wind_direction_prevailing': (27, 'B', compass, (0, 15)),
	'uv_index': (28, 'B', scaled(10, 255), (0, 140)),
	'evapotranspiration': (29, 'B', scaled(1000, 0), (0, 60)),
	'solar_radiation_high': (30, 'h', whole(32767), (0, 1300)),
	'uv_index_high': (32, 'B', scaled(10, 255), (0, 150)),
}
DOWNLOAD_LENGTH = 52
DOWNLOAD_TYPE_OFFSET = 42

WLK = {
	'minutes_covered': (1, 'b', whole(), (1, 120)),
	'minutes_past_midnight': (4, 'h', whole(), (0, 1440)),
	'temperature_outside': (6, 'h', scaled(10, 32767), (-400, 1200)),
	'temperature_outside_high': (8, 'h', scaled(10, -32768), (-400, 1200)),
	'temperature_outside_low': (10, 'h', scaled(10, 32767), (-400, 1200)),
	'temperature_inside': (12, 'h', scaled(10, 32767), (400, 1000)),
	'barometric_pressure': (14, 'h', scaled(1000, 0), (28000, 31500)),
	'humidity_outside': (16, 'h', scaled(10, 255), (10, 1000)),
	'humidity_inside': (18, 'h', scaled(10, 255), (10, 1000)),
	'rain_rate_clicks': (22, 'h', whole(), (0, 900)),
	'wind_speed': (24, 'h', scaled(10, 255), (0, 600)),
	'wind_speed_high': (26, 'h', scaled(10, 0), (0, 900)),
	'wind_direction_prevailing': (28, 'B', compass, (0, 15)),
	'wind_direction_speed_high': (29, 'B', compass, (0, 15)),
	'number_of_wind_samples': (30, 'h', whole(0), (1, 2000)),
	'solar_radiation': (32, 'h', whole(-32768), (0, 1200)),
	'solar_radiation_high': (34, 'h', whole(-32768), (0, 1300)),
	'uv_index': (36, 'B', scaled(10, 255), (0, 140)),
	'uv_index_high': (37, 'B', scaled(10, 255), (0, 150)),
}
WLK_RAIN_OFFSET = 20  # 'H': collector type in the high four bits, clicks in the low twelve
WLK_LENGTH = 88

# Daily summary: two 88-byte slots, laid end to end
SUMMARY_LENGTH = 176
SUMMARY_TYPE_OFFSETS = ((0, 2), (88, 3))
_SUMMARY_LAYOUT = (
	('minutes', 'h', whole(), 2),
	('temperature_outside_high', 'h', scaled(10, -32768), 4), ('temperature_outside_low', 'h', scaled(10, 32767), 6),
	('temperature_inside_high', 'h', scaled(10, -32768), 8), ('temperature_inside_low', 'h', scaled(10, 32767), 10),
	('temperature_outside_average', 'h', scaled(10, 32767), 12),
	('temperature_inside_average', 'h', scaled(10, 32767), 14),
	('wind_chill_high', 'h', scaled(10, -32768), 16), ('wind_chill_low', 'h', scaled(10, 32767), 18),
	('dew_point_high', 'h', scaled(10, -32768), 20), ('dew_point_low', 'h', scaled(10, 32767), 22),
	('wind_chill_average', 'h', scaled(10, 32767), 24), ('dew_point_average', 'h', scaled(10, 32767), 26),
	('humidity_outside_high', 'h', scaled(10, 255), 28), ('humidity_outside_low', 'h', scaled(10, 255), 30),
	('humidity_inside_high', 'h', scaled(10, 255), 32), ('humidity_inside_low', 'h', scaled(10, 255), 34),
	('humidity_outside_average', 'h', scaled(10, 255), 36),
	('barometric_pressure_high', 'h', scaled(1000, 0), 38), ('barometric_pressure_low', 'h', scaled(1000, 0), 40),
	('barometric_pressure_average', 'h', scaled(1000, 0), 42),
	('wind_speed_high', 'h', scaled(10, 0), 44), ('wind_speed_average', 'h', scaled(10, 0), 46),
	('wind_daily_run', 'h', scaled(10, 0), 48),
	('wind_speed_high_10_minute_average', 'h', scaled(10, -32768), 50),
	('wind_speed_high_direction', 'B', compass, 52),
	('wind_speed_high_10_minute_average_direction', 'B', compass, 53),
	('rain_total', 'h', scaled(1000), 54), ('rain_rate_high', 'h', scaled(100), 56),
	('total_wind_packets', 'H', whole(0x8000), 92),
	('heat_index_high', 'h', scaled(10, -32768), 102), ('heat_index_low', 'h', scaled(10, 32767), 104),
	('heat_index_average', 'h', scaled(10, 32767), 106),
	('thw_index_high', 'h', scaled(10, -32768), 112), ('thw_index_low', 'h', scaled(10, 32767), 114),
	('integrated_heating_degree_days', 'h', scaled(10, 0), 116),
	('temperature_wet_bulb_high', 'h', scaled(10, -32768), 118),
	('temperature_wet_bulb_low', 'h', scaled(10, 32767), 120),
	('temperature_wet_bulb_average', 'h', scaled(10, 32767), 122),
	('integrated_cooling_degree_days', 'h', scaled(10, 0), 163),
)
SUMMARY = dict((name, (offset, code, decode, None)) for name, code, decode, offset in _SUMMARY_LAYOUT)

LOOP2 = {
	'barometric_pressure': (7, 'H', scaled(1000, 0), (28000, 31500)),
	'temperature_inside': (9, 'h', scaled(10, 32767), (400, 1000)),
	'humidity_inside': (11, 'B', whole(255), (1, 100)),
	'temperature_outside': (12, 'h', scaled(10, 32767), (-400, 1200)),
	'wind_speed': (14, 'B', scaled(1, 255), (0, 60)),
	'wind_direction_degrees': (16, 'H', whole(0), (0, 360)),
	'wind_speed_10_minute_average': (18, 'H', scaled(10, 0), (0, 600)),
	'wind_speed_2_minute_average': (20, 'H', scaled(10, 0), (0, 600)),
	'wind_speed_10_minute_gust': (22, 'H', scaled(10, 0), (0, 900)),
	'wind_speed_10_minute_gust_direction_degrees': (24, 'H', whole(0), (0, 360)),
	'dew_point': (30, 'h', scaled(1, 255), (-40, 90)),
	'humidity_outside': (33, 'B', whole(255), (1, 100)),
	'heat_index': (35, 'h', whole(255), (-40, 130)),
	'wind_chill': (37, 'h', whole(255), (-60, 120)),
	'thsw_index': (39, 'h', whole(255), (-60, 140)),
	'rain_rate_clicks': (41, 'H', whole(), (0, 900)),
	'uv_index': (43, 'B', scaled(10, 255), (0, 150)),
	'solar_radiation': (44, 'H', whole(32767), (0, 1300)),
	'rain_clicks_this_storm': (46, 'H', whole(), (0, 500)),
	'rain_clicks_today': (50, 'H', whole(), (0, 500)),
	'rain_clicks_15_minutes': (52, 'H', whole(), (0, 90)),
	'rain_clicks_1_hour': (54, 'H', whole(), (0, 200)),
	'evapotranspiration': (56, 'H', scaled(1000, 0), (0, 400)),
	'rain_clicks_24_hours': (58, 'H', whole(), (0, 900)),
	'minute_in_hour': (79, 'B', whole(60), (0, 59)),
}
LOOP2_LENGTH = 99
LOOP2_TREND_OFFSET = 3
LOOP2_TRENDS = {-60: 'falling_rapidly', -20: 'falling_slowly', 0: 'steady', 20: 'rising_slowly', 60: 'rising_rapidly'}
# Constant framing: offset -> bytes
LOOP2_FRAME = {
	0: b'LOO', 4: b'\x01', 5: b'\xff\x7f', 15: b'\xff', 26: b'\xff\x7f\xff\x7f', 32: b'\xff', 34: b'\xff', 71: b'\xff',
	83: b'\xff\x7f' * 6, 95: b'\n\r',
}
LOOP2_RAIN = (
	('rain_rate_clicks', 'rain_rate'), ('rain_clicks_this_storm', 'rain_amount_this_storm'),
	('rain_clicks_today', 'rain_amount_today'), ('rain_clicks_15_minutes', 'rain_amount_15_minutes'),
	('rain_clicks_1_hour', 'rain_amount_1_hour'), ('rain_clicks_24_hours', 'rain_amount_24_hours'),
)
LOOP2_DIRECTIONS = (
	('wind_direction_degrees', 'wind_direction'),
	('wind_speed_10_minute_gust_direction_degrees', 'wind_speed_10_minute_gust_direction'),
)


def crc(data):
	"""CRC-16/XMODEM, bit by bit."""
	value = 0
	for byte in bytearray(data):
		value ^= byte << 8
		for _ in range(8):
			value = ((value << 1) ^ 0x1021) & 0xFFFF if value & 0x8000 else (value << 1) & 0xFFFF
	return value


_BYTE_CRC = []


def fast_crc(data):
	if not _BYTE_CRC:
		_BYTE_CRC.extend(crc(bytes(bytearray([i]))) for i in range(256))
	value = 0
	for byte in bytearray(data):
		value = ((value << 8) & 0xFFFF) ^ _BYTE_CRC[(value >> 8) ^ byte]
	return value


def with_crc(data):
	return data + struct.pack('>H', fast_crc(data))


def timestamp_of(d):
	date_part = ((d.year - 2000) << 9) | (d.month << 5) | d.day
	return (date_part << 16) | (d.hour * 100 + d.minute)


def put(buffer, fields, raw):
	for name, value in raw.items():
		offset, code = fields[name][0], fields[name][1]
		struct.pack_into('<' + code, buffer, offset, value)


def encode_download(raw, date, rng=None, record_type=0):
	buffer = bytearray(rng.randrange(256) for _ in range(DOWNLOAD_LENGTH)) if rng else bytearray(DOWNLOAD_LENGTH)
	timestamp = timestamp_of(date)
	struct.pack_into('<HH', buffer, 0, timestamp >> 16, timestamp & 0xFFFF)
	put(buffer, DOWNLOAD, raw)
	buffer[DOWNLOAD_TYPE_OFFSET] = record_type
	return bytes(buffer)


def encode_wlk(raw, rain_code, rng=None, record_type=1):
	buffer = bytearray(rng.randrange(256) for _ in range(WLK_LENGTH)) if rng else bytearray(WLK_LENGTH)
	buffer[0] = record_type & 0xFF
	struct.pack_into('<H', buffer, WLK_RAIN_OFFSET, rain_code)
	put(buffer, WLK, raw)
	return bytes(buffer)


def encode_summary(raw, rng=None):
	buffer = bytearray(rng.randrange(256) for _ in range(SUMMARY_LENGTH)) if rng else bytearray(SUMMARY_LENGTH)
	for offset, value in SUMMARY_TYPE_OFFSETS:
		buffer[offset] = value
	put(buffer, SUMMARY, raw)
	return bytes(buffer)


def encode_loop2(raw, trend=0, rng=None, good_crc=True):
	buffer = bytearray(rng.randrange(256) for _ in range(LOOP2_LENGTH)) if rng else bytearray(LOOP2_LENGTH)
	put(buffer, LOOP2, raw)
	struct.pack_into('<b', buffer, LOOP2_TREND_OFFSET, trend)
	for offset, value in LOOP2_FRAME.items():
		buffer[offset:offset + len(value)] = value
	data = with_crc(bytes(buffer[:97]))
	if not good_crc:
		flip = (rng.randrange(1, 65536) if rng else 1)
		data = data[:97] + struct.pack('>H', struct.unpack('>H', data[97:])[0] ^ flip)
	return data


def random_raw(fields, rng, dash_probability=0.1, hostile=0.1, skip=()):
	"""A raw reading per field: mostly plausible, sometimes a dash or a boundary value."""
	raw = {}
	for name in sorted(fields):
		if name in skip:
			continue
		offset, code, decode, plausible = fields[name]
		lo, hi = RANGES[code]
		p = rng.random()
		if decode is compass:
			raw[name] = 255 if p < dash_probability else rng.randrange(16)
		elif p < dash_probability:
			raw[name] = rng.choice([d for d in (32767, -32768, 255, 0, 60, 0x8000) if lo <= d <= hi])
		elif p < dash_probability + hostile or plausible is None:
			raw[name] = rng.choice((lo, hi, lo + 1, hi - 1, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)))
		else:
			raw[name] = rng.randint(*plausible)
	return raw


def dash_of(fields, name):
	"""The raw value that marks the reading as absent, or None."""
	offset, code, decode, plausible = fields[name]
	lo, hi = RANGES[code]
	for d in (32767, -32768, 0x8000, 255, 60, 0):
		if lo <= d <= hi and decode(d) is None:
			return d
	return None


def plausible_raw(fields, rng, dash_probability=0.1, absent=()):
	"""Readings a real station could report, absent ones by their own mark."""
	raw = {}
	for name in sorted(fields):
		dash = dash_of(fields, name)
		if dash is not None and (name in absent or rng.random() < dash_probability):
			raw[name] = dash
			continue
		lo, hi = fields[name][3]
		value = rng.choice((lo, hi, 0)) if rng.random() < 0.1 else rng.randint(lo, hi)
		raw[name] = value if lo <= value <= hi and value != dash else lo + (lo == dash)
	return raw


def decode_fields(fields, raw):
	return dict((name, fields[name][2](value)) for name, value in raw.items())


def random_date(rng, first=2000, last=2063):
	day = datetime.date(first, 1, 1) + datetime.timedelta(days=rng.randrange((datetime.date(last, 12, 31) - datetime.date(first, 1, 1)).days + 1))
	return datetime.datetime(day.year, day.month, day.day, rng.randrange(24), rng.randrange(60))


# Rain collectors: nibble -> exact inches per click
INCH_PER_CM = Fraction(393701, 1000000)
WLK_COLLECTORS = {
	0x0: ('inches_0_1', Fraction(1, 10)), 0x1: ('inches_0_01', Fraction(1, 100)),
	0x2: ('millimeters_0_2', Fraction(2, 100) * INCH_PER_CM), 0x3: ('millimeters_1_0', Fraction(1, 10) * INCH_PER_CM),
	0x6: ('millimeters_0_1', Fraction(1, 100) * INCH_PER_CM),
}


def file_header(version, record_count, days):
	"""days: 32 pairs of (slot count, start index)."""
	data = struct.pack('<16sl', version, record_count)
	for slots, start in days:
		data += struct.pack('<hl', slots, start)
	return data

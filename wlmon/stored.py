"""What a record's row in the archive table must say."""
import io
from decimal import Decimal
from fractions import Fraction

from wlmon import core, derive, readings, wire, wlkfile

# reading -> (column, decimals kept, highest absolute value, signed)
NUMBERS = {
	'timestamp': ('timestamp_weatherlink', 0, 2 ** 64 - 1, False),
	'minutes_covered': ('minutes_covered', 0, 127, True),
	'temperature_outside': ('temperature_outside', 1, 999.9, True),
	'temperature_outside_low': ('temperature_outside_low', 1, 999.9, True),
	'temperature_outside_high': ('temperature_outside_high', 1, 999.9, True),
	'temperature_inside': ('temperature_inside', 1, 999.9, True),
	'humidity_outside': ('humidity_outside', 0, 255, False),
	'humidity_inside': ('humidity_inside', 0, 255, False),
	'barometric_pressure': ('barometric_pressure', 3, 999.999, False),
	'wind_speed': ('wind_speed', 0, 65535, False),
	'wind_speed_high': ('wind_speed_high', 0, 65535, False),
	'rain_amount': ('rain_total', 3, 9999.999, False),
	'rain_rate': ('rain_rate_high', 2, 999.99, False),
	'rain_amount_clicks': ('rain_clicks', 0, 65535, False),
	'rain_rate_clicks': ('rain_click_rate_high', 0, 65535, False),
	'solar_radiation': ('solar_radiation', 0, 65535, False),
	'solar_radiation_high': ('solar_radiation_high', 0, 65535, False),
	'uv_index': ('uv_index', 1, 999.9, False),
	'uv_index_high': ('uv_index_high', 1, 999.9, False),
	'evapotranspiration': ('evapotranspiration', 3, 999.999, False),
}
NAMES = {'wind_direction_prevailing': 'wind_speed_direction', 'wind_direction_speed_high': 'wind_speed_high_direction'}
CLOSE = Fraction(1, 10 ** 9)


def half_up(value, places):
	scaled = abs(Fraction(value)) * 10 ** places
	whole = int(scaled + Fraction(1, 2))
	return Decimal(whole if value >= 0 else -whole).scaleb(-places)


def to_decimal(value):
	return value if value is None or isinstance(value, (int, Decimal)) else Decimal(value.numerator) / Decimal(value.denominator)


class Expected(object):
	"""columns: column -> exact value, None, name, or a predicate of derive.py."""
	def __init__(self, expected, utc=None):
		"""expected: the readings, as decoded by wire.py."""
		d = expected['date']
		self.date = d
		self.columns = {
			'timestamp_station': d, 'summary_year': d.year, 'summary_month': d.month, 'summary_day': d.day,
		}
		if utc is not None:
			self.columns['timestamp_utc'] = utc
		self.fits = True
		self.keys = {}  # column -> attribute
		for name, (column, places, highest, signed) in NUMBERS.items():
			value = expected.get(name)
			if value is not None:
				stored = half_up(value, places)
				if abs(stored) > Decimal(str(highest)) or (stored < 0 and not signed):
					self.fits = False
				value = stored
			self.columns[column] = value
			self.keys[column] = name
		for name, column in NAMES.items():
			self.columns[column] = expected.get(name)
			self.keys[column] = name
		want = derive.derive(dict((k, to_decimal(v)) for k, v in expected.items() if k not in NAMES and k != 'date' and not isinstance(v, (str, float))))
		for name in derive.DERIVED:
			self.columns[name] = want.get(name)
			self.keys[name] = name
			p = want.get(name)
			if isinstance(p, derive.Among) and any(abs(v) > 990 for v in p.values):
				self.fits = None  # may or may not fit
			elif isinstance(p, derive.About) and abs(p.exact) > 990:
				self.fits = None

	def check(self, m, row, what, skip=(), rename=None):
		rename = rename or {}
		for column in sorted(self.columns):
			if column in skip:
				continue
			want, got = self.columns[column], row.get(rename.get(column, column))
			m.comparisons += 1
			details = dict(column=column, got=got, expected=want)
			if want is None:
				if got is not None:
					m.fail('%s: %s should be NULL' % (what, column), **details)
			elif got is None:
				m.fail('%s: %s is NULL' % (what, column), **details)
			elif isinstance(want, derive.Near):
				if abs(Fraction(got) - Fraction(want.exact)) > Fraction(1, 200) + CLOSE:
					m.fail('%s: %s stored wrongly' % (what, column), **details)
			elif isinstance(want, (derive.About, derive.Among)):
				if not want.admits(got):
					m.fail('%s: %s stored wrongly' % (what, column), **details)
			elif not core.same(got, want):
				m.fail('%s: %s stored wrongly' % (what, column), **details)


def make_download(rng, date=None, minutes=None, dash=0.1, raw=None):
	"""A record decoded by the real code from a download, and its readings."""
	from weatherlink.models import ArchiveIntervalRecord
	from wlmon.checks.c02 import expected_download
	raw = raw or wire.plausible_raw(wire.DOWNLOAD, rng, dash)
	date = date or wire.random_date(rng)
	minutes = minutes or rng.choice((1, 5, 10, 15, 30, 60, 120))
	record = ArchiveIntervalRecord.load_from_download(io.BytesIO(wire.encode_download(raw, date, rng)), minutes)
	return record, expected_download(raw, date, minutes)


def make_wlk(rng, date=None, minutes=None, dash=0.1, raw=None):
	"""A record decoded by the real code from a month file."""
	from weatherlink.models import ArchiveIntervalRecord
	raw = dict(raw or wire.plausible_raw(wire.WLK, rng, dash))
	date = date or wire.random_date(rng)
	raw['minutes_past_midnight'] = date.hour * 60 + date.minute
	if minutes or not 0 < raw['minutes_covered'] < 121:
		raw['minutes_covered'] = minutes or rng.choice((1, 5, 10, 15, 30, 60, 120))
	code = rng.choice(sorted(wire.WLK_COLLECTORS)) << 12 | rng.choice((0, 1, rng.randrange(60), rng.randrange(4096)))
	record = ArchiveIntervalRecord.load_from_wlk(io.BytesIO(wire.encode_wlk(raw, code, rng)), date.year, date.month, date.day)
	return record, wlkfile.expected_record(raw, code, date.year, date.month, date.day)


def make(rng, **kwargs):
	return (make_download if rng.random() < 0.6 else make_wlk)(rng, **kwargs)

"""What the summaries of a set of archive rows must say, recomputed from the rows alone."""
import datetime
from collections import Counter
from decimal import Decimal as D
from fractions import Fraction

from wlmon import core, mysqld, sqlengine, wire
from wlmon.checks import c20

ARCHIVE, SUMMARY = 'weather_archive_record', 'weather_calculated_summary'

# summary column -> (statistic, archive column)
STATISTICS = {
	'wind_speed_high': ('max', 'wind_speed_high'), 'wind_speed_average': ('avg', 'wind_speed'),
	'wind_run_distance_total': ('sum', 'wind_run_distance_total'),
	'rain_total': ('sum', 'rain_total'), 'rain_rate_high': ('max', 'rain_rate_high'), 'evapotranspiration': ('sum', 'evapotranspiration'),
	'solar_radiation_low': ('min', 'solar_radiation'), 'solar_radiation_high': ('max', 'solar_radiation_high'),
	'solar_radiation_average': ('avg', 'solar_radiation'),
	'uv_index_low': ('min', 'uv_index'), 'uv_index_high': ('max', 'uv_index_high'), 'uv_index_average': ('avg', 'uv_index'),
}
for _name in ('temperature_inside', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'dew_point_inside', 'heat_index_inside'):
	STATISTICS.update({_name + '_low': ('min', _name), _name + '_high': ('max', _name), _name + '_average': ('avg', _name)})
for _name in ('temperature_outside', 'temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
	STATISTICS.update({
		_name + '_low': ('min', _name + '_low'), _name + '_high': ('max', _name + '_high'), _name + '_average': ('avg', _name),
	})

TIMED = (
	'temperature_outside_low', 'temperature_outside_high', 'humidity_outside_low', 'humidity_outside_high', 'barometric_pressure_low',
	'barometric_pressure_high', 'wind_speed_high', 'rain_rate_high', 'solar_radiation_high', 'uv_index_high', 'temperature_wet_bulb_low',
	'temperature_wet_bulb_high', 'dew_point_outside_low', 'dew_point_outside_high', 'heat_index_outside_high', 'wind_chill_low',
	'thw_index_low', 'thw_index_high', 'thsw_index_low', 'thsw_index_high',
)
UNTIMED_AT_ZERO = ('wind_speed_high', 'rain_rate_high', 'solar_radiation_high', 'uv_index_high')
TEN_MINUTES = tuple('wind_speed_high_10_minute_average' + s for s in ('', '_direction', '_start', '_end'))
DEGREE_DAYS = ('integrated_heating_degree_days', 'integrated_cooling_degree_days')
KEYS = ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day')
SLACK = Fraction(1, 1000)  # averages are rounded twice on the way


def load_tables():
	with open(mysqld.SCHEMA, 'rb') as f:
		return sqlengine.parse_schema(f.read().decode('utf-8'))


class Scales(object):
	def __init__(self):
		tables = load_tables()
		self.scale = dict((c.name, c.type.scale if c.type.kind == 'decimal' else 0) for c in tables[SUMMARY].columns)


def near(m, got, exact, scale, message, **details):
	m.comparisons += 1
	if got is None or abs(Fraction(got) - Fraction(exact)) > Fraction(1, 2 * 10 ** scale) + SLACK:
		m.fail(message, got=got, expected=float(exact), **details)


def seconds(value):
	return value.hour * 3600 + value.minute * 60 + value.second if isinstance(value, datetime.time) else value.total_seconds()


class Period(object):
	def __init__(self, kind, year, month=0, week=0, day=0, start=None, end=None):
		"""start, end: its first and last date."""
		self.key = (kind, year, month, week, day)
		self.kind, self.start, self.end = kind, start, end

	def holds(self, date):
		return self.start <= (date.date() if isinstance(date, datetime.datetime) else date) <= self.end

	def __eq__(self, other):
		return self.key == other.key

	def __hash__(self):
		return hash(self.key)

	def __lt__(self, other):
		return self.key < other.key

	def __repr__(self):
		return '%s %d-%d week %d day %d' % self.key


def periods(date):
	"""The daily, weekly, monthly and yearly periods of a date."""
	d = date.date() if isinstance(date, datetime.datetime) else date
	monday = d - datetime.timedelta(days=d.weekday())
	week_year, week, _ = d.isocalendar()
	following = datetime.date(d.year + d.month // 12, d.month % 12 + 1, 1)
	return (
		Period('DAILY', d.year, d.month, 0, d.day, d, d),
		Period('WEEKLY', week_year, 0, week, 0, monday, monday + datetime.timedelta(days=6)),
		Period('MONTHLY', d.year, d.month, 0, 0, d.replace(day=1), following - datetime.timedelta(days=1)),
		Period('YEARLY', d.year, 0, 0, 0, datetime.date(d.year, 1, 1), datetime.date(d.year, 12, 31)),
	)


class Judge(object):
	def __init__(self, m, server):
		self.m = m
		self.scale = Scales().scale
		self.reload(server)

	def reload(self, server):
		self.rows = sorted(server.rows(ARCHIVE), key=lambda r: r['timestamp_station'])
		self.by_day = {}
		for r in self.rows:
			self.by_day.setdefault(r['timestamp_station'].date(), []).append(r)
		self.stored = {}
		for r in server.rows(SUMMARY):
			key = tuple(r[k] for k in KEYS)
			self.m.check(key not in self.stored, 'a period has two summaries', period=key)
			self.stored[key] = r

	def of(self, period):
		row = self.stored.get(period.key)
		self.m.check(row is not None, 'a period has no summary', period=period, stored=sorted(self.stored)[:40])
		return row

	def records(self, period):
		days = (period.end - period.start).days
		if days < 10:
			return [r for i in range(days + 1) for r in self.by_day.get(period.start + datetime.timedelta(days=i), ())]
		return [r for r in self.rows if period.holds(r['timestamp_station'])]

	# ---- the statistics every kind of summary has
	def statistics(self, period):
		m, row, rows = self.m, self.of(period), self.records(period)
		extremes = {}
		for column in sorted(STATISTICS):
			statistic, source = STATISTICS[column]
			values = [r[source] for r in rows if r[source] is not None]
			what = '%s: wrong %s' % (period.kind.lower(), column)
			if not values:
				m.equal(row[column], None, what, period=period)
				extremes[column] = None
				continue
			if statistic == 'avg':
				near(m, row[column], sum(Fraction(v) for v in values) / len(values), self.scale[column], what, period=period, values=values)
				continue
			exact = min(values) if statistic == 'min' else max(values) if statistic == 'max' else sum(values)
			extremes[column] = exact
			m.equal(row[column], exact, what, period=period, values=values)
		self.directions(period, row, rows, extremes['wind_speed_high'])
		return extremes

	def directions(self, period, row, rows, high):
		m = self.m
		for column, source, among in (
			('wind_direction_prevailing', 'wind_speed_direction', rows),
			('wind_speed_high_direction', 'wind_speed_high_direction', [r for r in rows if r['wind_speed_high'] == high]),
		):
			counts = Counter(r[source] for r in among if r[source] is not None) if high else None
			if not counts:
				m.equal(row[column], None, '%s: %s without wind' % (period.kind.lower(), column), period=period)
				continue
			top = max(counts.values())
			allowed = sorted(d for d in counts if counts[d] == top)
			if len(allowed) > 1:
				m.event('direction_tied')
			m.check(row[column] in allowed, '%s: wrong %s' % (period.kind.lower(), column), period=period, got=row[column], expected=allowed, counts=counts)
			m.event('direction')

	# ---- when each extreme was first reached
	def times(self, period):
		m, row, rows = self.m, self.of(period), self.records(period)
		for column in TIMED:
			statistic, source = STATISTICS[column]
			values = [r[source] for r in rows if r[source] is not None]
			want = None
			if values:
				extreme = min(values) if statistic == 'min' else max(values)
				if extreme or column not in UNTIMED_AT_ZERO:
					reached = [r['timestamp_station'] for r in rows if r[source] == extreme]
					want = min(reached)
					if len(reached) > 1:
						m.event('reached_again')
					if not extreme:
						m.event('zero_degrees')
				else:
					m.event('zero_untimed')
			else:
				m.event('no_extreme')
			m.equal(row[column + '_timestamp'], want, '%s: wrong time of %s' % (period.kind.lower(), column), period=period)
			m.event('time')

	# ---- what only a day has of its own
	def day(self, period):
		m, row, rows = self.m, self.of(period), self.records(period)
		temperatures = [Fraction(r['temperature_outside']) for r in rows if r['temperature_outside'] is not None]
		heating, cooling = row[DEGREE_DAYS[0]], row[DEGREE_DAYS[1]]
		if not temperatures:
			m.equal((heating, cooling), (None, None), 'degree days of a day without temperature', period=period)
			m.event('no_temperature')
		else:
			distance = 65 - sum(temperatures) / len(temperatures)
			tiny = abs(distance) <= Fraction(1, 10000)
			for value, exact, name in ((heating, distance, 'heating'), (cooling, -distance, 'cooling')):
				if exact > 0 and not (tiny and value is None):
					near(m, value, exact, 1, 'wrong %s degree days' % name, period=period)
					m.event(name)
				else:
					m.check(value is None or tiny, '%s degree days on the wrong side' % name, period=period, got=value)
		want = c20.brute_force([(r['wind_speed'], r['wind_speed_direction'], r['timestamp_station'], r['minutes_covered']) for r in rows])
		got = [row[c] for c in TEN_MINUTES]
		if want is None:
			m.equal(got, [None] * 4, 'a 10-minute average where there is none', period=period)
			m.event('no_ten_minute_average')
		else:
			near(m, got[0], want[0], 2, 'wrong 10-minute average', period=period)
			m.check(got[1] in want[1], 'wrong direction of the 10-minute average', period=period, got=got, expected=want)
			m.equal(got[2], want[2] - datetime.timedelta(minutes=1), 'wrong start of the 10-minute average', period=period)
			m.check(got[3] is not None and seconds(got[3]) == seconds(want[3].time()), 'wrong end of the 10-minute average', period=period, got=got, expected=want)
			m.event('ten_minute_average')
		for name in ('daily', 'weekly', 'monthly'):
			m.equal(row['wind_run_distance_%s_average' % name], None, 'a day has a wind run average', period=period)
		m.equal((row['week_start'], row['week_end']), (None, None), 'a day has week dates', period=period)

	# ---- what longer periods take from their days
	def stored_of(self, kind, test):
		return [r for k, r in sorted(self.stored.items()) if k[0] == kind and test(r)]

	def date_of(self, row):
		return datetime.date(row['summary_year'], row['summary_month'], row['summary_day'])

	def longer(self, period):
		m, row = self.m, self.of(period)
		kind = period.kind.lower()
		days = self.stored_of('DAILY', lambda r: period.holds(self.date_of(r)))
		for column in DEGREE_DAYS:
			values = [r[column] for r in days if r[column] is not None]
			m.equal(row[column], sum(values) if values else None, '%s: wrong %s' % (kind, column), period=period, days=values)
			if values:
				m.event('degree_days_summed')
		winds = [[r[c] for c in TEN_MINUTES] for r in days if r[TEN_MINUTES[0]] is not None]
		got = [row[c] for c in TEN_MINUTES]
		if winds:
			best = max(w[0] for w in winds)
			allowed = [w for w in winds if w[0] == best]
			m.check(got in allowed, '%s: wrong best 10-minute average' % kind, period=period, got=got, expected=allowed)
			m.event('best_ten_minutes')
			if len(allowed) > 1:
				m.event('best_tied')
		else:
			m.equal(got, [None] * 4, '%s: a 10-minute average where no day has one' % kind, period=period)
		self.wind_run(period, row, 'daily', days)
		if period.kind == 'YEARLY':
			self.wind_run(period, row, 'weekly', self.stored_of('WEEKLY', lambda r: r['summary_year'] == period.key[1]))
			self.wind_run(period, row, 'monthly', self.stored_of('MONTHLY', lambda r: r['summary_year'] == period.key[1]))
		else:
			m.equal((row['wind_run_distance_weekly_average'], row['wind_run_distance_monthly_average']), (None, None),
					'%s: wind run per week or month' % kind, period=period)
		if period.kind == 'WEEKLY':
			m.equal((row['week_start'], row['week_end']), (period.start, period.end), 'first and last date of a week', period=period)
			m.event('week_dates')
			if period.start.month != period.end.month:
				m.event('week_across_months')
			if period.start.year != period.end.year:
				m.event('week_across_years')
		else:
			m.equal((row['week_start'], row['week_end']), (None, None), '%s: week dates' % kind, period=period)

	def wind_run(self, period, row, name, parts):
		m = self.m
		values = [Fraction(r['wind_run_distance_total']) for r in parts if r['wind_run_distance_total'] is not None]
		column = 'wind_run_distance_%s_average' % name
		what = '%s: wrong %s' % (period.kind.lower(), column)
		if not values:
			m.equal(row[column], None, what, period=period)
		elif sum(values) / len(values) < SLACK and row[column] is None:
			pass  # none to speak of
		else:
			near(m, row[column], sum(values) / len(values), 2, what, period=period, parts=values)
			m.event('wind_run_average')


def comparable(row):
	return dict((k, v) for k, v in row.items() if k != 'summary_id')


# ---- workloads
DECIMALS = {
	'temperature_outside': (-40, 120, 1), 'temperature_inside': (-20, 100, 1), 'barometric_pressure': (28, 31, 3),
	'wind_run_distance_total': (0, 30, 2), 'rain_total': (0, 2, 3), 'rain_rate_high': (0, 9, 2), 'uv_index': (0, 15, 1), 'evapotranspiration': (0, 0.2, 3),
}
INTEGERS = {
	'humidity_outside': (1, 100), 'humidity_inside': (1, 100), 'wind_speed': (0, 60), 'wind_speed_high': (0, 90), 'solar_radiation': (0, 1300),
	'rain_clicks': (0, 60), 'rain_click_rate_high': (0, 900),
}
for _name in ('temperature_outside', 'temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
	for _suffix in ('', '_low', '_high'):
		DECIMALS[_name + _suffix] = (-40, 120, 1)
DECIMALS['dew_point_inside'] = DECIMALS['heat_index_inside'] = (-20, 110, 1)
DECIMALS['uv_index_high'], INTEGERS['solar_radiation_high'] = DECIMALS['uv_index'], INTEGERS['solar_radiation']
NUMBERS = sorted(DECIMALS) + sorted(INTEGERS)
DIRECTIONS = ('wind_speed_direction', 'wind_speed_high_direction')


class Climate(object):
	"""A style of readings: which are absent, how much they vary, and around what."""
	def __init__(self, rng, unique=False):
		self.rng = rng
		self.unique = unique
		self.centers, self.spread = {}, {}
		self.never = set(c for c in NUMBERS + list(DIRECTIONS) if rng.random() < rng.choice((0, 0.05, 0.2)))
		for c in NUMBERS:
			lo, hi = self.limits(c)
			self.spread[c] = rng.choice((1, 2, 5, 30, hi - lo))
			self.centers[c] = rng.choice((0 if lo <= 0 <= hi else lo, rng.randint(lo, hi)))
		self.missing = rng.choice((0, 0.02, 0.1, 0.4))
		self.names = wire.NAMES[:rng.choice((1, 2, 3, 16))]
		self.calm = rng.random() < 0.1
		self.mild = rng.random() < 0.25

	@staticmethod
	def limits(c):
		if c in INTEGERS:
			return INTEGERS[c]
		lo, hi, places = DECIMALS[c]
		return int(lo * 10 ** places), int(hi * 10 ** places)

	def value(self, c, absent):
		rng = self.rng
		if c in absent or c in self.never or rng.random() < self.missing:
			return None
		if c in DIRECTIONS:
			return rng.choice(self.names)
		lo, hi = self.limits(c)
		if self.calm and c in ('wind_speed', 'wind_speed_high', 'rain_total', 'rain_rate_high'):
			return D(0) if c in DECIMALS else 0
		if self.mild and c == 'temperature_outside':
			v = 650 + rng.choice((0, 0, -1, 1, rng.randint(-100, 100)))
		else:
			v = min(hi, max(lo, self.centers[c] + rng.randint(-self.spread[c], self.spread[c])))
		return D(v).scaleb(-DECIMALS[c][2]) if c in DECIMALS else v

	def row(self, at, minutes, absent=()):
		row = {
			'timestamp_weatherlink': wire.timestamp_of(at), 'timestamp_station': at, 'timestamp_utc': at + datetime.timedelta(hours=6),
			'minutes_covered': minutes, 'summary_year': at.year, 'summary_month': at.month, 'summary_day': at.day,
		}
		for c in NUMBERS + list(DIRECTIONS):
			row[c] = self.value(c, absent)
		return row

	def day(self, date, count=None, minutes=None):
		rng = self.rng
		absent = set(c for c in NUMBERS if rng.random() < rng.choice((0, 0, 0.05, 0.3)))
		minutes = minutes or rng.choice((1, 1, 2, 5, 5, 10, 15, 30, 60, 120))
		if count is None:
			count = rng.choice((1, 2, 3, rng.randint(1, 40)))
		count = min(count, 1440 // minutes)
		at = set(rng.sample(range(0, 1440 // minutes), count))
		if rng.random() < 0.3 and count > 12:
			first = rng.randrange(0, 1440 // minutes - count + 1)
			at = set(range(first, first + count))
		if rng.random() < 0.3:
			at.add(0)
		storm = minutes <= 10 and rng.random() < 0.12
		if storm:
			at.update(range(0, rng.randint(11, 14)))
		midnight = datetime.datetime(date.year, date.month, date.day)
		rows = []
		for i in sorted(at):
			covered = minutes if rng.random() < 0.97 else rng.choice((1, 2, 5, 10, 11, 30))
			rows.append(self.row(midnight + datetime.timedelta(minutes=i * minutes), covered, absent))
		if storm:
			# A storm at midnight
			for row in rows:
				at = row['timestamp_station']
				if at.hour * 60 + at.minute < 10 and row['wind_speed'] is not None:
					row['wind_speed'] = max(row['wind_speed'], self.limits('wind_speed')[1] - rng.randrange(3))
		return rows


def with_time(rng, date):
	"""A date as callers have it: at any time of the day."""
	return datetime.datetime(date.year, date.month, date.day) + rng.choice((
		datetime.timedelta(), datetime.timedelta(minutes=rng.randrange(1440)), datetime.timedelta(seconds=rng.randrange(86400)),
		datetime.timedelta(hours=23, minutes=59, seconds=59), datetime.timedelta(microseconds=rng.randrange(86400 * 10 ** 6)),
	))


def insert(rng, server, rows):
	rows = list(rows)
	rng.shuffle(rows)
	server.engine.insert(ARCHIVE, rows)


def span(rng, count=None):
	"""Distinct dates that share weeks, months and years, often across their ends."""
	how = rng.choice(('week', 'month', 'year', 'turn', 'turn', 'turn of month', 'scattered', 'same day', 'same date', 'same week'))
	year = rng.randint(2001, 2061)
	count = count or rng.choice((1, 2, 4, 7, 10))
	if how == 'week':
		first = datetime.date(year, rng.randint(1, 12), rng.randint(1, 28))
		pool = [first + datetime.timedelta(days=i) for i in range(10)]
	elif how == 'month':
		first = datetime.date(year, rng.randint(1, 12), 1)
		pool = [first + datetime.timedelta(days=i) for i in range(-2, 33)]
	elif how == 'year':
		pool = [datetime.date(year, 1, 1) + datetime.timedelta(days=rng.randrange(365)) for _ in range(20)]
	elif how == 'turn':
		pool = [datetime.date(year, 12, 28) + datetime.timedelta(days=i) for i in range(-3, 12)]
	elif how == 'turn of month':
		first = datetime.date(year, rng.choice((2, 3, 4, 9, 12)), 1)
		pool = [first + datetime.timedelta(days=i) for i in range(-6, 7)]
	elif how == 'scattered':
		pool = [datetime.date(year, 1, 1) + datetime.timedelta(days=rng.randrange(-400, 800)) for _ in range(20)]
	elif how == 'same date':
		# Of several years, with a neighbour or two
		first = datetime.date(min(year, 2059), rng.randint(1, 12), rng.randint(1, 27))
		pool = [first.replace(year=first.year + i, day=first.day + j) for i in range(3) for j in range(2)]
	elif how == 'same week':
		first = datetime.date(min(year, 2059), 1, 4) + datetime.timedelta(weeks=rng.randrange(52))
		pool = [first + datetime.timedelta(weeks=52 * i, days=j) for i in range(3) for j in (-1, 0, 1)]
	else:
		day = rng.randint(1, 28)
		pool = [datetime.date(year + i // 12, i % 12 + 1, day) for i in range(24)]
	pool = sorted(set(d for d in pool if 2000 <= d.year <= 2063))
	return how, sorted(rng.sample(pool, min(count, len(pool))))


def all_periods(dates):
	return sorted(set(p for d in dates for p in periods(d)))


def fill(rng, dates, rows_per_day=(1, 8), climates=None):
	"""Archive rows for the dates, of one climate or of several."""
	climates = climates or [Climate(rng) for _ in range(rng.choice((1, 1, 3)))]
	rows = []
	for d in dates:
		rows += rng.choice(climates).day(d, rng.randint(*rows_per_day))
	return rows

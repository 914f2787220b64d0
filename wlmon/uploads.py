"""What an upload to Weather Underground must say."""
import math
import re
from decimal import Decimal
from fractions import Fraction

from wlmon import derive, refmath

NUMBER_RE = re.compile(r'^-?\d+(\.\d+)?$')
SIMPLE_HOST, RAPID_HOST = 'weatherstation.wunderground.com', 'rtupdate.wunderground.com'
SIMPLE = {
	'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_prevailing_degrees', 'windgustmph': 'wind_speed_high',
	'windgustdir': 'wind_direction_speed_high_degrees', 'humidity': 'humidity_outside', 'tempf': 'temperature_outside',
	'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation', 'UV': 'uv_index', 'indoortempf': 'temperature_inside',
	'indoorhumidity': 'humidity_inside',
}
RAPID = {
	'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_degrees', 'windspdmph_avg2m': 'wind_speed_2_minute_average',
	'windgustmph_10m': 'wind_speed_10_minute_gust', 'windgustdir_10m': 'wind_speed_10_minute_gust_direction_degrees',
	'humidity': 'humidity_outside', 'dewptf': 'dew_point', 'tempf': 'temperature_outside', 'rainin': 'rain_amount_1_hour',
	'dailyrainin': 'rain_amount_today', 'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation', 'UV': 'uv_index',
	'indoortempf': 'temperature_inside', 'indoorhumidity': 'humidity_inside',
}
RAPID_COMPUTED = ('windgustmph', 'windgustdir', 'winddir_avg2m')


def simple(readings):
	"""Parameter -> exact value or predicate, for the readings present."""
	result = dict((p, readings[r]) for p, r in SIMPLE.items() if readings.get(r) is not None)
	t, rh = readings.get('temperature_outside'), readings.get('humidity_outside')
	if t is not None and rh:
		result['dewptf'] = derive.About(refmath.dew_point(t, rh))
	return result


def rapid(readings):
	return dict((p, readings[r]) for p, r in RAPID.items() if readings.get(r) is not None)


class Choice(object):
	"""One of these numbers; None among them means that the parameter may be left out."""
	def __init__(self, values):
		self.values = set(values)

	def admits(self, value):
		return value in self.values

	def __repr__(self):
		return 'one of %s' % sorted(map(str, self.values))


class Window(object):
	"""The wind of the packets sent so far, oldest first."""
	GUST, AVERAGE = 25, 49

	def __init__(self):
		self.packets = []

	def add(self, speed, degrees):
		self.packets.append((speed, degrees))

	def computed(self):
		"""Parameter -> Choice, for the newest packet."""
		result = {}
		last = [p for p in self.packets[-self.GUST:] if p[0] is not None]
		if last:
			gust = max(p[0] for p in last)
			result['windgustmph'] = Choice([gust])
			result['windgustdir'] = Choice(d for s, d in last if s == gust)
			if result['windgustdir'].values == {None}:
				del result['windgustdir']
		degrees = [d for _, d in self.packets[-self.AVERAGE:] if d is not None]
		north = math.fsum(math.cos(math.radians(d)) for d in degrees)
		east = math.fsum(math.sin(math.radians(d)) for d in degrees)
		size = math.hypot(north, east)
		if size > 1e-9:
			exact = math.degrees(math.atan2(east, north)) % 360
			near = set(n for n in range(0, 361) if abs((n - exact + 180) % 360 - 180) <= 0.5 + 1e-6)
			if size < 1e-4:
				near.add(None)
			result['winddir_avg2m'] = Choice(near)
		return result


def check(m, request, host, station, password, utc, expected, what):
	"""One request carries exactly these parameters.  utc: a datetime, or None when not judged."""
	m.equal((request.method, request.parts.scheme, request.parts.hostname, request.parts.path),
			('GET', 'http', host, '/weatherstation/updateweatherstation.php'), '%s: request' % what)
	m.check(not request.parts.fragment, '%s: the URL is broken' % what, url=request.url)
	names = [k for k, _ in request.pairs]
	m.check(len(names) == len(set(names)), '%s: a parameter is given twice' % what, url=request.url)
	fixed = {'action': 'updateraw', 'softwaretype': 'WeatherLink', 'ID': station, 'PASSWORD': password}
	for k, v in fixed.items():
		m.equal(request.parameters.get(k), v, '%s: %s' % (what, k), url=request.url)
	if utc is not None:
		m.equal(request.parameters.get('dateutc'), utc.strftime('%Y-%m-%d %H:%M:%S'), '%s: dateutc' % what, url=request.url)
	got = set(names) - set(fixed) - {'dateutc'}
	optional = set(k for k, v in expected.items() if isinstance(v, Choice) and None in v.values)
	m.equal(sorted(got | optional), sorted(expected), '%s: parameters sent' % what, url=request.url)
	for name in sorted(expected):
		if name not in got:
			continue
		text, want = request.parameters[name], expected[name]
		m.check(NUMBER_RE.match(text), '%s: %s is not a number' % (what, name), got=text)
		value = Decimal(text)
		ok = want.admits(value) if isinstance(want, (derive.About, derive.Among, Choice)) else Fraction(value) == Fraction(want)
		m.check(ok, '%s: wrong %s' % (what, name), got=text, expected=want, url=request.url)

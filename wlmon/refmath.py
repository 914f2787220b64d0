"""Reference formulas, restated from their publications in 50-digit decimal arithmetic.  Unrounded values."""
import decimal
from decimal import Decimal as D

CONTEXT = decimal.Context(prec=50, rounding=decimal.ROUND_HALF_EVEN)


def precise(function):
	def wrapper(*args):
		with decimal.localcontext(CONTEXT):
			return function(*[D(a) if isinstance(a, int) else a for a in args])
	return wrapper


@precise
def f_to_c(f):
	return (f - 32) * 5 / 9


@precise
def c_to_f(c):
	return c * 9 / 5 + 32


@precise
def f_to_k(f):
	return (f + D('459.67')) * 5 / 9


@precise
def k_to_f(k):
	return k * 9 / 5 - D('459.67')


@precise
def inhg_to_kpa(p):
	return p / D('0.295299830714')


@precise
def inhg_to_mb(p):
	return p / D('0.0295299830714')


@precise
def mph_to_ms(v):
	return v * D('0.44704')


@precise
def wet_bulb(t, rh, p):
	tc = (t - 32) * 5 / 9
	mb = p / D('0.0295299830714')
	x = 1 - rh / 100
	dew = tc - (D('14.55') + D('0.114') * tc) * x - ((D('2.5') + D('0.007') * tc) * x) ** 3 - (D('15.9') + D('0.117') * tc) * x ** 14
	e = D('6.11') * D(10) ** (D('7.5') * dew / (D('237.7') + dew))
	slope = 4098 * e / (dew + D('237.7')) ** 2
	gamma = D('0.00066') * mb
	return (gamma * tc + slope * dew) / (gamma + slope) * 9 / 5 + 32


@precise
def dew_point(t, rh):
	tc = (t - 32) * 5 / 9
	gamma = (rh / 100).ln() + (D('17.67') - tc / D('234.5')) * tc / (D('243.5') + tc)
	return D('243.5') * gamma / (D('17.67') - gamma) * 9 / 5 + 32


@precise
def heat_index(t, rh):
	"""(unrounded value or None, region)"""
	if t < 70:
		return None, 'none'
	simple = (t + D('61') + (t - 68) * D('1.2') + rh * D('0.094')) / 2
	average = (simple + t) / 2
	if average < 80:
		return average, 'simple'
	value = (
		D('-42.379') + D('2.04901523') * t + D('10.14333127') * rh - D('0.22475541') * t * rh
		- D('0.00683783') * t * t - D('0.05481717') * rh * rh + D('0.00122874') * t * t * rh
		+ D('0.00085282') * t * rh * rh - D('0.00000199') * t * t * rh * rh
	)
	if rh < 13 and 80 <= t <= 112:
		return value - (13 - rh) / 4 * ((17 - abs(t - 95)) / 17).sqrt(), 'dry'
	if rh > 85 and 80 <= t <= 87:
		return value + (rh - 85) / 10 * (87 - t) / 5, 'humid'
	return value, 'regression'


@precise
def wind_chill(t, v):
	"""(unrounded value or None, region); the cap at the air temperature is applied by the caller"""
	if t > 40:
		return None, 'none'
	if v == 0:
		return t, 'calm'
	power = v ** D('0.16')
	value = D('35.74') + D('0.6215') * t - D('35.75') * power + D('0.4275') * t * power
	return value, 'formula'


@precise
def thsw(t, rh, q1, v):
	tc = (t - 32) * 5 / 9
	ws = v * D('0.44704')
	diffuse = q1 * D('0.25')
	q = diffuse / 7 + q1 / 28
	e = rh / 100 * D('6.105') * (D('17.27') * tc / (D('237.7') + tc)).exp()
	value = tc + D('0.348') * e - D('0.70') * ws + D('0.70') * q / (ws + 10) - D('4.25')
	return value * 9 / 5 + 32


TENTH = D('0.1')
EPSILON = D('1e-12')


def rounded(value, rounding, step=TENTH):
	"""The acceptable roundings of a value known to within EPSILON."""
	with decimal.localcontext(CONTEXT):
		return {(value + e).quantize(step, rounding=rounding) for e in (-EPSILON, 0, EPSILON)}


def ceilings(value):
	return rounded(value, decimal.ROUND_CEILING)


def floors(value):
	return rounded(value, decimal.ROUND_FLOOR)


def wind_chills(t, v):
	"""Acceptable wind chill values, or {None}."""
	value, region = wind_chill(t, v)
	if region == 'none':
		return {None}
	if region == 'calm':
		return {D(t)}
	return {D(t) if f > t else f for f in floors(value)}


def heat_indexes(t, rh):
	value, _ = heat_index(t, rh)
	return {None} if value is None else ceilings(value)


def thws(t, rh, v):
	with decimal.localcontext(CONTEXT):
		cut = (D('1.072') * D(v)).quantize(TENTH, rounding=decimal.ROUND_CEILING)
		return {None if h is None else h - cut for h in heat_indexes(t, rh)}


# How far a value rounded to a tenth may lie from the exact formula: half a tenth, plus the formulas' own rounding of
# intermediate units (thousandths of a degree Celsius and the like)
ROUNDED_SLACK = D('0.06')


def close(value, exact, slack=ROUNDED_SLACK):
	with decimal.localcontext(CONTEXT):
		return isinstance(value, D) and value.is_finite() and abs(value - exact) <= slack and value == value.quantize(TENTH)

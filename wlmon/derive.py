"""Independent derivation of a record's calculated values: name -> predicate on the stored value, None when absent."""
from decimal import Decimal as D

from wlmon import refmath

FULL = D('1e-18')


class About(object):
	"""A value rounded to a tenth from this exact value."""
	def __init__(self, exact, slack=refmath.ROUNDED_SLACK):
		self.exact, self.slack = exact, slack

	def admits(self, value):
		return refmath.close(value, self.exact, self.slack)

	def __repr__(self):
		return 'about %.4f' % self.exact


class Among(object):
	def __init__(self, values):
		self.values = set(values)

	def admits(self, value):
		return isinstance(value, (D, int)) and not isinstance(value, bool) and value in self.values

	def __repr__(self):
		return 'one of %s' % sorted(map(str, self.values))


class Near(object):
	"""An unrounded value."""
	def __init__(self, exact):
		self.exact = exact

	def admits(self, value):
		return isinstance(value, D) and abs(value - self.exact) <= FULL

	def __repr__(self):
		return 'exactly %s' % self.exact


def extremes(result, name, values, make):
	"""values: unrounded numbers, or sets of acceptable rounded ones."""
	if not values:
		return
	if make is About:
		result[name] = About(values[0])
		result[name + '_low'] = About(min(values))
		result[name + '_high'] = About(max(values))
	else:
		result[name] = Among(values[0])
		result[name + '_low'] = Among((min(min(v) for v in values), min(max(v) for v in values)))
		result[name + '_high'] = Among((max(min(v) for v in values), max(max(v) for v in values)))


def derive(record):
	"""record: a mapping of readings, None or absent when missing."""
	get = record.get
	result = {}
	t_out, t_low, t_high, t_in = (get('temperature_outside'), get('temperature_outside_low'), get('temperature_outside_high'),
								get('temperature_inside'))
	rh, rh_in, p = get('humidity_outside'), get('humidity_inside'), get('barometric_pressure')
	ws, wsh, sun, sun_high = get('wind_speed'), get('wind_speed_high'), get('solar_radiation'), get('solar_radiation_high')

	if ws:
		result['wind_run_distance_total'] = Near(D(ws) * record['minutes_covered'] / 60)
	if rh and p:
		for name, t in (('', t_out), ('_low', t_low), ('_high', t_high)):
			if t is not None:
				result['temperature_wet_bulb' + name] = About(refmath.wet_bulb(t, rh, p))
	if rh:
		present = [t for t in (t_out, t_low, t_high) if t is not None]
		extremes(result, 'dew_point_outside', [refmath.dew_point(t, rh) for t in present], About)
		extremes(result, 'heat_index_outside', [h for h in (refmath.heat_indexes(t, rh) for t in present) if None not in h], Among)
	if rh_in and t_in is not None:
		result['dew_point_inside'] = About(refmath.dew_point(t_in, rh_in))
		h = refmath.heat_indexes(t_in, rh_in)
		if None not in h:
			result['heat_index_inside'] = Among(h)
	by_height = [t for t in (t_out, t_high, t_low) if t is not None]
	chills = [refmath.wind_chills(t, w) for w in (ws, wsh) if w for t in by_height]
	extremes(result, 'wind_chill', [c for c in chills if None not in c], Among)
	if rh:
		winds = (ws or 0, wsh or 0)
		thw = [refmath.thws(t, rh, w) for t in by_height for w in winds]
		extremes(result, 'thw_index', [v for v in thw if None not in v], Among)
		thsw = [refmath.thsw(t, rh, q, w) for q in (sun, sun_high) if q for t in by_height for w in winds]
		extremes(result, 'thsw_index', thsw, About)
	return result


DERIVED = (
	['wind_run_distance_total', 'dew_point_inside', 'heat_index_inside']
	+ [n + s for n in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index')
		for s in ('', '_low', '_high')]
)


def compare(m, got, record, what):
	"""Check a mapping of derived values (absent or None alike) against the derivation."""
	want = derive(record)
	for name in DERIVED:
		value = got.get(name)
		m.comparisons += 1
		if name in want:
			if value is None:
				m.fail('%s: %s is missing' % (what, name), expected=want[name], record=dict(record))
			if not want[name].admits(value):
				m.fail('%s: wrong %s' % (what, name), got=value, expected=want[name], record=dict(record))
		elif value is not None:
			m.fail('%s: %s is derived from missing readings' % (what, name), got=value, record=dict(record))
	return want

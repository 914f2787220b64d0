"""The fourth round of planted bugs: more of the calculations."""
from bugs import DB, MODELS, MYSQL, UTILS, bug

DBLIB = ('sqlengine', 'mysqld')
PLAIN = '''
import datetime
import sys
from decimal import Decimal as D

from weatherlink import models, utils


def expect(actual, expected, what):
	if actual != expected:
		sys.exit('%s: %r instead of %r' % (what, actual, expected))
'''

bug('c14-millibar-constant', 'C14', [(
	UTILS, "MILLIBAR_MERCURY_CONSTANT = KILOPASCAL_MERCURY_CONSTANT * ONE_TENTH\n",
	"MILLIBAR_MERCURY_CONSTANT = (KILOPASCAL_MERCURY_CONSTANT * ONE_TENTH).quantize(ONE_THOUSANDTH * ONE_THOUSANDTH)\n")],
	'a pressure whose millibars are just beside a rounding boundary', 'It is a hundredth of a millibar off.',
	PLAIN + '''
for p in range(25000, 33000):
	exact = (D(p) / 1000 / D('0.0295299830714')).quantize(D('0.01'))
	expect(utils.convert_inches_of_mercury_to_millibars(D(p) / 1000), exact, 'millibars of %d' % p)
''')

bug('c15-arctic-dew-point', 'C15', [(
	UTILS, "	Tdc = (DP_C * Ym) / (DP_B - Ym)\n", "	Tdc = max((DP_C * Ym) / (DP_B - Ym), -KELVIN_CONSTANT / 10)\n")],
	'very cold and dry air', 'The dew point stops falling below -50 F.',
	PLAIN + '''
expect(utils.calculate_dew_point(D('-40'), 20), D('-66.4'), 'dew point')
''')

bug('c16-rounded-threshold', 'C16', [(
	UTILS, "	if heat_index < HI_SECOND_FORMULA_THRESHOLD:\n		return heat_index.quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)\n",
	"	simple = heat_index.quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)\n	if simple < HI_SECOND_FORMULA_THRESHOLD:\n		return simple\n")],
	'a simple heat index between 79.9 and 80', 'The regression is used where it does not apply yet.',
	PLAIN + '''
found = 0
for t in range(700, 830):
	for h in range(1, 101):
		T = D(t) / 10
		simple = (D('0.5') * (T + 61 + (T - 68) * D('1.2') + h * D('0.094')) + T) / 2
		if D('79.9') < simple < 80:
			expect(utils.calculate_heat_index(T, h), D('80.0'), 'heat index of %s at %d' % (T, h))
			found += 1
expect(found > 0, True, 'temperatures')
''')

bug('c18-thw-floor', 'C18', [(
	UTILS, "	return hi - (THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING)\n",
	"	return max(hi - (THW_INDEX_CONSTANT * WS).quantize(ONE_TENTH, rounding=decimal.ROUND_CEILING), hi - hi / 2)\n")],
	'a storm on a warm day', 'The index stops falling at half the heat index.',
	PLAIN + '''
expect(utils.calculate_thw_index(D('72'), 50, 60), utils.calculate_heat_index(D('72'), 50) - D('64.4'), 'THW index')
''')

bug('c20-int-average', 'C20', [(
	UTILS, "			average = sum(speed_queue) / 10\n", "			average = (sum(speed_queue) / 10).quantize(ONE_TENTH)\n")],
	'wind speeds with tenths', 'The average is rounded, and a later window of the same rounded average is not found.',
	PLAIN + '''
T = datetime.datetime(2016, 3, 5, 12)
records = [(D('5.1') if i == 11 else D('5.0'), 'N', T + datetime.timedelta(minutes=i), 1) for i in range(12)]
expect(utils.calculate_10_minute_wind_average(records)[0], D('5.01'), 'average')
''')

bug('c21-low-by-position', 'C21', [(
	UTILS, "			arguments['dew_point_outside_low'] = min(a)\n", "			arguments['dew_point_outside_low'] = a[min(1, len(a) - 1)]\n")],
	'a record without a low temperature', 'The low dew point is that of the high temperature.',
	PLAIN + '''
r = models.ArchiveIntervalRecord(minutes_covered=5, temperature_outside=D('70'), temperature_outside_high=D('80'), humidity_outside=50)
values = utils.calculate_all_record_values(r)
expect(values['dew_point_outside_low'], values['dew_point_outside'], 'low dew point')
''')

bug('c24-wind-by-insertion', 'C24', [(
	MYSQL, "				'ORDER BY timestamp_station;'\n			)\n			cursor.execute(query, [year, month, day])\n",
	"				'ORDER BY record_id;'\n			)\n			cursor.execute(query, [year, month, day])\n")],
	'records that were exported out of order', 'The 10-minute average mixes minutes that do not follow each other.',
	DB + '''
with mysqld.Server(1) as server:
	with mysqld.exporter(server) as e:
		order = list(range(1, 41))
		order = order[::2] + order[1::2]
		for minute in order:
			r = record(T(2016, 3, 5, 12, minute), wind_speed=40 if 10 <= minute < 20 else 2, wind_direction_prevailing=WindDirection.N, wind_speed_direction=WindDirection.N)
			r['minutes_covered'] = 1
			e.export_record(r)
		e.recalculate_summaries_for_dates([T(2016, 3, 5)])
	row = [r for r in server.rows('weather_calculated_summary') if r['summary_type'] == 'DAILY'][0]
	expect(row['wind_speed_high_10_minute_average'], 40, 'average')
''', DBLIB)

bug('c34-exact-inch', 'C34', [(
	MODELS, "RainCollectorTypeDatabase.inches_0_01.clicks_to_centimeters = lambda c: c / _INCHES_PER_CENTIMETER * _HUNDREDTHS\n",
	"RainCollectorTypeDatabase.inches_0_01.clicks_to_centimeters = lambda c: c * decimal.Decimal('0.0254')\n")],
	'many clicks', 'Inches and centimeters of the same rain do not agree.',
	PLAIN + '''
r = models.RainCollectorTypeDatabase.inches_0_01
expect(round(r.clicks_to_centimeters(D(1000)) * D('0.393701'), 18), round(r.clicks_to_inches(D(1000)), 18), 'inches')
''')

bug('c35-none-is-kept-out', 'C35', [(
	MODELS, "	def __setattr__(self, name, value):\n		self[name] = value\n",
	"	def __setattr__(self, name, value):\n		if value is not None or name not in self:\n			self[name] = value\n")],
	'a reading that is set to None', 'It keeps its value.',
	PLAIN + '''
r = models.ArchiveIntervalRecord(temperature_outside=D('70'))
r.temperature_outside = None
expect(r['temperature_outside'], None, 'temperature')
''')

bug('c37-wraps-around', 'C37', [(
	MODELS, "		if degrees < 1 or degrees > 360:\n			return None\n		return _WindDirection__FROM_DEGREE_MAP[degrees]\n",
	"		if degrees < 0 or degrees > 360:\n			return None\n		return _WindDirection__FROM_DEGREE_MAP[degrees or 360]\n")],
	'the bearing 0, which the console uses for no direction', 'There is a north wind where there is none.',
	PLAIN + '''
expect(models.WindDirection.from_degrees(0), None, 'direction')
''')

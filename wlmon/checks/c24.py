"""Daily summaries: the true statistics of the day's records, and nothing from any other day."""
import bz2
import datetime
import os
import shutil
import tempfile

from wlmon import core, mysqld, summary, wire


SAMPLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'sample-database-2016-04.wlk.bz2')
# Summary of the station's own software -> column -> how far apart they may be: it saw every packet, the columns come from records
STATION = (
	('temperature_outside_high', 'temperature_outside_high', 0.4), ('temperature_outside_low', 'temperature_outside_low', 0.4),
	('temperature_outside_average', 'temperature_outside_average', 0.3), ('temperature_inside_high', 'temperature_inside_high', 0.4),
	('temperature_inside_low', 'temperature_inside_low', 0.4), ('temperature_inside_average', 'temperature_inside_average', 0.3),
	('dew_point_average', 'dew_point_outside_average', 0.5), ('humidity_outside_high', 'humidity_outside_high', 1.5),
	('humidity_outside_low', 'humidity_outside_low', 1.5), ('humidity_outside_average', 'humidity_outside_average', 1.1),
	('humidity_inside_high', 'humidity_inside_high', 1.5), ('humidity_inside_low', 'humidity_inside_low', 1.5),
	('barometric_pressure_high', 'barometric_pressure_high', 0.005), ('barometric_pressure_low', 'barometric_pressure_low', 0.005),
	('barometric_pressure_average', 'barometric_pressure_average', 0.003), ('wind_speed_high', 'wind_speed_high', 0.001),
	('wind_speed_average', 'wind_speed_average', 0.1), ('wind_daily_run', 'wind_run_distance_total', 1.0), ('rain_total', 'rain_total', 0.0005),
	('rain_rate_high', 'rain_rate_high', 0.005),
)


class CHECK(core.Check):
	id = 'C24'
	rule = (
		'Days of generated archive rows (every column independent, absent readings and columns, ties, zeros, calm and mild '
		'days, 1 to 120 minute and mixed intervals) next to neighbouring days with other values, in shuffled insertion '
		'order, recalculated by the real exporter over the simulated server. Non-trivial: a distinct day.'
	)
	required = ('day', 'direction', 'heating', 'cooling', 'no_temperature', 'ten_minute_average', 'no_ten_minute_average', 'empty_column', 'full_day',
				'month_file_or_download', 'agrees_with_station')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'days', 150, 4000):
			yield c
		for c in self.seeded(tier, seed, 'full', 10, 200):
			yield c
		for c in self.seeded(tier, seed, 'exported', 30, 600):
			yield c
		for c in self.seeded(tier, seed, 'station', 5, 40):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'station':
			return self.station(m, rng, case['seed'])
		with mysqld.Server(case['seed']) as server:
			with mysqld.exporter(server) as exporter:
				date = wire.random_date(rng).date()
				if rng.random() < 0.4:
					date = date.replace(month=rng.choice((1, 2, 3, 12)), day=rng.choice((1, 28)))
				if case['kind'] == 'exported':
					dates = self.exported(m, rng, exporter, date)
				else:
					dates = self.generated(m, rng, server, date, case['kind'] == 'full')
				given = [summary.with_time(rng, d) for d in dates]
				rng.shuffle(given)
				given = rng.choice((given, tuple(given), set(given), iter(given)))
				m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, given)
				judge = summary.Judge(m, server)
				for d in dates:
					period = summary.periods(d)[0]
					judge.statistics(period)
					judge.day(period)
					m.event('day')
					rows = judge.records(period)
					m.event('empty_column', sum(1 for c in summary.NUMBERS if all(r[c] is None for r in rows)))
					m.nontrivial(repr([sorted((k, str(v)) for k, v in r.items()) for r in rows]))
					m.seen('records in a day', len(rows))
				m.sample({'dates': [str(d) for d in dates], 'rows': len(judge.rows)})
				daily = set(k for k in judge.stored if k[0] == 'DAILY')
				m.equal(daily, set(summary.periods(d)[0].key for d in dates), 'daily summaries present')

	def generated(self, m, rng, server, date, full):
		dates = [date]
		step = rng.choice((1, 1, 2, 7, 30, 365, 366))
		for i in range(1, rng.choice((1, 2, 3))):
			dates.append(date + datetime.timedelta(days=i * step))
		rows = []
		for d in dates:
			climate = summary.Climate(rng)
			if full:
				climate.missing = 0
				minutes = rng.choice((5, 10, 10))
				rows += climate.day(d, 1440 // minutes, minutes)
				m.event('full_day')
			else:
				rows += climate.day(d)
		# Neighbours of the days, which must not count
		for d in dates:
			for other in (d - datetime.timedelta(days=1), d + datetime.timedelta(days=1), self.alike(d, rng)):
				if other and other not in dates and 2000 <= other.year <= 2063 and not any(r['timestamp_station'].date() == other for r in rows) and rng.random() < 0.5:
					rows += summary.Climate(rng).day(other, rng.randint(1, 4))
		summary.insert(rng, server, rows)
		return dates

	def alike(self, date, rng):
		"""The same day of another month or year."""
		try:
			return date.replace(**rng.choice(({'month': date.month % 12 + 1}, {'year': date.year + 1})))
		except ValueError:
			return None

	def exported(self, m, rng, exporter, date):
		"""Records of the real decoders, stored by the real exporter."""
		from wlmon import stored
		minutes = rng.choice((5, 10, 15, 30))
		dash = rng.choice((0, 0.05, 0.3))
		at = rng.sample(range(1440 // minutes), rng.randint(1, 30))
		count = 0
		for i in sorted(at):
			d = datetime.datetime(date.year, date.month, date.day) + datetime.timedelta(minutes=i * minutes)
			record, _ = stored.make(rng, date=d, minutes=minutes, dash=dash)
			count += m.call(exporter.export_record, record).ok
		if count:
			m.event('month_file_or_download')
		return [date]

	def station(self, m, rng, seed):
		"""Days of a real station against the summaries its own software made of them."""
		from weatherlink.importer import Importer
		directory = tempfile.mkdtemp(prefix='wlmon-sample-')
		try:
			path = os.path.join(directory, '2016-04.wlk')
			with open(SAMPLE, 'rb') as f, open(path, 'wb') as g:
				g.write(bz2.decompress(f.read()))
			importer = m.returns('Importer', Importer, path)
			m.returns('import_data', importer.import_data)
		finally:
			shutil.rmtree(directory, ignore_errors=True)
		m.equal(len(importer.records), 7130, 'records of the sample')
		days = rng.sample(sorted(importer.daily_records), rng.randint(1, 2))
		with mysqld.Server(seed) as server:
			with mysqld.exporter(server) as exporter:
				for day in days:
					for record in importer.daily_records[day]:
						m.returns('export_record', exporter.export_record, record)
				dates = [datetime.date(2016, 4, day) for day in days]
				m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, [summary.with_time(rng, d) for d in dates])
			judge = summary.Judge(m, server)
			for d in dates:
				period = summary.periods(d)[0]
				judge.statistics(period)
				judge.times(period)
				judge.day(period)
				row, own = judge.of(period), importer.daily_summaries[d.day]
				for theirs, column, within in STATION:
					m.comparisons += 1
					if own[theirs] is None or row[column] is None or abs(float(own[theirs]) - float(row[column])) > within:
						m.fail("a day's %s is far from what the station itself reports" % column, day=d, station=own[theirs], stored=row[column])
				m.event('agrees_with_station')
				m.nontrivial((d, tuple(sorted(days))))

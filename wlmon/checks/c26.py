"""Weekly, monthly and yearly summaries: exactly their own records, and their own days' degree days and best winds."""
import datetime

from wlmon import core, mysqld, summary


class CHECK(core.Check):
	id = 'C26'
	rule = (
		'Dates that share weeks, months and years across their ends (ISO weeks of another year, leap days, the same day of '
		'other months), with neighbours just outside each period, recalculated in one call or date by date. Non-trivial: a '
		'distinct set of records.'
	)
	required = (
		'weekly', 'monthly', 'yearly', 'direction', 'degree_days_summed', 'best_ten_minutes', 'wind_run_average', 'week_dates', 'week_across_months',
		'week_across_years', 'one_call', 'date_by_date',
	)

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'span', 150, 4000):
			yield c
		for c in self.seeded(tier, seed, 'year', 4, 40):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'year':
			first = datetime.date(rng.randint(2001, 2061), 1, 1)
			how, dates = 'whole', [first + datetime.timedelta(days=i) for i in range(-4, 371, rng.choice((5, 9, 13)))]
		else:
			how, dates = summary.span(rng)
		climates = [summary.Climate(rng) for _ in range(rng.choice((1, 1, 3)))]
		if rng.random() < 0.7:
			for climate in climates:
				climate.never -= {'wind_speed', 'wind_run_distance_total', 'temperature_outside'}
		rows = []
		for d in dates:
			climate = rng.choice(climates)
			if rng.random() < 0.4:
				minutes = rng.choice((1, 2, 5, 10))
				rows += climate.day(d, rng.randint(13, 20) if minutes == 1 else rng.randint(1, 12), minutes)
			else:
				rows += climate.day(d, rng.randint(1, 8))
			if rng.random() < 0.2:  # the last minute of the day
				late = datetime.datetime(d.year, d.month, d.day, 23, 59)
				if not any(r['timestamp_station'] == late for r in rows):
					rows.append(climate.row(late, 1))
		with mysqld.Server(case['seed']) as server:
			summary.insert(rng, server, rows)
			with mysqld.exporter(server) as exporter:
				given = [summary.with_time(rng, d) for d in dates]
				rng.shuffle(given)
				if case['kind'] == 'year' or rng.random() < 0.6:
					m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, given)
					m.event('one_call')
				else:
					while given:
						n = rng.choice((1, 1, 2, 3))
						m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, given[:n])
						given = given[n:]
					m.event('date_by_date')
			judge = summary.Judge(m, server)
			for period in summary.all_periods(dates):
				if period.kind != 'DAILY':
					judge.statistics(period)
					judge.longer(period)
					m.event(period.kind.lower())
			m.equal(sorted(judge.stored), sorted(p.key for p in summary.all_periods(dates)), 'periods summarized')
		m.seen('span', how)
		m.seen('week', [d.isocalendar()[:2] for d in dates])
		m.nontrivial(repr([sorted((k, str(v)) for k, v in r.items()) for r in rows]))
		m.sample({'span': how, 'dates': [str(d) for d in dates], 'records': len(rows)})

"""Recalculating summaries: idempotent, independent of order, and without effect on anything else."""
import contextlib
import datetime

from wlmon import core, mysqld, summary

# Where several are equally right, any of them is: judged by C24 and C26 rules instead of by equality
TIED = ('wind_direction_prevailing', 'wind_speed_high_direction') + summary.TEN_MINUTES


def untied(row):
	return dict((k, v) for k, v in row.items() if k not in TIED and k != 'summary_id')


class CHECK(core.Check):
	id = 'C27'
	rule = (
		'Histories of recalculations of random subsets of dates in random order with duplicates, with the same or a new '
		'exporter, and of records that arrive, change or are removed between them; after every step the whole database is compared. Non-trivial: '
		'a distinct history.'
	)
	required = ('recalculated', 'same_again', 'duplicates', 'later_records', 'untouched_period', 'untouched_tables', 'reconnected', 'one_exporter', 'turn_of_the_year', 'judged_at_the_end', 'one_pass_dates', 'dates_of_a_collection', 'corrected_records')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'history', 110, 3000):
			yield c
		for c in self.seeded(tier, seed, 'turn', 20, 600):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		then = []
		if case['kind'] == 'turn':
			how, dates, then = self.turn(rng)
		else:
			how, dates = summary.span(rng, rng.choice((1, 2, 4, 6)))
		climate = summary.Climate(rng)
		keep = rng.random() < (0.7 if then else 0.4)
		with mysqld.Server(case['seed']) as server, contextlib.ExitStack() as stack:
			# One exporter for the whole history, or a new one each time
			self.exporter = None
			if keep:
				self.exporter = stack.enter_context(mysqld.exporter(server))
				m.event('one_exporter')
			summary.insert(rng, server, summary.fill(rng, dates, (1, 6), [climate]))
			self.others(rng, server)
			history, done = [], []
			self.recalculate(m, rng, server, dates, dates, history)
			done = list(dates)
			for step, chosen in then:
				done += [d for d in chosen if d not in done]
				self.arrive(rng, server, climate, chosen)
				self.recalculate(m, rng, server, chosen, done, history, step)
				m.event('turn_of_the_year')
			for _ in range(rng.randint(0 if then else 1, 4)):
				step = rng.choice(('again', 'again', 'some', 'later', 'later', 'corrected', 'corrected', 'new day'))
				if step == 'again':
					chosen = done
				elif step == 'some':
					chosen = rng.sample(done, rng.randint(1, len(done)))
				elif step == 'later':
					chosen = rng.sample(done, rng.randint(1, min(2, len(done))))
					self.arrive(rng, server, climate, chosen)
					m.event('later_records')
				elif step == 'corrected':
					chosen = rng.sample(done, rng.choice((1, len(done), rng.randint(1, len(done)))))
					self.correct(m, rng, server, climate, chosen)
				else:
					d = rng.choice(done) + datetime.timedelta(days=rng.choice((-1, 1, 3, 31)))
					if d in done or not 2000 <= d.year <= 2063:
						continue
					chosen = [d]
					done.append(d)
					self.arrive(rng, server, climate, chosen)
				self.recalculate(m, rng, server, chosen, done, history, step)
			# Nothing of it is out of date in the end
			judge = summary.Judge(m, server)
			for period in summary.all_periods(done):
				judge.statistics(period)
				if period.kind == 'DAILY':
					judge.day(period)
				else:
					judge.longer(period)
				m.event('judged_at_the_end')
			m.nontrivial((case['seed'], history))
			m.sample({'span': how, 'history': history})

	def turn(self, rng):
		"""Days of a week that counts toward the other year than theirs, before and after that year has a summary."""
		while True:
			year = rng.randint(2001, 2060)
			at = datetime.date(year, 1, 1) + datetime.timedelta(days=rng.randint(-3, 2))
			other = at.isocalendar()[0]
			if other != at.year:
				break
		same = [at + datetime.timedelta(days=i) for i in range(-6, 7)]
		inside = [d for d in same if d.isocalendar()[:2] == at.isocalendar()[:2] and d.year == other]
		far = datetime.date(other, rng.randint(2, 11), rng.randint(1, 28))
		outside = [d for d in same if d.isocalendar()[:2] == at.isocalendar()[:2] and d.year == at.year]
		first = rng.choice((outside, [at], [far], [at, far]))
		then = [('turn', [at])] if rng.random() < 0.5 else []
		then += [('turn', [rng.choice(inside + [far])]), ('turn', [rng.choice(outside)])]
		if rng.random() < 0.5:
			then += [('turn', [rng.choice(outside + inside)]), ('turn', [at])]
		return 'turn of the year', list(first), then

	def others(self, rng, server):
		"""Rows that recalculating has nothing to do with."""
		at = datetime.datetime(2015, rng.randint(1, 12), rng.randint(1, 28))
		server.engine.insert('weather_rain_event', [
			dict(timestamp_start=at, timestamp_end=at + datetime.timedelta(hours=2), timestamp_rain_rate_high=at, rain_total=1, rain_rate_average=1,
				rain_rate_high=1),
		])
		server.engine.insert(summary.SUMMARY, [
			dict(summary_type='ALL_TIME', summary_year=2000, summary_month=0, summary_week=0, summary_day=0, rain_total=99),
			dict(summary_type='YEARLY', summary_year=1999, summary_month=0, summary_week=0, summary_day=0, rain_total=98),
			dict(summary_type='DAILY', summary_year=1999, summary_month=12, summary_week=0, summary_day=31, rain_total=97),
		])

	def arrive(self, rng, server, climate, dates):
		rows = []
		for d in dates:
			taken = set(r['timestamp_station'] for r in server.rows() if r['timestamp_station'].date() == d)
			rows += [r for r in climate.day(d, rng.randint(1, 4)) if r['timestamp_station'] not in taken]
			if not rows:
				for minute in rng.sample(range(1440), 5):
					at = datetime.datetime(d.year, d.month, d.day) + datetime.timedelta(minutes=minute)
					if at not in taken:
						rows.append(climate.row(at, 5))
						break
		summary.insert(rng, server, rows)

	def correct(self, m, rng, server, climate, dates):
		"""Records of these days are removed, or lose or change readings: found to be wrong after they were summarized."""
		how = rng.choice(('removed', 'thinned', 'readings removed', 'wind removed', 'readings replaced'))
		columns = rng.sample(summary.NUMBERS, rng.randint(1, len(summary.NUMBERS)))
		if how == 'wind removed':
			columns = ['wind_speed', 'wind_speed_high', 'wind_run_distance_total', 'wind_speed_direction', 'wind_speed_high_direction']

		def change(row):
			if row['timestamp_station'].date() not in dates:
				return row
			if how == 'removed' or how == 'thinned' and rng.random() < 0.5:
				return None
			if how != 'thinned':
				for c in columns:
					row[c] = climate.value(c, ()) if how == 'readings replaced' else None
			return row
		server.engine.amend(summary.ARCHIVE, change)
		m.event('corrected_records')

	def recalculate(self, m, rng, server, chosen, done, history, step='first'):
		before = dict((tuple(r[k] for k in summary.KEYS), r) for r in server.rows(summary.SUMMARY))
		archive, events = server.rows(summary.ARCHIVE), server.rows('weather_rain_event')
		given = [summary.with_time(rng, d) for d in chosen]
		if rng.random() < 0.5:
			given += [summary.with_time(rng, rng.choice(chosen)) for _ in range(rng.randint(1, 3))]
			m.event('duplicates')
		rng.shuffle(given)
		calls = [[g] for g in given] if step != 'later' and rng.random() < 0.3 else [given]
		form = rng.choice((list, list, tuple, set, iter, dict.fromkeys, (lambda call: (g for g in call))))
		m.event('one_pass_dates' if form not in (list, tuple, set, dict.fromkeys) else 'dates_of_a_collection')
		with contextlib.ExitStack() as stack:
			exporter = self.exporter
			if exporter is None:
				exporter = stack.enter_context(mysqld.exporter(server))
				m.event('reconnected')
			for call in calls:
				m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, form(call))
		history.append((step, [str(g) for g in given]))
		m.equal(server.rows(summary.ARCHIVE), archive, 'recalculating changed the archive records')
		m.equal(server.rows('weather_rain_event'), events, 'recalculating changed the rain events')
		m.event('untouched_tables')
		judge = summary.Judge(m, server)  # also: never two rows for a period
		m.event('recalculated')
		fresh = set(p.key for p in summary.all_periods(chosen))
		years = set(p.key[1] for p in summary.all_periods(chosen) if p.kind == 'WEEKLY')
		expected = set(before) | fresh
		m.equal(set(judge.stored), expected, 'periods summarized')
		for key in sorted(expected - fresh):
			if key[0] == 'YEARLY' and key[1] in years and key in before:
				continue  # has a week in common with them
			m.equal(judge.stored[key], before[key], 'the summary of another period was changed', period=key, recalculated=given)
			m.event('untouched_period')
		if step in ('again', 'some'):
			for key in sorted(fresh):
				m.equal(untied(judge.stored[key]), untied(before[key]), 'recalculating again gave another summary', period=key)
				m.event('same_again')
		for period in summary.all_periods(chosen):
			judge.statistics(period)
			judge.times(period)
			if period.kind == 'DAILY':
				judge.day(period)
			else:
				judge.longer(period)

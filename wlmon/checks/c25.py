"""When each extreme of a summary was first reached."""
from wlmon import core, mysqld, summary


class CHECK(core.Check):
	id = 'C25'
	rule = (
		'Days, weeks, months and years of generated archive rows with narrow ranges, so that extremes are reached again '
		'and zeros are common, inserted in shuffled order and recalculated by the real exporter. Non-trivial: a distinct '
		'set of records.'
	)
	required = ('time', 'reached_again', 'zero_degrees', 'zero_untimed', 'no_extreme', 'daily', 'weekly', 'monthly', 'yearly')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'span', 150, 4000):
			yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		how, dates = summary.span(rng)
		climates = [summary.Climate(rng) for _ in range(rng.choice((1, 1, 2)))]
		for climate in climates:
			for c in summary.NUMBERS:
				if rng.random() < 0.6:
					climate.spread[c] = rng.choice((0, 1, 2, 3))
				if rng.random() < 0.4:
					lo, hi = climate.limits(c)
					climate.centers[c] = min(hi, max(lo, 0))
		rows = summary.fill(rng, dates, climates=climates)
		with mysqld.Server(case['seed']) as server:
			summary.insert(rng, server, rows)
			with mysqld.exporter(server) as exporter:
				given = [summary.with_time(rng, d) for d in dates]
				rng.shuffle(given)
				m.returns('recalculate_summaries_for_dates', exporter.recalculate_summaries_for_dates, given)
			judge = summary.Judge(m, server)
			for period in summary.all_periods(dates):
				judge.times(period)
				m.event(period.kind.lower())
		m.seen('span', how)
		m.nontrivial(repr([sorted((k, str(v)) for k, v in r.items()) for r in rows]))
		m.sample({'span': how, 'dates': [str(d) for d in dates], 'records': len(rows)})

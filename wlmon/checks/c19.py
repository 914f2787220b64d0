"""Degree days: exact distances from 65 F, on the right side only."""
from decimal import Decimal as D

from wlmon import core


class CHECK(core.Check):
	id = 'C19'
	rule = (
		'Average temperatures in hundredths from -80 to 150 F, integers, and the five-decimal averages of the database '
		'around 65. Non-trivial: a distinct block of averages.'
	)
	required = ('heating', 'cooling', 'neither', 'integer')

	def cases(self, tier, seed):
		for start in range(-8000, 15000, 250):
			yield {'kind': 'block', 'start': start}
		for c in self.seeded(tier, seed, 'fine', 60, 1000):
			yield c

	def one(self, m, t):
		import weatherlink.utils as utils
		heating = m.returns('calculate_heating_degree_days', utils.calculate_heating_degree_days, t)
		cooling = m.returns('calculate_cooling_degree_days', utils.calculate_cooling_degree_days, t)
		m.equal(heating, 65 - t if t < 65 else None, 'heating degree days', t=t)
		m.equal(cooling, t - 65 if t > 65 else None, 'cooling degree days', t=t)
		m.check(not isinstance(heating, float) and not isinstance(cooling, float), 'degree days are binary floats', t=t)
		m.event('heating' if t < 65 else 'cooling' if t > 65 else 'neither')

	def run(self, case, m):
		if case['kind'] == 'block':
			for t in range(case['start'], case['start'] + 251):
				self.one(m, D(t) / 100)
				if t % 100 == 0:
					self.one(m, t // 100)
					m.event('integer')
			m.nontrivial(case['start'])
			m.sample(case)
			return
		rng = core.rng_for(case['seed'])
		for _ in range(50):
			self.one(m, D(65) + D(rng.choice((0, 1, -1, rng.randint(-99999, 99999)))) / 100000)
		m.nontrivial(case['seed'])

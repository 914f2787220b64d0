"""Wet bulb temperature and dew point against their formulas."""
from decimal import Decimal as D

from wlmon import core, refmath


class CHECK(core.Check):
	id = 'C15'
	rule = (
		'A grid of temperatures (tenths) by humidity 1 to 100 with varied pressure, as integers and decimals, plus random '
		'decimals. Non-trivial: a distinct temperature row.'
	)
	required = ('dew_point', 'wet_bulb', 'integer', 'humidity_ordered')

	def cases(self, tier, seed):
		step = 1 if tier == 'thorough' else 7
		for t in range(-400 + seed % step, 1501, step):
			yield {'kind': 'row', 't': t}
		for t in range(-40, 151):
			yield {'kind': 'integers', 't': t}
		for c in self.seeded(tier, seed, 'random', 80, 2000):
			yield c

	def dew(self, m, t, rh):
		import weatherlink.utils as utils
		got = m.returns('calculate_dew_point', utils.calculate_dew_point, t, rh)
		exact = refmath.dew_point(t, rh)
		m.check(refmath.close(got, exact), 'wrong dew point', t=t, rh=rh, got=got, exact=exact)
		m.check(got <= t + D('0.05'), 'the dew point exceeds the air temperature', t=t, rh=rh, got=got)
		m.event('dew_point')
		return got

	def wet(self, m, t, rh, p):
		import weatherlink.utils as utils
		got = m.returns('calculate_wet_bulb_temperature', utils.calculate_wet_bulb_temperature, t, rh, p)
		exact = refmath.wet_bulb(t, rh, p)
		m.check(refmath.close(got, exact), 'wrong wet bulb temperature', t=t, rh=rh, p=p, got=got, exact=exact)
		m.event('wet_bulb')
		return got

	def run(self, case, m):
		if case['kind'] == 'random':
			rng = core.rng_for(case['seed'])
			for _ in range(20):
				t = D(rng.randint(-40000, 150000)) / 1000
				rh = D(rng.randint(10, 1000)) / 10
				self.dew(m, t, rh)
				self.wet(m, t, rh, D(rng.randint(25000, 33000)) / 1000)
			m.nontrivial(case['seed'])
			return
		integers = case['kind'] == 'integers'
		t = case['t'] if integers else D(case['t']) / 10
		step = 13 if integers else 3
		last = None
		for rh in range(1 + case['t'] % step, 101, step):
			got = self.dew(m, t, rh if integers or rh % 2 else D(rh))
			m.check(last is None or got >= last, 'the dew point falls as humidity rises', t=t, rh=rh, got=got, last=last)
			last = got
			m.event('humidity_ordered')
			p = 25 + (case['t'] + rh) % 9 if integers else D(25000 + (case['t'] * 37 + rh * 101) % 8001) / 1000
			self.wet(m, t, rh if integers or rh % 2 else D(rh), p)
			if integers:
				m.event('integer')
		m.nontrivial((case['kind'], case['t']))
		m.sample({'t': str(t), 'dew point at high humidity': str(last)})

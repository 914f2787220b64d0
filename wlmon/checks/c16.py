"""Heat index: the National Weather Service procedure in every region."""
from decimal import Decimal as D

from wlmon import core, refmath


class CHECK(core.Check):
	id = 'C16'
	rule = (
		'Every tenth of a degree from 0 to 150 F by every whole percent of humidity (thorough: every tenth), as integers and '
		'decimals; random decimals around the region edges. Non-trivial: a distinct temperature row.'
	)
	required = ('none', 'simple', 'regression', 'dry', 'humid', 'integer')

	def cases(self, tier, seed):
		for t in range(0, 1501):
			yield {'kind': 'row', 't': t, 'fine': tier == 'thorough'}
		for c in self.seeded(tier, seed, 'edges', 80, 1500):
			yield c

	def one(self, m, t, rh):
		import weatherlink.utils as utils
		got = m.returns('calculate_heat_index', utils.calculate_heat_index, t, rh)
		value, region = refmath.heat_index(t, rh)
		want = {None} if value is None else refmath.ceilings(value)
		m.check((got is None and None in want) or (got is not None and isinstance(got, D) and got in want),
				'wrong heat index', t=t, rh=rh, got=got, expected=sorted(want, key=str), region=region)
		m.event(region)

	def run(self, case, m):
		if case['kind'] == 'row':
			t = D(case['t']) / 10
			if case['fine'] and case['t'] >= 690:
				for rh in range(0, 1001):
					self.one(m, t, D(rh) / 10)
			else:
				for rh in range(0, 101) if case['t'] >= 690 else (0, 1, 50, 100):
					self.one(m, t, rh)
			if case['t'] % 10 == 0:
				for rh in range(0, 101):
					self.one(m, case['t'] // 10, rh)
					m.event('integer')
			m.nontrivial(case['t'])
			m.sample({'t': str(t)})
			return
		rng = core.rng_for(case['seed'])
		for _ in range(40):
			t = D(rng.choice((70, 80, 87, 95, 112, 78, 79, 81))) + D(rng.randint(-300, 300)) / rng.choice((100, 1000))
			rh = D(rng.choice((13, 85, 0, 50, 100, 40))) + D(rng.randint(-300, 300)) / rng.choice((100, 1000))
			self.one(m, t, max(D(0), min(D(100), rh)))
		m.nontrivial(case['seed'])

"""Wind chill: the National Weather Service formula, never above the air temperature."""
from decimal import Decimal as D

from wlmon import core, refmath


class CHECK(core.Check):
	id = 'C17'
	rule = (
		'Every tenth of a degree from -60 to 60 F by wind speeds 0 to 150 mph (quick: every third row), as integers and '
		'decimals; light wind and thresholds in tenths and finer. Non-trivial: a distinct temperature row.'
	)
	required = ('none', 'calm', 'formula', 'capped', 'integer')

	def cases(self, tier, seed):
		step = 1 if tier == 'thorough' else 3
		for t in range(-600 + seed % step, 601, step):
			yield {'kind': 'row', 't': t}
		for t in (400, 401, 0, 399, -1, 1):
			yield {'kind': 'row', 't': t}
		for t in range(-60, 61):
			yield {'kind': 'integers', 't': t}
		for c in self.seeded(tier, seed, 'edges', 80, 1500):
			yield c

	def one(self, m, t, v):
		import weatherlink.utils as utils
		got = m.returns('calculate_wind_chill', utils.calculate_wind_chill, t, v)
		want = refmath.wind_chills(t, v)
		m.check(got is None if None in want else (isinstance(got, (D, int)) and got in want),
				'wrong wind chill', t=t, v=v, got=got, expected=sorted(want, key=str))
		m.check(got is None or got <= t, 'the wind chill exceeds the air temperature', t=t, v=v, got=got)
		value, region = refmath.wind_chill(t, v)
		m.event('capped' if region == 'formula' and value > t else region)

	def run(self, case, m):
		if case['kind'] == 'row':
			t = D(case['t']) / 10
			for v in range(0, 151) if case['t'] <= 410 else (0, 1, 10, 150):
				self.one(m, t, v if v % 2 else D(v))
			for tenths in range(0, 60):
				if case['t'] <= 410:
					self.one(m, t, D(tenths) / 10)
		elif case['kind'] == 'integers':
			for v in range(0, 151, 2):
				self.one(m, case['t'], v)
				m.event('integer')
		else:
			rng = core.rng_for(case['seed'])
			for _ in range(40):
				t = D(rng.choice((40, 0, -10, 39, 20))) + D(rng.randint(-300, 300)) / rng.choice((100, 1000))
				self.one(m, t, D(rng.randint(0, 6000)) / rng.choice((10, 100, 1000)))
			m.nontrivial(case['seed'])
			return
		m.nontrivial((case['kind'], case['t']))
		m.sample(case)

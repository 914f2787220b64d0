"""THW and THSW indexes against their formulas, with their monotonic relations."""
from decimal import Decimal as D

from wlmon import core, refmath


class CHECK(core.Check):
	id = 'C18'
	rule = (
		'Random and boundary points of (temperature, humidity, radiation, wind), integers and decimals, each with a windier '
		'and a sunnier neighbour. Non-trivial: a distinct block of points.'
	)
	required = ('thw', 'thw_none', 'thsw', 'windier', 'sunnier', 'integer')

	def cases(self, tier, seed):
		return self.seeded(tier, seed, 'points', 400, 12000)

	def thw(self, m, t, rh, v):
		import weatherlink.utils as utils
		got = m.returns('calculate_thw_index', utils.calculate_thw_index, t, rh, v)
		want = refmath.thws(t, rh, v)
		m.check(got is None if None in want else (isinstance(got, D) and got in want), 'wrong THW index', t=t, rh=rh, v=v, got=got,
				expected=sorted(want, key=str))
		m.event('thw_none' if got is None else 'thw')
		return got

	def thsw(self, m, t, rh, q, v):
		import weatherlink.utils as utils
		got = m.returns('calculate_thsw_index', utils.calculate_thsw_index, t, rh, q, v)
		exact = refmath.thsw(t, rh, q, v)
		m.check(refmath.close(got, exact), 'wrong THSW index', t=t, rh=rh, q=q, v=v, got=got, exact=exact)
		m.event('thsw')
		return got

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		for _ in range(25):
			integers = rng.random() < 0.3
			if integers:
				t, rh, v, q = rng.randint(-40, 150), rng.randint(0, 100), rng.randint(0, 150), rng.randint(0, 1800)
				m.event('integer')
			else:
				t = D(rng.choice((rng.randint(-400, 1500), rng.randint(690, 1200), 700, 699, 800, 0))) / 10
				rh = D(rng.randint(0, 1000)) / 10
				v = D(rng.choice((0, 1, rng.randint(0, 1500)))) / 10
				q = rng.choice((0, 1, rng.randint(0, 1800)))
			base_thw, base = self.thw(m, t, rh, v), self.thsw(m, t, rh, q, v)
			windier = v + rng.randint(1, 30)
			more = self.thw(m, t, rh, windier)
			m.check(more is None or more <= base_thw, 'more wind raises the THW index', t=t, rh=rh, v=v, windier=windier)
			m.check(self.thsw(m, t, rh, q, windier) <= base, 'more wind raises the THSW index', t=t, rh=rh, q=q, v=v, windier=windier)
			m.event('windier')
			m.check(self.thsw(m, t, rh, q + rng.randint(1, 300), v) >= base, 'more sun lowers the THSW index', t=t, rh=rh, q=q, v=v)
			m.event('sunnier')
		m.nontrivial(case['seed'])
		m.sample({'t': str(t), 'rh': str(rh), 'v': str(v), 'q': str(q), 'thsw': str(base)})

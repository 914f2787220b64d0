"""Unit conversions against exact arithmetic, with inverses and monotonicity."""
import decimal
from decimal import Decimal as D

from wlmon import core, refmath

HALF = D('0.5')

CONVERSIONS = (
	# name, exact, decimals, low, high (in hundredths), inverse, slack of the round trip
	('convert_fahrenheit_to_kelvin', refmath.f_to_k, 3, -10000, 20000, 'convert_kelvin_to_fahrenheit', D('0.0015')),
	('convert_kelvin_to_fahrenheit', refmath.k_to_f, 3, 18000, 37000, 'convert_fahrenheit_to_kelvin', D('0.0015')),
	('convert_fahrenheit_to_celsius', refmath.f_to_c, 3, -10000, 20000, 'convert_celsius_to_fahrenheit', D('0.0015')),
	('convert_celsius_to_fahrenheit', refmath.c_to_f, 3, -8000, 9000, 'convert_fahrenheit_to_celsius', D('0.0015')),
	('convert_inches_of_mercury_to_kilopascals', refmath.inhg_to_kpa, 2, 1600, 3600, None, None),
	('convert_inches_of_mercury_to_millibars', refmath.inhg_to_mb, 2, 1600, 3600, None, None),
	('convert_miles_per_hour_to_meters_per_second', refmath.mph_to_ms, 5, 0, 26000, None, None),
)


class CHECK(core.Check):
	id = 'C14'
	rule = (
		'Every hundredth of the physical range of each conversion (quick: every hundredth of a moving fifth plus every tenth), integers, '
		'and random decimals of up to six places. Non-trivial: a block of distinct inputs of one conversion.'
	)
	required = ('converted', 'integer', 'round_trip', 'random_decimal')

	def cases(self, tier, seed):
		for index in range(len(CONVERSIONS)):
			low, high = CONVERSIONS[index][3:5]
			for n, start in enumerate(range(low, high + 1, 500)):
				fine = tier == 'thorough' or (n + seed) % 5 == 0
				yield {'kind': 'block', 'conversion': index, 'start': start, 'stop': min(start + 501, high + 1), 'step': 1 if fine else 10}
		for c in self.seeded(tier, seed, 'random', 40, 800):
			yield c

	def one(self, m, index, value):
		import weatherlink.utils as utils
		name, exact, places, _, _, inverse, slack = CONVERSIONS[index]
		got = m.returns(name, getattr(utils, name), value)
		want = exact(value)
		m.check(isinstance(got, D) and got.is_finite(), '%s: not a decimal' % name, value=value, got=got)
		with decimal.localcontext(refmath.CONTEXT):
			ulp = D(1).scaleb(-places)
			m.check(abs(got - want) <= HALF * ulp + D('1e-15') and got == got.quantize(ulp),
					'%s: wrong to its precision' % name, value=value, got=got, exact=want)
		m.event('converted')
		if isinstance(value, int):
			m.event('integer')
		if inverse:
			back = m.returns(inverse, getattr(utils, inverse), got)
			m.check(abs(back - value) <= slack, '%s and %s are not inverse' % (name, inverse), value=value, there=got, back=back)
			m.event('round_trip')
		return got

	def run(self, case, m):
		if case['kind'] == 'block':
			index = case['conversion']
			last = None
			for hundredths in range(case['start'], case['stop'], case['step']):
				got = self.one(m, index, D(hundredths) / 100)
				m.check(last is None or got >= last, '%s is not monotonic' % CONVERSIONS[index][0], at=hundredths)
				last = got
				if hundredths % 100 == 0:
					m.equal(self.one(m, index, hundredths // 100), got, 'an integer and the same decimal convert differently')
			m.nontrivial((case['conversion'], case['start'], case['step']))
			m.sample({'conversion': CONVERSIONS[index][0], 'at': case['start'], 'last': str(last)})
			return
		rng = core.rng_for(case['seed'])
		for _ in range(40):
			index = rng.randrange(len(CONVERSIONS))
			places = rng.randrange(7)
			low, high = CONVERSIONS[index][3:5]
			value = D(rng.randint(low * 10 ** places // 100, high * 10 ** places // 100)).scaleb(-places)
			got = self.one(m, index, value)
			other = value + D(rng.randint(0, 300)) / 1000
			m.check(self.one(m, index, other) >= got, '%s is not monotonic' % CONVERSIONS[index][0], value=value, other=other)
			m.event('random_decimal')
		m.nontrivial(case['seed'])

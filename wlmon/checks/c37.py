"""Bearings and compass points."""
from wlmon import core, loop2, readings, wire


class CHECK(core.Check):
	id = 'C37'
	exhaustive = True
	rule = 'All whole bearings from -400 to 70000 and all sixteen compass points, exhaustively. Non-trivial: a distinct block of bearings.'
	required = ('named', 'refused', 'point')

	def cases(self, tier, seed):
		yield {'kind': 'points'}
		for start in range(-400, 70000, 400):
			yield {'kind': 'block', 'start': start}

	def run(self, case, m):
		from weatherlink.models import WindDirection
		if case['kind'] == 'points':
			m.equal([d.name for d in sorted(WindDirection, key=lambda d: d.value)], list(wire.NAMES), 'the compass')
			for i, name in enumerate(wire.NAMES):
				point = WindDirection[name]
				m.equal(point.value, i, 'code of a compass point', name=name)
				m.check(WindDirection(i) is point, 'compass point of a code', code=i)
				m.equal(point.degrees, wire.degrees_of(name), 'bearing of a compass point', name=name)
				for whole in {int(point.degrees), int(point.degrees + 0.5)}:
					got = m.returns('from_degrees', WindDirection.from_degrees, whole)
					m.check(got is point, 'a point does not map back to itself', name=name, bearing=whole, got=got)
				m.event('point')
			m.nontrivial('points')
			return
		for degrees in range(case['start'], case['start'] + 400):
			got = m.returns('from_degrees', WindDirection.from_degrees, degrees)
			if 1 <= degrees <= 360:
				m.check(readings.name_of(got) in loop2.compass_names(degrees) and got in WindDirection, 'wrong compass point', degrees=degrees, got=got)
				m.event('named')
			else:
				m.check(got is None, 'a compass point for no bearing', degrees=degrees, got=got)
				m.event('refused')
		m.nontrivial(case['start'])
		m.sample(case)

"""The 10-minute wind average against a brute-force recomputation."""
import datetime
from collections import Counter
from decimal import Decimal as D
from fractions import Fraction

from wlmon import core, wire


def brute_force(rows):
	"""(average, acceptable directions, start, end) or None."""
	minutes = []
	best = None
	for speed, direction, end, covered in rows:
		if covered > 10:
			return None
		for back in range(int(covered) - 1, -1, -1):
			minutes.append((Fraction(speed or 0), direction, end - datetime.timedelta(minutes=back)))
		window = minutes[-10:]
		if len(window) == 10:
			average = sum(w[0] for w in window) / 10
			if best is None or average > best[0]:
				best = (average, window)
	if best is None or best[0] == 0:
		return None
	counts = Counter(w[1] for w in best[1])
	top = max(counts.values())
	return best[0], {d for d in counts if counts[d] == top}, best[1][0][2], best[1][-1][2]


class CHECK(core.Check):
	id = 'C20'
	rule = (
		'Generated days of 0 to 1440 records of 1 to 10 minutes (constant or mixed intervals), calm, gusty, tied and with '
		'missing speeds or directions, some with a record longer than 10 minutes, given as lists, tuples and iterators. '
		'Non-trivial: a distinct day.'
	)
	required = ('averaged', 'empty', 'too_long', 'too_short', 'calm', 'tied', 'iterator', 'missing_speed', 'mixed')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'day', 700, 12000):
			yield c
		for c in self.seeded(tier, seed, 'full', 16, 160):
			yield c

	def run(self, case, m):
		import weatherlink.utils as utils
		rng = core.rng_for(case['seed'])
		interval = rng.choice((1, 1, 5, 10, 2, 3, None))
		count = 1440 if case['kind'] == 'full' else rng.choice((0, 1, 2, 9, 10, 11, 12, 30, rng.randint(0, 150)))
		top = rng.choice((0, 1, 2, 30, 30, 60))
		missing = rng.choice((0, 0, 0.1, 0.5))
		at = datetime.datetime(2016, 4, rng.randint(1, 28), 0, 0)
		rows = []
		long_record = rng.randrange(count) if count and rng.random() < 0.12 else None
		for i in range(count):
			covered = interval or rng.randint(1, 10)
			if i == long_record:
				covered = rng.choice((11, 15, 30, 60))
			at += datetime.timedelta(minutes=covered + (rng.randint(1, 90) if rng.random() < 0.03 else 0))
			speed = None if rng.random() < missing else rng.choice((D(rng.randint(0, top)), rng.randint(0, top), D(rng.randint(0, top * 10)) / 10))
			direction = None if rng.random() < 0.1 else rng.choice(wire.NAMES[:rng.choice((1, 2, 16))])
			row = (speed, direction, at, rng.choice((covered, D(covered))))
			rows.append(row if rng.random() < 0.8 else list(row))
		form = rng.randrange(3)
		given = list(rows) if form == 0 else tuple(rows) if form == 1 else iter(rows)
		got = m.returns('calculate_10_minute_wind_average', utils.calculate_10_minute_wind_average, given)
		want = brute_force(rows)
		m.check(isinstance(got, (tuple, list)) and len(got) == 4, 'not four values', got=got)
		details = dict(rows=len(rows), interval=interval)
		if want is None:
			m.equal(tuple(got), (None, None, None, None), 'an average where there is none', **details)
			m.event('empty')
		else:
			m.check(not isinstance(got[0], float) and got[0] is not None and Fraction(got[0]) == want[0], 'wrong 10-minute average', got=got, expected=want, **details)
			m.check(got[1] in want[1], 'wrong direction', got=got, expected=want, **details)
			m.equal(got[2], want[2], 'wrong start', **details)
			m.equal(got[3], want[3], 'wrong end', **details)
			m.event('averaged')
			if len(want[1]) > 1:
				m.event('tied')
		if long_record is not None:
			m.event('too_long')
		if sum(int(r[3]) for r in rows) < 10:
			m.event('too_short')
		if rows and top == 0:
			m.event('calm')
		if form == 2:
			m.event('iterator')
		if any(r[0] is None for r in rows):
			m.event('missing_speed')
		if interval is None and len(rows) > 3:
			m.event('mixed')
		m.nontrivial(repr(rows))
		m.sample({'records': len(rows), 'interval': interval, 'result': got})

"""WeatherLink timestamps: exact round trip, documented bit layout, chronological order."""
import datetime

import pytz

from wlmon import core, wire


class Moment(datetime.datetime):
	"""A subclass, as other libraries have them"""


class CHECK(core.Check):
	id = 'C01'
	rule = (
		'Each case is one month: every day of it with boundary and random minutes of the day (all 1440 in the thorough '
		'tier), encoded and decoded. Non-trivial: a distinct month whose days were all encoded. Order is checked on '
		'every pair of consecutive minutes visited and on random pairs across years.'
	)
	required = ('encoded', 'decoded', 'ordered_pairs', 'passed_through', 'unusual_datetime')

	def cases(self, tier, seed):
		# Years 2000 to 2063 are what the signed 16-bit date of a downloaded record can hold
		for year in range(2000, 2064):
			for month in range(1, 13):
				yield {'kind': 'month', 'year': year, 'month': month, 'all': tier == 'thorough', 'seed': seed}
		for c in self.seeded(tier, seed, 'pairs', 40, 400):
			yield c

	def run(self, case, m):
		from weatherlink import models
		encode, decode = models.convert_datetime_to_timestamp, models.convert_timestamp_to_datetime
		if case['kind'] == 'pairs':
			rng = core.rng_for(case['seed'])
			for _ in range(300):
				a, b = wire.random_date(rng), wire.random_date(rng)
				if rng.random() < 0.3:
					b = a + datetime.timedelta(minutes=rng.choice((-1, 1, 60, -60, 1440, -1440)))
					if not 2000 <= b.year <= 2063:
						continue
				ta, tb = encode(a), encode(b)
				m.event('ordered_pairs')
				m.check((ta < tb) == (a < b) and (ta == tb) == (a == b), 'timestamps are not in chronological order',
						a=a, b=b, encoded=(ta, tb))
				unusual = Moment(b.year, b.month, b.day, b.hour, b.minute, rng.randrange(60), rng.randrange(10 ** 6))
				if rng.random() < 0.5:
					unusual = unusual.replace(tzinfo=rng.choice((pytz.UTC, pytz.FixedOffset(-300))))  # the station's own clock
				m.event('unusual_datetime')
				m.equal(encode(unusual), tb, 'timestamp of a datetime with seconds or of a subclass', date=repr(unusual))
			for _ in range(20):
				value = rng.choice((0, rng.randrange(2 ** 31), rng.randrange(2 ** 16)))
				m.event('passed_through')
				m.equal(encode(value), value, 'a timestamp did not pass through unchanged')
			m.nontrivial(case['seed'])
			return
		rng = core.rng_for('C01', case['seed'], case['year'], case['month'])
		day = datetime.date(case['year'], case['month'], 1)
		previous = None
		while day.month == case['month']:
			if case['all']:
				minutes = range(1440)
			else:
				minutes = sorted({0, 1, 59, 60, 61, 719, 720, 1380, 1438, 1439} | {rng.randrange(1440) for _ in range(8)})
			for minute in minutes:
				d = datetime.datetime(day.year, day.month, day.day, minute // 60, minute % 60)
				seconds = d + datetime.timedelta(seconds=rng.randrange(60)) if not case['all'] else d
				t = encode(seconds)
				m.event('encoded')
				m.check(isinstance(t, int) and not isinstance(t, bool), 'the timestamp is not an integer', date=d, got=t)
				m.equal(t, wire.timestamp_of(d), 'timestamp layout', date=d)
				m.event('decoded')
				m.equal(decode(t), d, 'timestamp round trip', timestamp=t)
				if previous is not None:
					m.event('ordered_pairs')
					m.check(previous < t, 'timestamps are not increasing', date=d, previous=previous, got=t)
				previous = t
			day += datetime.timedelta(days=1)
		m.nontrivial((case['year'], case['month']))
		m.sample({'month': '%d-%02d' % (case['year'], case['month']), 'last_timestamp': previous})

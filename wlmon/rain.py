"""What rain events a history of archive records holds, and histories with every kind of gap."""
import datetime
from decimal import Decimal as D
from fractions import Fraction

from wlmon import summary, wire

TABLE = 'weather_rain_event'
THREE_HOURS = datetime.timedelta(hours=3)


def events(rows):
	"""rows: (timestamp, total, rate), in any order.  Finished events have an end, an ongoing one None."""
	result, current = [], None
	last = None
	for at, total, rate in sorted(rows):
		last = at
		if current and at - current['last'] > THREE_HOURS:
			current['end'] = current['last']
			current = None
		if not total:
			continue
		if current is None:
			current = {'start': at, 'end': None, 'total': D(0), 'rates': [], 'high': None, 'high_time': None}
			result.append(current)
		current['last'] = at
		current['total'] += total
		current['rates'].append(rate)
		if current['high'] is None or rate > current['high']:
			current['high'], current['high_time'] = rate, at
	if current and last - current['last'] >= THREE_HOURS:
		current['end'] = current['last']
	return result


def check(m, stored, wanted, what):
	"""The stored events are exactly the wanted ones."""
	stored = sorted(stored, key=lambda r: r['timestamp_start'])
	m.equal([r['timestamp_start'] for r in stored], [e['start'] for e in wanted], '%s: starts of the events' % what)
	for row, e in zip(stored, wanted):
		details = dict(event=dict((k, v) for k, v in e.items() if k != 'rates'), row=row)
		m.equal(row['timestamp_end'], e['end'], '%s: end of an event' % what, **details)
		m.equal(row['rain_total'], e['total'], '%s: total of an event' % what, **details)
		m.equal(row['rain_rate_high'], e['high'], '%s: highest rate of an event' % what, **details)
		m.equal(row['timestamp_rain_rate_high'], e['high_time'], '%s: time of the highest rate' % what, **details)
		exact = sum(Fraction(r) for r in e['rates']) / len(e['rates'])
		m.check(abs(Fraction(row['rain_rate_average']) - exact) <= Fraction(1, 200), '%s: average rate of an event' % what, exact=float(exact), **details)


def comparable(rows):
	return sorted((sorted((k, v) for k, v in r.items() if k != 'event_id') for r in rows), key=repr)


def history(rng, count, interval=None):
	"""(timestamp, total, rate) of consecutive records: showers, drizzle, dry spells around three hours, missing records."""
	interval = interval or rng.choice((1, 5, 10, 15, 30, 60, 120))
	at = datetime.datetime(rng.randint(2001, 2060), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60 // min(interval, 60)) * min(interval, 60))
	wet = rng.choice((0.02, 0.1, 0.3, 0.9))
	aim = 180 // interval
	rows, dry, raining = [], 0, False
	plan = 0
	for _ in range(count):
		rows.append(None)
		if plan > 0:
			plan -= 1
			rain = False
			if plan == 0:
				raining = True
		elif raining or rng.random() < wet:
			rain = True
			raining = rng.random() < 0.6
			if not raining and rng.random() < 0.6:
				plan = max(1, aim + rng.choice((-2, -1, -1, 0, 0, 1, 2)))
		else:
			rain = False
		if rain:
			rate = D(rng.choice((0, 1, 2, 4, rng.randrange(400)))) / 100
			rows[-1] = (at, D(rng.choice((1, 1, 2, rng.randint(1, 50)))) / rng.choice((100, 100, 1000)), rate)
		else:
			rows[-1] = (at, D(0), D(0) if rng.random() < 0.9 else D(rng.randrange(100)) / 100)
		step = interval
		if rng.random() < 0.03:
			step = rng.choice((interval * 2, 60, 180, 181, 179, 240, 1440 * 3))
		at += datetime.timedelta(minutes=step)
	return rows


def archive_row(row, minutes=5):
	at, total, rate = row
	return {
		'timestamp_weatherlink': wire.timestamp_of(at), 'timestamp_station': at, 'timestamp_utc': at, 'minutes_covered': minutes,
		'summary_year': at.year, 'summary_month': at.month, 'summary_day': at.day, 'rain_total': total, 'rain_rate_high': rate,
	}


def insert(rng, server, rows):
	summary.insert(rng, server, [archive_row(r) for r in rows])

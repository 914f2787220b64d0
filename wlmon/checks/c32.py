"""Rapid updates to Weather Underground: the packet's readings with the gust and direction of the latest packets."""
import io

from wlmon import core, httpsim, stored, uploads, wire
from wlmon.checks.c07 import secret

CANCEL = ((90, 270), (45, 225), (120, 240, 360), (1, 181), (360, 180))


def packet(rng, raw, date):
	"""A live packet decoded by the real code, and its readings."""
	from weatherlink.models import LoopRecord
	record = LoopRecord.load_loop_2_from_connection(io.BytesIO(wire.encode_loop2(raw, rng.choice((-60, -20, 0, 20, 60)), rng)))
	record['date'] = date
	readings = wire.decode_fields(wire.LOOP2, raw)
	for clicks, amount in wire.LOOP2_RAIN:
		readings[amount] = stored.Fraction(raw[clicks], 100) if raw[clicks] else None
	return record, readings


class CHECK(core.Check):
	id = 'C32'
	rule = (
		'Sequences of up to 130 live packets sent with one exporter: random wind, single gusts that leave the window one '
		'packet at a time, calm, missing speed or direction, directions around north and directions that cancel out, with '
		'failing updates and updates of archive records in between. Non-trivial: a distinct update.'
	)
	required = ('uploaded', 'gust_left_window', 'direction_left_window', 'around_north', 'cancelled_out', 'no_wind_speed', 'no_direction', 'calm', 'zero',
				'update_failed', 'simple_update_between')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'session', 120, 2500):
			yield c

	def winds(self, rng, n):
		"""Raw speed and direction per packet."""
		how = rng.choice(('random', 'gust', 'gust', 'north', 'cancel', 'missing', 'turn', 'calm', 'constant'))
		base = rng.randrange(0, 40)
		result = []
		at = rng.randrange(n)
		cancel = rng.choice(CANCEL)
		for i in range(n):
			speed, degrees = rng.randrange(0, 60), rng.randint(1, 360)
			if how == 'gust':
				speed, degrees = (base + 20, 200) if i == at else (rng.randint(0, base), rng.randint(1, 100))
			elif how == 'north':
				degrees = rng.choice((355, 356, 357, 358, 359, 360, 1, 2, 3, 4, 5))
			elif how == 'cancel':
				degrees = cancel[i % len(cancel)]
			elif how == 'missing':
				speed = rng.choice((255, 255, 255, speed))
				degrees = rng.choice((0, 0, 0, degrees))
			elif how == 'turn':
				speed, degrees = i % 60, 90 if i < at else 270
			elif how == 'calm':
				speed, degrees = 0, 0
			elif how == 'constant':
				speed, degrees = base, rng.choice((base * 9, 360)) or 360
			result.append((speed, degrees))
		return how, result

	def simple_update(self, m, rng, exporter):
		archived, _ = stored.make(rng)
		with httpsim.Transport(lambda request: httpsim.message(headers=[('Content-Type', 'text/html')], body=b'success')) as transport:
			m.returns('a simple update between rapid ones', exporter.send_simple_update, archived)
		m.equal(len(transport.requests), 1, 'number of requests')
		m.event('simple_update_between')

	def run(self, case, m):
		from weatherlink.exporter.wunderground import WundergroundExporter
		rng = core.rng_for(case['seed'])
		station, password = 'K%s%d' % (rng.choice(('TN', 'CAX', 'ny')), rng.randrange(1000)), secret(rng)
		exporter = m.returns('WundergroundExporter', WundergroundExporter, station, password)
		exporter.station_time_zone = 'UTC'
		count = rng.choice((1, 3, 24, 25, 26, 27, 49, 50, 51, 60, 75, 130))
		window = uploads.Window()
		how, winds = self.winds(rng, count)
		dash = rng.choice((0, 0.05, 0.1, 0.5))
		failures = rng.choice((0, 0, 0.1))
		gusts = []
		simple = rng.choice((0, 0, 0, 0.2))
		changes = rng.choice((0, 0, 0, 0.1))
		for speed, degrees in winds:
			if rng.random() < changes:
				station, password = 'K%s%d' % (rng.choice(('TN', 'CAX', 'ny')), rng.randrange(1000)), secret(rng)
				exporter.station_id, exporter.password = station, password
				m.event('account_changed')
			raw = wire.plausible_raw(wire.LOOP2, rng, dash)
			raw['wind_speed'], raw['wind_direction_degrees'] = speed, degrees
			date = wire.random_date(rng)
			record, readings = packet(rng, raw, date)
			window.add(readings['wind_speed'], readings['wind_direction_degrees'])
			fails = rng.random() < failures
			if rng.random() < simple:
				# Archive records sent with the same exporter are no packets of the last minutes
				self.simple_update(m, rng, exporter)

			def handler(request):
				return httpsim.message(status=500 if fails else 200, reason='Whatever', headers=[('Content-Type', 'text/html; charset=utf-8')],
									body=b'' if fails else b'success')
			with httpsim.Transport(handler) as transport:
				outcome = m.call(exporter.send_rapid_update, record)
			if not transport.requests:
				m.fail('a rapid update sent nothing', outcome=outcome)
			m.equal(len(transport.requests), 1, 'number of requests')
			expected = uploads.rapid(readings)
			computed = window.computed()
			expected.update(computed)
			uploads.check(m, transport.requests[0], uploads.RAPID_HOST, station, password, date, expected, 'rapid update %d (%s)' % (len(window.packets), how))
			m.check(outcome.ok is not fails, 'the outcome of a rapid update is wrong', outcome=outcome, fails=fails)
			m.event('update_failed' if fails else 'uploaded')
			gust = max(computed['windgustmph'].values) if 'windgustmph' in computed else None
			if gust is None:
				m.event('no_wind_speed')
			elif gust == 0:
				m.event('calm')
			gusts.append(gust)
			if how == 'gust' and len(gusts) > 25 and gust is not None and gusts[-2] is not None and gust < gusts[-2]:
				m.event('gust_left_window')
			if how == 'turn' and len(gusts) > 49 and degrees == 270:
				m.event('direction_left_window')
			if how == 'north':
				m.event('around_north')
			if 'winddir_avg2m' not in computed:
				m.event('cancelled_out' if how == 'cancel' else 'no_direction' if degrees == 0 else 'no_average')
			if any(v == 0 for v in expected.values() if not isinstance(v, uploads.Choice)):
				m.event('zero')
			m.seen('packets sent', len(gusts))
			m.nontrivial(transport.requests[0].url)
			m.sample({'url': transport.requests[0].url})

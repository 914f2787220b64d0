"""Simple updates to Weather Underground: exactly the record's readings, or an error."""
import pytz

from wlmon import core, httpsim, stored, uploads, wire
from wlmon.checks.c07 import secret
from wlmon.checks.c23 import acceptable

BAD_BODIES = (b'', b'INVALIDPASSWORDID|Password or key and/or id are incorrect', b'failure', b'unsuccessful', b'success?', b'successful', b'Success', b'<html>success</html>')


class CHECK(core.Check):
	id = 'C31'
	rule = (
		'Records of downloads and month files with any subset of absent readings, random passwords, every HTTP framing; '
		'error statuses, other answers and lost connections, followed by more updates with the same exporter. Non-trivial: '
		'a distinct update.'
	)
	required = ('uploaded', 'absent', 'zero', 'dew_point', 'bad_status_refused', 'bad_answer_refused', 'network_error', 'after_error', 'account_changed')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'session', 400, 8000):
			yield c

	def run(self, case, m):
		from weatherlink.exporter.wunderground import WundergroundExporter
		rng = core.rng_for(case['seed'])
		station, password = 'K%s%d' % (rng.choice(('TN', 'CAX', 'ny')), rng.randrange(1000)), secret(rng)
		exporter = m.returns('WundergroundExporter', WundergroundExporter, station, password)
		zone = pytz.timezone('America/Chicago')
		if rng.random() < 0.5:
			zone = pytz.timezone(rng.choice(pytz.common_timezones))
			exporter.station_time_zone = zone
		failed = False
		changes = rng.random() < 0.25
		for _ in range(rng.randint(1, 8)):
			if changes and rng.random() < 0.5:
				# The station or password of an exporter in use is corrected
				station, password = 'K%s%d' % (rng.choice(('TN', 'CAX', 'ny')), rng.randrange(1000)), secret(rng)
				exporter.station_id, exporter.password = station, password
				m.event('account_changed')
			record, readings = stored.make(rng, dash=rng.choice((0, 0.1, 0.5, 1)))
			content = dict(record)
			how = rng.choice(('ok', 'ok', 'ok', 'status', 'body', 'network'))
			status, body = rng.choice((200, 200, 200, 201, 202, 299)), b'success'
			if how == 'status':
				status = rng.choice((300, 301, 302, 305, 306, 308, 399, 400, 401, 403, 404, 418, 429, 500, 502, 503))
			elif how == 'body':
				body = rng.choice(BAD_BODIES)
			error = httpsim.connection_error(rng)

			def handler(request):
				if how == 'network':
					return error
				return httpsim.message(status=status, reason='Whatever', headers=[('Content-Type', 'text/html; charset=utf-8')], body=body,
									framing=rng.choice(('length', 'chunked', 'close')))
			with httpsim.Transport(handler) as transport:
				outcome = m.call(exporter.send_simple_update, record)
			m.equal(len(transport.requests), 1, 'number of requests')
			utc = acceptable(zone, readings['date'])[0]
			expected = uploads.simple(readings)
			uploads.check(m, transport.requests[0], uploads.SIMPLE_HOST, station, password, list(utc)[0] if len(utc) == 1 else None, expected, 'simple update')
			m.check(dict((k, record[k]) for k in content) == content, 'the update changed the record', before=content, after=dict(record))
			if how == 'ok':
				m.check(outcome.ok, 'a successful update failed', outcome=outcome, status=status)
				m.event('uploaded')
				if failed:
					m.event('after_error')
			else:
				m.check(not outcome.ok, 'a failed update went unnoticed', how=how, status=status, body=body)
				if how == 'network':
					m.check(outcome.exception is error, 'the network error was replaced', outcome=outcome)
				m.event({'status': 'bad_status_refused', 'body': 'bad_answer_refused', 'network': 'network_error'}[how])
				failed = True
			m.event('absent', len(uploads.SIMPLE) - sum(1 for r in uploads.SIMPLE.values() if readings.get(r) is not None))
			if any(v == 0 and not isinstance(v, str) for k, v in expected.items() if k != 'dewptf'):
				m.event('zero')
			if 'dewptf' in expected:
				m.event('dew_point')
			m.seen('parameters sent', ','.join(sorted(expected)))
			m.nontrivial(transport.requests[0].url)
			m.sample({'url': transport.requests[0].url})

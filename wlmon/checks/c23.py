"""Local station time to UTC, in the stored rows and in the uploads, for every zone and around its transitions."""
import datetime

import pytz

from wlmon import core, httpsim, mysqld, stored

HOUR = datetime.timedelta(hours=1)


class Odd(datetime.tzinfo):
	"""A tzinfo that is neither pytz nor standard: an hour more from April to September."""
	def __init__(self, minutes):
		self.minutes = minutes

	def utcoffset(self, d):
		return datetime.timedelta(minutes=self.minutes) + self.dst(d)

	def dst(self, d):
		return HOUR if 4 <= d.month <= 9 else datetime.timedelta(0)

	def tzname(self, d):
		return 'ODD'


def offset_at(zone, utc):
	"""The zone's offset at a UTC instant."""
	return utc.replace(tzinfo=pytz.UTC).astimezone(zone).utcoffset()


def acceptable(zone, local):
	"""The UTC times this local time may stand for, and whether it occurs once, twice or never."""
	if isinstance(zone, Odd):
		return {local - zone.utcoffset(local)}, 'once'
	offsets = set(offset_at(zone, local + k * HOUR) for k in range(-28, 29))
	found = set(local - o for o in offsets if offset_at(zone, local - o) == o)
	if found:
		return found, 'once' if len(found) == 1 else 'twice'
	return {local - offset_at(zone, local - max(offsets)), local - offset_at(zone, local - min(offsets))}, 'never'


def transitions(zone, first, last):
	"""UTC instants between two years at which the offset changes, by bisection."""
	result = []
	step = datetime.timedelta(days=11)
	at, end = datetime.datetime(first, 1, 3), datetime.datetime(last, 12, 28)
	before = offset_at(zone, at)
	while at < end:
		after = offset_at(zone, at + step)
		if after != before:
			low, high = at, at + step
			while high - low > datetime.timedelta(minutes=1):
				middle = low + datetime.timedelta(minutes=int((high - low).total_seconds() // 120))
				if offset_at(zone, middle) == before:
					low = middle
				else:
					high = middle
			result.append((high, before, after))
		at, before = at + step, after
	return result


class CHECK(core.Check):
	id = 'C23'
	rule = (
		'Every zone of the database, by name, as a pytz zone, as a zoneinfo zone, plus fixed and unusual tzinfos, at random '
		'times and at every minute distance of interest around sampled transitions; each time is both stored and uploaded. '
		'Non-trivial: a distinct zone and time.'
	)
	required = ('stored', 'uploaded', 'name', 'pytz', 'zoneinfo', 'fixed', 'odd', 'default', 'once', 'twice', 'never', 'zone_changed')

	def cases(self, tier, seed):
		names = sorted(pytz.all_timezones)
		for i, name in enumerate(names):
			yield {'kind': 'zone', 'zone': name, 'seed': '%s/%s/%s' % (self.id, seed, name), 'years': 2 if tier == 'quick' else 90}
		for c in self.seeded(tier, seed, 'other', 12, 200):
			yield c

	def run(self, case, m):
		from weatherlink.exporter.wunderground import WundergroundExporter
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'zone':
			name = case['zone']
			zone = pytz.timezone(name)
			form = rng.choice(('name', 'pytz', 'zoneinfo'))
			if form == 'zoneinfo':
				try:
					import zoneinfo
					with pytz.open_resource(name) as f:
						zone = zoneinfo.ZoneInfo.from_file(f, key=name)
				except ImportError:
					form = 'pytz'
			given = name if form == 'name' else zone
		else:
			form = rng.choice(('fixed', 'fixed', 'odd', 'default'))
			if form == 'fixed':
				minutes = rng.choice((0, 60, -300, 330, 345, -720, 840, rng.randrange(-1439, 1440)))
				zone = given = rng.choice((pytz.FixedOffset(minutes), datetime.timezone(datetime.timedelta(minutes=minutes)), pytz.UTC))
			elif form == 'odd':
				zone = given = Odd(rng.choice((0, 60, -570, 765)))
			else:
				zone, given = pytz.timezone('America/Chicago'), rng.choice((None, ''))
				if given == '':
					given = 'unset'
		times = []
		first = rng.randint(1902, 2036)
		if not isinstance(zone, Odd):
			for low, high in ((2000, 2000 + min(37, case.get('years', 2))), (first, min(2037, first + case.get('years', 2)))):
				low = rng.randint(low, max(low, 2037 - case.get('years', 2))) if low == 2000 else low
				found = transitions(zone, low, min(2062, low + case.get('years', 2)))
				for at, before, after in rng.sample(found, min(len(found), 3 if case.get('years', 2) == 2 else 12)):
					wall = [at + before, at + after]
					for _ in range(3):
						times.append(rng.choice(wall) + datetime.timedelta(minutes=rng.choice((-1, 0, 1, 15, 30, 31, -30, 59, 60, -60, -61, -180, 180, 1440, -1440))))
		for _ in range(3):
			times.append(datetime.datetime(rng.randint(2000, 2062), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60)))
		with mysqld.Server(case['seed']) as server, mysqld.exporter(server) as exporter:
			uploader = WundergroundExporter('KXX', 'secret')
			for target in (exporter, uploader):
				if given != 'unset':
					target.station_time_zone = given
			for local in times:
				want, how = acceptable(zone, local)
				m.event(how)
				if local.year >= 2000:
					record, _ = stored.make(rng, date=local)
					before = server.engine.table('weather_archive_record').rows
					m.returns('export_record in zone %s' % case.get('zone', form), exporter.export_record, record) if not any(
						r['timestamp_station'] == local for r in server.rows()) else None
					new = [r for k, r in server.engine.table('weather_archive_record').rows.items() if k not in before]
					table = server.engine.table('weather_archive_record')
					for row in new:
						got = row[table.index('timestamp_utc')]
						m.check(got in want, 'wrong UTC time stored', zone=repr(zone), local=local, got=got, acceptable=sorted(want))
						m.event('stored')
				else:
					record, _ = stored.make(rng)
					record.date = local
				with httpsim.Transport(lambda request: httpsim.message(body=b'success')) as transport:
					m.returns('send_simple_update in zone %s' % case.get('zone', form), uploader.send_simple_update, record)
				got = [v for k, v in transport.requests[0].pairs if k == 'dateutc']
				m.check(got in [[w.strftime('%Y-%m-%d %H:%M:%S')] for w in want], 'wrong UTC time uploaded', zone=repr(zone), local=local, got=got, acceptable=sorted(want))
				m.event('uploaded')
				m.seen('offset', str(local - min(want)))
				m.nontrivial((case.get('zone'), form, local))
			if times[-1].year >= 2000:
				self.elsewhere(m, rng, server, exporter, uploader, times[-1])
		m.event(form)
		m.sample({'zone': case.get('zone', form), 'local': str(times[0])})

	def elsewhere(self, m, rng, server, exporter, uploader, local):
		"""The station moves, and what it reports at the same local time is exported again."""
		name = rng.choice(('Asia/Kolkata', 'America/St_Johns', 'UTC', 'Pacific/Auckland', 'America/Chicago', None))
		# No zone of its own again: the default one
		want, _ = acceptable(pytz.timezone(name or 'America/Chicago'), local)
		table = server.engine.table('weather_archive_record').copy()
		for row in list(table.rows.values()):
			table.remove(row)
		server.engine.tables['weather_archive_record'] = table
		record, _ = stored.make(rng, date=local)
		for target in (exporter, uploader):
			target.station_time_zone = name
		m.returns('export_record in zone %s' % name, exporter.export_record, record)
		got = [r['timestamp_utc'] for r in server.rows()]
		m.check(len(got) == 1 and got[0] in want, 'wrong UTC time stored after the zone was changed', zone=name, local=local, got=got, acceptable=sorted(want))
		with httpsim.Transport(lambda request: httpsim.message(body=b'success')) as transport:
			m.returns('send_simple_update in zone %s' % name, uploader.send_simple_update, record)
		got = [v for k, v in transport.requests[0].pairs if k == 'dateutc']
		m.check(got in [[w.strftime('%Y-%m-%d %H:%M:%S')] for w in want], 'wrong UTC time uploaded after the zone was changed', zone=name, local=local, got=got)
		m.event('zone_changed')

"""Export of records to MySQL: one committed row that says what the record says."""
import datetime

from wlmon import core, mysqld, sqlengine, stored, wire

HOSTILE = ("1'); DELETE FROM weather_archive_record; -- ", '%s', '1, 2', "\\'", 'NULL', '1) ON DUPLICATE KEY UPDATE minutes_covered=(1', '`', "a'b\"c\n\\")


class CHECK(core.Check):
	id = 'C22'
	rule = (
		'Random records of downloads and month files exported over the real client to a simulated server with the '
		'recommended schema and with renamed tables and columns; records exported again, readings too big for their '
		'column, and hostile text among the readings. Non-trivial: a distinct exported record.'
	)
	required = ('stored', 'duplicate_refused', 'too_big', 'renamed_table', 'renamed_column', 'not_inserted', 'hostile_text', 'from_download',
				'from_month_file')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'plain', 160, 3000):
			yield c
		for c in self.seeded(tier, seed, 'configured', 160, 3000):
			yield c
		for c in self.seeded(tier, seed, 'hostile', 60, 600):
			yield c

	def configure(self, m, rng):
		"""(settings, tables, name, rename, columns not inserted)"""
		from weatherlink.exporter.mysql import COLUMN_MAP_DO_NOT_INSERT, MySQLExporter
		with open(mysqld.SCHEMA, 'rb') as f:
			tables = sqlengine.parse_schema(f.read().decode('utf-8'))
		column_map = dict(MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP)
		table = tables.pop('weather_archive_record')
		settings, rename, skipped = {}, {}, set()
		chance = rng.choice((0, 0.1, 0.5, 1))
		avoid = rng.choice((0, 0.1, 0.3))
		columns = []
		for attribute in sorted(column_map):
			column = column_map[attribute]
			if rng.random() < avoid and column != 'timestamp_weatherlink':
				# The constant itself, or the same text from elsewhere, a file of settings for instance
				column_map[attribute] = COLUMN_MAP_DO_NOT_INSERT if rng.random() < 0.5 else ''.join(list(COLUMN_MAP_DO_NOT_INSERT))
				skipped.add(column)
				m.event('not_inserted')
			elif rng.random() < chance:
				rename[column] = rng.choice(('c_%d', 'My_Column_%d', 'k %d')) % len(rename)
				column_map[attribute] = '`%s`' % rename[column] if ' ' in rename[column] else rename[column]
				m.event('renamed_column')
		for c in table.columns:
			if c.name in skipped:
				continue
			columns.append(sqlengine.Column(rename.get(c.name, c.name), c.type, c.nullable, c.auto, c.default))
		name, given = rng.choice((
			('weather_archive_record', None), ('weather_archive_record', ''), ('wx', 'wx'), ('wx_archive', 'weather.wx_archive'), ('my wx', '`my wx`'),
			('Other', 'Other'),
		))
		if given is not None:
			settings['archive_table_name'] = given
		if given:
			m.event('renamed_table')
		settings['archive_table_column_map'] = column_map
		uniques = tuple(tuple(rename.get(c, c).lower() for c in unique) for unique in table.uniques if not skipped.intersection(unique))
		tables[name.lower()] = sqlengine.Table(name, columns, 0, uniques)
		tables[name.lower()].primary = tables[name.lower()].index(table.names[table.primary])
		return settings, tables, name, rename, skipped

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'hostile':
			return self.hostile(m, rng)
		settings, tables, name, rename, skipped = {}, None, 'weather_archive_record', {}, set()
		if case['kind'] == 'configured':
			settings, tables, name, rename, skipped = self.configure(m, rng)
		elif rng.random() < 0.2:
			settings['archive_table_column_map'] = rng.choice((None, {}))
		with mysqld.Server(case['seed'], tables=tables) as server:
			with mysqld.exporter(server, **settings) as exporter:
				self.export(m, rng, server, exporter, name, rename, skipped)
			m.event('statement', server.statements)

	def export(self, m, rng, server, exporter, name, rename, skipped):
		dates = [wire.random_date(rng) for _ in range(rng.randint(1, 8))]
		seen = {}
		for date in dates:
			if date in seen:
				continue
			wlk = rng.random() < 0.4
			record, readings = (stored.make_wlk if wlk else stored.make_download)(rng, date=date, dash=rng.choice((0, 0.1, 0.5, 1)))
			if rng.random() < 0.15:
				raw = wire.plausible_raw(wire.DOWNLOAD, rng)
				raw['temperature_inside'] = rng.choice((32766, -32768, 10000))
				raw['humidity_inside'] = 255
				record, readings = stored.make_download(rng, date=date, raw=raw)
			expected = stored.Expected(readings)
			if expected.fits is False and 'temperature_inside' in skipped:
				expected.fits = None
			if expected.fits is False:
				m.event('too_big')
			before, content = server.rows(name), dict(record)
			outcome = m.call(exporter.export_record, record)
			m.equal(dict(record), content, 'exporting changed the record')
			after = server.rows(name)
			if not outcome.ok:
				m.check(expected.fits is not True, 'exporting a record failed', outcome=outcome, record=content, errors=server.errors[-1:])
				m.equal(after, before, 'a refused record changed the table')
				m.event('refused')
				continue
			# A reading too big for the column as it is now is stored whole, in a column made bigger, or not at all
			new = [r for r in after if r not in before]
			m.check(len(after) == len(before) + 1 and len(new) == 1, 'exporting a record did not commit exactly one row', before=len(before), after=len(after))
			expected.check(m, new[0], 'stored row', skipped, rename)
			m.event('stored')
			m.event('from_month_file' if wlk else 'from_download')
			m.nontrivial(sorted((k, str(v)) for k, v in content.items()))
			m.sample({'date': str(date), 'row': dict((k, str(v)) for k, v in sorted(new[0].items())[:6])})
			seen[date] = record
			if rng.random() < 0.4:
				again, at = rng.choice(list(seen.values())), server.rows(name)
				outcome = m.call(exporter.export_record, again)
				import mysql.connector
				m.check(isinstance(outcome.exception, mysql.connector.Error), 'a record already stored was not refused', outcome=outcome)
				m.equal(server.rows(name), at, 'a duplicate changed the table')
				m.event('duplicate_refused')

	def hostile(self, m, rng):
		with mysqld.Server(rng.random()) as server:
			server.engine.insert('weather_archive_record', [
				dict(timestamp_weatherlink=1, timestamp_station=datetime.datetime(2001, 1, 1), timestamp_utc=datetime.datetime(2001, 1, 1),
					minutes_covered=5, summary_year=2001, summary_month=1, summary_day=1),
			])
			before = server.rows()
			with mysqld.exporter(server) as exporter:
				record, _ = stored.make_download(rng)
				text = rng.choice(HOSTILE)
				record[rng.choice(('solar_radiation', 'rain_rate_clicks', 'evapotranspiration', 'uv_index'))] = text
				outcome = m.call(exporter.export_record, record)
				m.check(not outcome.ok, 'text was stored as a number', text=text)
				m.equal(server.rows(), before, 'text among the readings changed the table', text=text)
				for _, sql in server.log:
					_, literals = sqlengine.tokenize(sql)
					m.check(text in literals, 'a value was written into the statement unquoted', text=text, sql=sql)
				m.check(server.log or not outcome.ok, 'nothing happened')
				m.event('hostile_text')
				m.nontrivial((text, str(record)))

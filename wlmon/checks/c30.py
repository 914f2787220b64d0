"""Database failures: every statement of an operation, failing in every way."""
import datetime

from wlmon import core, mysqld, rain, stored, summary
from wlmon.checks.c27 import untied

ERRNO = {'error': 1205, 'deadlock': 1213}


class CHECK(core.Check):
	id = 'C30'
	level = 'fault_enumeration'
	rule = (
		'For generated databases: one operation (export of a record, recalculation of one or several dates, a search for '
		'rain events) is run once undisturbed to count its statements, then again on a fresh copy for every statement and '
		'commit times five failures (refused, deadlock, connection lost before, after or while answering); several faults '
		'in a row in thorough. Non-trivial: a distinct (operation, statement, failure).'
	)
	required = ('error_came_out', 'complete_rows', 'repeated', 'repeated_same_connection', 'commit_failed', 'committed_unknown', 'export', 'recalculate', 'search')
	exhaustive = False

	def cases(self, tier, seed):
		scenarios = [('export', 2, 1), ('recalculate', 1, 16), ('search', 3, 2)]
		if tier == 'thorough':
			scenarios = [('export', 60, 1), ('recalculate', 8, 16), ('turn', 4, 32), ('search', 60, 2)]
		for operation, count, parts in scenarios:
			for i in range(count):
				for part in range(parts):
					yield {'kind': operation, 'seed': 'C30/%s/%s/%d' % (seed, operation, i), 'part': part, 'parts': parts}
		for c in self.seeded(tier, seed, 'recalculate', 16, 1500, random=True):
			c['seed'] += '/r'
			yield c

	# ---- scenarios: a populated database and an operation on it
	def populate(self, case):
		rng = core.rng_for(case['seed'])
		tables = summary.load_tables()
		engine = mysqld.sqlengine.Engine(tables, case['seed'])

		class Holder(object):
			pass
		holder = Holder()
		holder.engine = engine
		kind = case['kind']
		if kind == 'search':
			rows = rain.history(rng, rng.randint(30, 80), rng.choice((15, 30, 60)))
			rain.insert(rng, holder, rows)
			done = rng.randint(0, len(rows))
			for e in rain.events(rows[:done])[:rng.randint(0, 3)]:
				engine.insert(rain.TABLE, [dict(
					timestamp_start=e['start'], timestamp_end=e['end'], timestamp_rain_rate_high=e['high_time'], rain_total=e['total'],
					rain_rate_average=e['high'], rain_rate_high=e['high'])])
				if not e['end']:
					break
			return engine, lambda m, exporter: exporter.find_new_rain_events()
		if kind == 'export':
			record, _ = stored.make_download(rng, date=datetime.datetime(2016, 4, rng.randint(1, 28), 12, 0))
			rows = summary.Climate(rng).day(datetime.date(2016, 5, 1), 3)
			summary.insert(rng, holder, rows)
			return engine, lambda m, exporter: exporter.export_record(record)
		if kind == 'turn' or case.get('random') and rng.random() < 0.5:
			dates = [datetime.date(2015, 12, 31), datetime.date(2016, 1, 1), datetime.date(2016, 1, 4)]
			dates = rng.sample(dates, rng.randint(1, 3))
		else:
			dates = [datetime.date(2016, rng.randint(1, 12), rng.randint(1, 28))]
		climate = summary.Climate(rng)
		climate.missing = 0
		rows = summary.fill(rng, dates, (2, 5), [climate])
		rows += climate.day(dates[0] + datetime.timedelta(days=1), 2) if dates[0] + datetime.timedelta(days=1) not in dates else []
		summary.insert(rng, holder, rows)
		if rng.random() < 0.5:
			# Summarized before, when there were fewer records
			d = dates[0]
			engine.insert(summary.SUMMARY, [dict(zip(summary.KEYS, p.key), rain_total=1) for p in summary.periods(d)])
		given = [summary.with_time(rng, d) for d in dates]
		return engine, lambda m, exporter: exporter.recalculate_summaries_for_dates(given)

	def server(self, case, tables=None):
		engine, operation = self.populate(case)
		return mysqld.Server(case['seed'], tables=tables or engine.tables), operation

	def run(self, case, m):
		server, operation = self.server(case)
		with server:
			with mysqld.exporter(server) as exporter:
				start = server.statements
				m.returns('the operation without failures', operation, m, exporter)
				total = server.statements - start
				log = [sql for _, sql in server.log]
			final = server.engine.dump()
		if case.get('random'):
			rng = core.rng_for(case['seed'], 'faults')
			for _ in range(4):
				self.several(case, m, rng, total, final)
			return
		for at in range(case['part'] + 1, total + 1, case['parts']):
			for kind in mysqld.Fault.KINDS:
				self.one(case, m, at, kind, final, log[at - 1])
		m.event({'search': 'search', 'export': 'export'}.get(case['kind'], 'recalculate'))
		m.sample({'operation': case['kind'], 'statements': total, 'part': '%d of %d' % (case['part'] + 1, case['parts'])})

	def attempt(self, m, server, exporter, operation, fault, committed):
		"""The operation, with the monitors that hold whatever happens."""
		import mysql.connector
		with mysqld.Cursors() as cursors:
			outcome = m.call(operation, m, exporter)
		m.check(not cursors.open, 'a cursor is still open after an operation', open=cursors.open, fault=vars(fault), outcome=outcome)
		m.event('cursor_closed', cursors.opened)
		if not fault.fired:
			return outcome
		m.check(not outcome.ok, 'a database failure went unnoticed', fault=vars(fault), outcome=outcome)
		e = outcome.exception
		if fault.kind in ERRNO:
			m.check(isinstance(e, mysql.connector.Error) and e.errno == ERRNO[fault.kind], 'not the original error came out', fault=vars(fault), outcome=outcome)
		else:
			m.check(isinstance(e, (mysql.connector.Error, OSError)), 'not the original error came out', fault=vars(fault), outcome=outcome)
		m.event('error_came_out')
		return outcome

	def one(self, case, m, at, kind, final, statement):
		server, operation = self.server(case)
		before = server.engine.dump()
		fault = mysqld.Fault(at, kind)
		server.faults = [fault]
		commit = statement.strip().lower().startswith('commit')
		same = kind == 'error' and at % 2 == 0 and not commit
		with server:
			with mysqld.exporter(server) as exporter:
				outcome = self.attempt(m, server, exporter, operation, fault, commit)
				m.check(fault.fired, 'the operation behaves differently when run again', at=at, statements=server.statements)
				if same:
					m.event('repeated_same_connection')
					self.again(m, case, exporter, operation, final)
			server.settle()
			if not same:
				self.partial(m, before, server.engine.dump(), final, fault, statement)
				with mysqld.exporter(server) as exporter:
					self.again(m, case, exporter, operation, final)
				m.event('repeated')
			self.equal(m, server.engine.dump(), final, 'repeating the operation after a failure gave another result', fault=vars(fault), statement=statement)
		if commit:
			m.event('commit_failed')
			if kind in ('drop_after', 'drop_rows'):
				m.event('committed_unknown')
		m.nontrivial((case['kind'], case['seed'], at, kind))
		m.seen('statement failed', (case['kind'], at))

	def several(self, case, m, rng, total, final):
		"""A new failure on every attempt, until it works."""
		server, operation = self.server(case)
		with server:
			for _ in range(rng.randint(2, 5)):
				before = server.engine.dump()
				fault = mysqld.Fault(server.statements + rng.randint(1, total), rng.choice(mysqld.Fault.KINDS))
				server.faults = [fault]
				with mysqld.exporter(server) as exporter:
					self.attempt(m, server, exporter, operation, fault, None)
				server.settle()
				self.partial(m, before, server.engine.dump(), final, fault, None)
				m.event('several_failures')
			server.faults = []
			with mysqld.exporter(server) as exporter:
				m.returns('repeating the operation', operation, m, exporter)
			self.equal(m, server.engine.dump(), final, 'repeating the operation after failures gave another result')
		m.nontrivial((case['seed'], rng.random()))

	def again(self, m, case, exporter, operation, final):
		outcome = m.call(operation, m, exporter)
		if case['kind'] == 'export' and not outcome.ok:
			import mysql.connector
			m.check(isinstance(outcome.exception, mysql.connector.IntegrityError), 'repeating the export failed', outcome=outcome)
			return  # it was stored after all
		m.check(outcome.ok, 'repeating the operation failed', outcome=outcome)

	def rows(self, dump):
		"""What the tables say, apart from row numbers: key -> content."""
		result = {}
		for name, table in dump.items():
			for r in table:
				if name == summary.SUMMARY:
					result[(name,) + tuple(r[k] for k in summary.KEYS)] = untied(r)
				else:
					key = r['timestamp_start'] if name == rain.TABLE else r['timestamp_weatherlink']
					result[(name, key)] = dict((k, v) for k, v in r.items() if k not in ('event_id', 'record_id'))
			if len(table) != sum(1 for k in result if k[0] == name):
				raise core.Violation('a table has two rows for one thing', {'table': name})
		return result

	def partial(self, m, before, after, final, fault, statement):
		"""Every row is as it was before or as it will be in the end."""
		old, now, new = self.rows(before), self.rows(after), self.rows(final)
		for key in sorted(set(old) | set(now), key=repr):
			content = now.get(key)
			allowed = [x.get(key) for x in (old, new)]
			m.check(content in allowed, 'a failed operation left an incomplete row', row=key, got=content, before=allowed[0], complete=allowed[1], fault=vars(fault), statement=statement)
		m.event('complete_rows')

	def equal(self, m, a, b, message, **details):
		a, b = self.rows(a), self.rows(b)
		for key in sorted(set(a) | set(b), key=repr):
			m.equal(a.get(key), b.get(key), message, row=key, **details)

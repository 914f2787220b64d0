"""The database connection: the configured one, always closed, errors unmasked, reusable."""
import datetime

from wlmon import core, mysqld, rain, stored, summary

NAMES = ('user', 'weather', 'we@ther', 'w\u00e4tter', "o'brien", 'a b', 'root')
SECRETS = ('', 'secret', "pa'ss\"w\\ord", '100%s', 'p\u00e4ss\u20ac', ' leading', ';--', 'x' * 60)


class Boom(Exception):
	pass


class Interrupt(BaseException):
	pass


class CHECK(core.Check):
	id = 'C36'
	rule = (
		'Connections of the real client to simulated servers on loopback addresses with random names, passwords and '
		'databases; contexts left normally, by errors of every kind, with a lost connection or a failing close; refused '
		'and rejected connections; explicit connecting and disconnecting in any order; operations that succeed and fail '
		'under a watch on every cursor. Non-trivial: a distinct life of an exporter.'
	)
	required = (
		'connected', 'closed', 'error_unmasked', 'interrupt_unmasked', 'close_failed', 'close_error_came_out', 'rejected', 'refused', 'reconnected',
		'disconnected_twice', 'disconnected_after_failed_close', 'lost', 'cursor_closed', 'cursor_close_failed', 'cursor_close_error_came_out', 'settings_changed',
	)

	def cases(self, tier, seed):
		for kind, quick, thorough in (('life', 120, 3000), ('context', 120, 3000), ('cursors', 60, 1200)):
			for c in self.seeded(tier, seed, kind, quick, thorough):
				yield c
		yield {'kind': 'defaults', 'seed': 'C36/defaults'}

	def server(self, rng, host=None):
		server = mysqld.Server(rng.random(), user=rng.choice(NAMES), password=rng.choice(SECRETS), host=host or rng.choice(('127.0.0.1', '127.0.0.2', '127.3.2.1')))
		server.database = rng.choice(('weather', 'wx_archive', 'Db-1', 'w\u00e4tter'))
		return server

	def exporter(self, m, server):
		from weatherlink.exporter.mysql import MySQLExporter
		return m.returns('MySQLExporter', MySQLExporter, server.user, server.password, server.database, server.host, server.port)

	def open(self, m, server, count, what):
		"""Exactly so many connections are open now, all with the right credentials."""
		alive = server.settle(count)
		m.equal(len(alive), count, 'open connections: %s' % what)
		for c in alive:
			m.equal((c.user, c.database), (server.user, server.database), 'credentials at the server: %s' % what)

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		getattr(self, case['kind'])(case, m, rng)
		m.nontrivial(case['seed'])

	def outcome(self, function):
		"""Like Monitor.call, but of interrupts too."""
		try:
			return core.Outcome(value=function())
		except (core.HarnessError, core.Violation):
			raise
		except BaseException as e:
			return core.Outcome(exception=e)

	# ---- leaving a context in every way
	def context(self, case, m, rng):
		import mysql.connector.connection
		classes = [mysql.connector.connection.MySQLConnection]
		try:
			import mysql.connector.connection_cext
			classes.append(mysql.connector.connection_cext.CMySQLConnection)
		except (ImportError, AttributeError):
			pass
		with self.server(rng) as server:
			exporter = self.exporter(m, server)
			for _ in range(rng.randint(1, 4)):
				how = rng.choice(('normal', 'error', 'interrupt', 'lost', 'database error'))
				failing = rng.random() < 0.4
				error = {'error': rng.choice((Boom('boom'), ValueError(), KeyError('x'), OSError(5, 'io'))), 'interrupt': Interrupt()}.get(how)
				close_error = rng.choice((Boom('close'), OSError(32, 'broken pipe'), mysql.connector.errors.OperationalError('gone')))
				originals, broken = [], []
				if failing:
					for c in classes:
						for name in ('close', 'disconnect'):
							original = c.__dict__.get(name)
							if original is not None:
								originals.append((c, name, original))

								def close(connection, original=original):
									if connection in broken:
										raise close_error
									if getattr(connection, '_socket', None) is None:
										return original(connection)  # nothing is open yet
									broken.append(connection)
									mysqld.hang_up(connection)
									raise close_error
								setattr(c, name, close)
					if not originals:
						raise core.HarnessError('the client library has no close to watch')
				state = {}

				def body():
					with exporter:
						self.open(m, server, 1, 'inside the context')
						m.event('connected')
						if how == 'lost':
							server.faults = [mysqld.Fault(server.statements + 1, 'drop')]
						elif how == 'database error':
							server.faults = [mysqld.Fault(server.statements + 1, 'error')]
						try:
							exporter.get_newest_timestamp()
						except Exception as e:
							state['original'] = e
							raise
						if error is not None:
							raise error
						return 17
				try:
					outcome = self.outcome(body)
					if broken and rng.random() < 0.7:
						for _ in range(2):
							m.returns('disconnecting again after a failed close', exporter.disconnect)
						m.event('disconnected_after_failed_close')
				finally:
					for c, name, original in originals:
						setattr(c, name, original)
					server.faults = []
				original = error or state.get('original')
				m.check(how not in ('lost', 'database error') or original is not None, 'a lost connection went unnoticed', outcome=outcome)
				if original is not None:
					m.check(outcome.exception is original, 'the error that ended the context did not come out', error=original, outcome=outcome, close_failed=failing)
					m.event('interrupt_unmasked' if how == 'interrupt' else 'lost' if how == 'lost' else 'error_unmasked')
				elif failing:
					m.check(outcome.exception is close_error, 'an error while closing was hidden', outcome=outcome)
					m.event('close_error_came_out')
				else:
					m.check(outcome.ok and outcome.value == 17, 'leaving the context failed', outcome=outcome)
				if failing:
					m.event('close_failed')
				self.open(m, server, 0, 'after the context (%s)' % how)
				if not failing and how not in ('lost',):
					m.check(all(c.quit for c in server.connections[-1:]), 'the connection was dropped, not closed', how=how)
				m.event('closed')
				m.seen('context', (how, failing))
			with exporter:
				self.open(m, server, 1, 'connected again')
				m.event('reconnected')
			self.open(m, server, 0, 'at the end')

	# ---- explicit connecting and disconnecting
	def life(self, case, m, rng):
		import mysql.connector
		with self.server(rng) as one, self.server(rng) as two:
			exporter = self.exporter(m, one)
			current, connected = one, False
			trace = []
			for _ in range(rng.randint(3, 12)):
				step = rng.choice(('connect', 'disconnect', 'disconnect', 'refused', 'wrong', 'move', 'use'))
				trace.append(step)
				if step == 'connect' and not connected:
					m.returns('connect', exporter.connect)
					connected = True
					m.event('connected')
					if trace.count('connect') > 1:
						m.event('reconnected')
				elif step == 'disconnect':
					m.returns('disconnect', exporter.disconnect)
					if not connected:
						m.event('disconnected_twice')
					connected = False
				elif step == 'refused' and not connected:
					current.refuse = rng.choice(('close', 'busy'))
					outcome = m.call(exporter.connect)
					current.refuse = None
					m.check(isinstance(outcome.exception, (mysql.connector.Error, OSError)), 'a refused connection went unnoticed', outcome=outcome)
					m.event('refused')
				elif step == 'wrong' and not connected:
					attribute = rng.choice(('username', 'password', 'database'))
					right = getattr(exporter, attribute)
					setattr(exporter, attribute, right + 'x')
					before = len(current.rejected)
					outcome = m.call(exporter.connect)
					setattr(exporter, attribute, right)
					m.check(isinstance(outcome.exception, mysql.connector.Error), 'rejected credentials went unnoticed', outcome=outcome, attribute=attribute)
					m.equal(len(current.rejected), before + 1, 'rejections at the server')
					m.event('rejected')
				elif step == 'move' and not connected:
					current = two if current is one else one
					exporter.username, exporter.password, exporter.database = current.user, current.password, current.database
					exporter.host, exporter.port = current.host, current.port
					m.event('settings_changed')
				elif step == 'use' and connected:
					m.equal(m.returns('get_newest_timestamp', exporter.get_newest_timestamp), None, 'newest timestamp of an empty table')
				for server in (one, two):
					self.open(m, server, int(connected and server is current), 'after %s' % trace)
			m.returns('disconnect', exporter.disconnect)
			m.returns('disconnect', exporter.disconnect)
			m.event('disconnected_twice')
			for server in (one, two):
				self.open(m, server, 0, 'at the end')
			m.event('closed')
			m.sample({'steps': trace, 'user': one.user, 'host': one.host, 'database': one.database})

	# ---- cursors
	def cursors(self, case, m, rng):
		import mysql.connector
		with mysqld.Server(rng.random()) as server:
			dates = [datetime.date(2016, 1, rng.randint(1, 28))]
			summary.insert(rng, server, [dict({'rain_total': 0, 'rain_rate_high': 0}, **{
				k: v for k, v in row.items() if v is not None or not k.startswith('rain')
			}) for row in summary.fill(rng, dates, (1, 4))])
			rows = rain.history(rng, 20, 60)
			rows = [r for r in rows if r[0].date() not in dates]
			rain.insert(rng, server, rows)
			with mysqld.exporter(server) as exporter:
				for _ in range(rng.randint(2, 6)):
					record, _ = stored.make_download(rng, date=datetime.datetime(2062, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24)), dash=0)
					name = rng.choice(('export', 'newest', 'recalculate', 'search'))
					operation = {
						'export': lambda: exporter.export_record(record), 'newest': exporter.get_newest_timestamp,
						'recalculate': lambda: exporter.recalculate_summaries_for_dates([summary.with_time(rng, dates[0])]),
						'search': exporter.find_new_rain_events,
					}[name]
					fault = None
					if rng.random() < 0.5:
						fault = mysqld.Fault(server.statements + rng.randint(1, 4), 'error')
						server.faults = [fault]
					failing = rng.random() < (0.5 if fault is not None else 0.3)
					which = rng.randint(1, 4)  # of the cursors fails to close, without another error
					close_error = mysql.connector.errors.InternalError('Unread result found.')

					state = []

					def on_close(number, close):
						m.event('cursor_closed')
						if failing and (number >= which if fault is None else fault.fired):
							close()
							m.event('cursor_close_failed')
							state.append(number)
							raise close_error
					with mysqld.Cursors(on_close) as cursors:
						outcome = m.call(operation)
					server.faults = []
					m.check(not cursors.open, 'a cursor is still open after an operation', operation=name, open=cursors.open, outcome=outcome)
					if fault is not None and fault.fired:
						m.check(isinstance(outcome.exception, mysql.connector.Error) and outcome.exception.errno == 1205, 'not the original error came out',
								outcome=outcome, close_failed=failing)
						m.event('error_unmasked')
					elif state:
						m.check(outcome.exception is close_error, 'the error of a cursor that fails to close was hidden', outcome=outcome, operation=name)
						m.event('cursor_close_error_came_out')
					elif name != 'export':
						m.check(outcome.ok, 'an operation failed', operation=name, outcome=outcome)
					m.seen('operation', (name, fault is not None and fault.fired, failing))
			self.open(m, server, 0, 'after the context')

	def defaults(self, case, m, rng):
		"""Without a host and port: the standard port of this machine."""
		from weatherlink.exporter.mysql import MySQLExporter
		try:
			server = mysqld.Server('defaults', port=3306)
		except OSError:
			m.event('standard_port_taken')
			return
		with server:
			exporter = m.returns('MySQLExporter', MySQLExporter, server.user, server.password, server.database)
			with exporter:
				self.open(m, server, 1, 'with the defaults')
			self.open(m, server, 0, 'after the context')
			m.event('standard_port')

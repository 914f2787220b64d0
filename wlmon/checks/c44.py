"""Credentials reach only the service they belong to: taint monitoring of everything that leaves the library."""
import base64
import binascii
import datetime
import io
import logging
import os
import shutil
import string
import sys
import tempfile
import traceback
import warnings

from six.moves.urllib.parse import quote, quote_plus

from wlmon import core, httpsim, mysqld, rain, service, stored, summary, uploads, wire
from wlmon.checks.c32 import packet

ELSEWHERE = ('http://elsewhere.example/a', 'https://elsewhere.example/b?c=d', '//elsewhere.example/', 'http://api.weatherlink.com/', '/other')


class Secret(object):
	"""A credential and the forms it could be recognized in."""
	def __init__(self, rng, owner, what):
		self.owner, self.what = owner, what
		# The middle of it is found in any text that contains it, however the rest is quoted
		self.core = ''.join(rng.choice(string.ascii_letters + string.digits) for _ in range(12))
		self.text = rng.choice(('', 'a', '&', '%', "'", '{', ' ')) + self.core + rng.choice(('', 'z', '=', '#', '"', '}', '\u00e4'))
		encoded = self.text.encode('utf-8')
		self.forms = {self.core, self.core[::-1], binascii.hexlify(encoded).decode(), base64.b64encode(encoded).decode().rstrip('='), quote(self.text, safe=''),
				quote_plus(self.text)}
		# Inside of something longer, at each alignment
		for pad in (b'', b'x', b'xx'):
			self.forms.add(base64.b64encode(pad + self.core.encode())[4:-4].decode())

	def within(self, text):
		return any(f in text for f in self.forms)


class Log(logging.Handler):
	def __init__(self):
		logging.Handler.__init__(self, 1)
		self.lines = []

	def emit(self, record):
		self.lines.append('%s %r %r' % (record.msg, record.args, record.exc_info))


class CHECK(core.Check):
	id = 'C44'
	rule = (
		'Two stations in one program, with downloaders, upload and database exporters whose passwords and tokens are random '
		'markers; operations that succeed and that fail in every way (error statuses, other types, redirections elsewhere, '
		'rejected logins, failing statements, lost connections). Every request, every packet to the database, every error '
		'with its chain, everything printed, logged, warned, stored or left in files is searched for the markers. '
		'Non-trivial: a distinct session.'
	)
	required = (
		'downloaded', 'download_failed', 'uploaded', 'upload_failed', 'exported', 'database_failed', 'redirected', 'rejected', 'own_credential_sent',
		'errors_searched', 'texts_searched', 'packets_searched', 'verified', 'undated',
	)

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'session', 80, 2500):
			yield c

	def run(self, case, m):
		from weatherlink.downloader import Downloader
		from weatherlink.exporter.mysql import MySQLExporter
		from weatherlink.exporter.wunderground import WundergroundExporter
		rng = core.rng_for(case['seed'])
		self.secrets = []

		def secret(owner, what):
			self.secrets.append(Secret(rng, owner, what))
			return self.secrets[-1].text

		out, errors, log = io.StringIO(), io.StringIO(), Log()
		directory = tempfile.mkdtemp(prefix='wlmon-secrets-')
		here, streams, root = os.getcwd(), (sys.stdout, sys.stderr), logging.getLogger()
		level, hook, temporary = root.level, warnings.showwarning, tempfile.tempdir
		servers = [mysqld.Server('%s/%d' % (case['seed'], i), password=secret(('database', i), None)) for i in range(2)]
		environment = {k: os.environ.get(k) for k in ('HOME', 'TMPDIR', 'REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE')}
		try:
			os.chdir(directory)
			os.environ['HOME'] = os.environ['TMPDIR'] = tempfile.tempdir = directory
			os.environ.pop('REQUESTS_CA_BUNDLE', None)  # overrides what a session says about verification
			os.environ.pop('CURL_CA_BUNDLE', None)
			sys.stdout, sys.stderr = out, errors
			root.addHandler(log)
			root.setLevel(1)
			warnings.showwarning = lambda *a, **k: log.lines.append(repr(a))
			for s in servers:
				s.received = []
				s.__enter__()
			objects = []
			for i in range(2):
				objects.append((
					m.returns('Downloader', Downloader, 'user%d' % i, secret(('download', i), 'pass'), secret(('download', i), 'apiToken')),
					m.returns('WundergroundExporter', WundergroundExporter, 'KTN%d' % i, secret(('upload', i), 'PASSWORD')),
					m.returns('MySQLExporter', MySQLExporter, servers[i].user, servers[i].password, servers[i].database, servers[i].host, servers[i].port),
				))
			self.outcomes = []
			for _ in range(rng.randint(4, 14)):
				i = rng.randrange(2)
				how = rng.choice((self.download, self.download, self.upload, self.upload, self.database))
				how(m, rng, i, objects[i], servers[i])
			environ = repr(dict(os.environ)) + repr(sys.argv)
		finally:
			warnings.showwarning = hook
			root.setLevel(level)
			root.removeHandler(log)
			sys.stdout, sys.stderr = streams
			tempfile.tempdir = temporary
			for k, v in environment.items():
				if v is None:
					os.environ.pop(k, None)
				else:
					os.environ[k] = v
			os.chdir(here)
			files = {}
			for path, _, names in os.walk(directory):
				for name in names:
					with open(os.path.join(path, name), 'rb') as f:
						files[os.path.relpath(os.path.join(path, name), directory)] = f.read().decode('latin-1')
			shutil.rmtree(directory, ignore_errors=True)
			for s in servers:
				s.__exit__(None, None, None)

		if 'WARN' in out.getvalue():
			m.event('warned')
		self.search(m, 'what was printed', out.getvalue() + errors.getvalue())
		self.search(m, 'what was logged', '\n'.join(log.lines))
		self.search(m, 'the environment', environ)
		for name, content in files.items():
			self.search(m, 'a file', content + name, file=name)
		for o in objects:
			for thing in o:
				self.search(m, 'the text of an object', '%s %r %s' % (thing, thing, type(thing).__doc__), object=type(thing).__name__)
				m.event('texts_searched')
		for s in servers:
			for data in s.received:
				self.search(m, 'what was sent to the database', data.decode('latin-1'))
				m.event('packets_searched')
			for table in ('weather_archive_record', 'weather_calculated_summary', 'weather_rain_event'):
				self.search(m, 'a table', repr(s.rows(table)), table=table)
		m.nontrivial((case['seed'], self.outcomes))
		m.sample({'outcomes': self.outcomes})

	def search(self, m, what, text, **details):
		m.comparisons += 1
		for s in self.secrets:
			if s.within(text):
				at = next(text.index(f) for f in s.forms if f in text)
				m.fail('a credential is found in %s' % what, credential=s.owner, around=text[max(0, at - 60):at + 60], **details)

	def judge(self, m, outcome, what):
		"""The error of an operation, with everything that is attached to it."""
		self.outcomes.append('%s %s' % (what, 'done' if outcome.ok else type(outcome.exception).__name__))
		if outcome.ok:
			self.search(m, 'a result', repr(outcome.value), operation=what)
			return
		e, seen = outcome.exception, set()
		while e is not None and id(e) not in seen:
			seen.add(id(e))
			self.search(m, 'an error', '%s %r %r' % (e, e, e.args), operation=what)
			m.event('errors_searched')
			e = e.__cause__ or e.__context__
		e = outcome.exception
		self.search(m, 'a traceback', ''.join(traceback.format_exception(type(e), e, e.__traceback__)), operation=what)

	def requests(self, m, transport, owner, hosts, encrypted):
		"""Each request carries the credentials of its own account, as the parameters for them, to the service, and no others."""
		for request in transport.requests:
			at_service = request.parts.hostname in hosts
			for s in self.secrets:
				allowed = s.owner == owner and s.what and at_service
				pairs = list(request.pairs)
				if allowed and (s.what, s.text) in pairs:
					pairs.remove((s.what, s.text))
					m.event('own_credential_sent')
				rest = [request.parts.scheme, request.parts.netloc, request.parts.path, request.parts.fragment, repr(pairs), repr(request.headers), repr(request.body)]
				for text in rest:
					if s.within(text):
						m.fail('a credential is sent where it does not belong', credential=s.owner, host=request.parts.hostname, path=request.parts.path,
								parameters=pairs, headers=request.headers)
				m.comparisons += 1
			if not at_service:
				m.event('redirected')
			elif encrypted and any(s.owner == owner and s.within(request.url) for s in self.secrets):
				m.equal(request.parts.scheme, 'https', 'the connection that the password is sent over')
				m.check(request.options.get('verify', True), 'the password is sent without verifying who receives it', options=request.options)
				m.event('verified')

	def misbehave(self, rng, request):
		"""An answer that is none, or None."""
		how = rng.choice(('status', 'redirect', 'type', 'body', 'network', 'cookie'))
		if how == 'status':
			return httpsim.message(status=rng.choice((400, 401, 403, 404, 429, 500, 503)), headers=[('Content-Type', 'text/html')], body=b'no')
		if how == 'redirect':
			return httpsim.message(status=rng.choice((301, 302, 303, 307, 308)), headers=[('Location', rng.choice(ELSEWHERE))])
		if how == 'network':
			return httpsim.connection_error(rng)
		if how == 'cookie':
			return httpsim.message(status=401, headers=[('Content-Type', 'text/plain'), ('WWW-Authenticate', 'Basic realm="x"')], body=b'Model=x')
		return httpsim.message(headers=[('Content-Type', 'text/css' if how == 'type' else 'text/html')], body=rng.choice((b'', b'Model=9\n', b'unauthorized\nx=y')))

	def download(self, m, rng, i, objects, server):
		date, archive = wire.random_date(rng, 2001, 2060), []
		for _ in range(rng.randint(0, 4)):
			archive.append((date, wire.encode_download(wire.plausible_raw(wire.DOWNLOAD, rng, 0.1), date, rng)))
			date += datetime.timedelta(minutes=30)
		if archive and rng.random() < 0.4:
			archive.insert(rng.randrange(len(archive) + 1), (date, service.undated(rng)))
			m.event('undated')
		served = service.Service(rng, archive, 30)
		bad = rng.choice((None, None, 0, 1))

		def handler(request):
			if request.parts.hostname != 'api.weatherlink.com' or not request.parameters:
				return httpsim.message(headers=[('Content-Type', 'text/html')], body=b'elsewhere')
			if bad == served.count:
				served.count += 1
				return self.misbehave(rng, request)
			return served(request)
		with httpsim.Transport(handler) as transport:
			outcome = m.call(objects[0].download, 0)
		self.requests(m, transport, ('download', i), ('api.weatherlink.com', ), True)
		self.judge(m, outcome, 'download')
		self.search(m, 'the records', repr(objects[0].records))
		m.event('downloaded' if outcome.ok else 'download_failed')

	def upload(self, m, rng, i, objects, server):
		uploader = objects[1]
		if rng.random() < 0.5:
			record, _ = stored.make(rng)
			send, host = uploader.send_simple_update, uploads.SIMPLE_HOST
		else:
			record, _ = packet(rng, wire.plausible_raw(wire.LOOP2, rng, 0.1), wire.random_date(rng))
			send, host = uploader.send_rapid_update, uploads.RAPID_HOST
		bad = rng.random() < 0.5

		def handler(request):
			if bad and request.parts.hostname == host and request.parameters:
				return self.misbehave(rng, request)
			return httpsim.message(headers=[('Content-Type', 'text/html')], body=b'success')
		with httpsim.Transport(handler) as transport:
			outcome = m.call(send, record)
		self.requests(m, transport, ('upload', i), (host, ), False)
		self.judge(m, outcome, 'upload')
		self.search(m, 'the record', repr(dict(record)))
		m.event('uploaded' if outcome.ok else 'upload_failed')

	def database(self, m, rng, i, objects, server):
		exporter = objects[2]
		how = rng.choice(('ok', 'ok', 'rejected', 'refused', 'fault', 'fault'))
		password = server.password
		if how == 'rejected':
			server.password = 'changed'
		elif how == 'refused':
			server.refuse = rng.choice(('close', 'busy'))
		elif how == 'fault':
			server.faults = [mysqld.Fault(server.statements + rng.randint(1, 5), rng.choice(('drop', 'error', 'deadlock')))]
		date = wire.random_date(rng, 2005, 2055)
		readings, _ = stored.make(rng)
		readings['date'] = date
		readings['timestamp'] = wire.timestamp_of(date)

		def use():
			with exporter:
				exporter.export_record(readings)
				exporter.get_newest_timestamp()
				if rng.random() < 0.3:
					exporter.recalculate_summaries_for_dates([date])
		try:
			outcome = m.call(use)
		finally:
			server.password, server.refuse, server.faults = password, None, []
		self.judge(m, outcome, 'export')
		m.event('exported' if outcome.ok else 'rejected' if how == 'rejected' else 'database_failed')

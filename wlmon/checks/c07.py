"""Downloads: exactly the records the service sent, or an error."""
from wlmon import core, httpsim, readings, service, wire
from wlmon.checks.c02 import expected_download

ALPHABET = 'abcXYZ019 &=%#+?/:;@!$\'"<>\\~^|`{}[](),.-_*\u00e9\u20ac'


def secret(rng):
	return ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 16)))


class CHECK(core.Check):
	id = 'C07'
	rule = (
		'Downloads of 0 to 60 random records with random credentials over every HTTP framing; undated records; wrong '
		'models, types, encodings; streams cut at any byte; failing requests; one downloader used again. Non-trivial: a '
		'distinct session.'
	)
	required = ('downloaded', 'request', 'undated', 'truncated_refused', 'odd_response_refused', 'network_error', 'reused', 'bad_record_refused',
				'constructor_refused')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'clean', 200, 3000):
			yield c
		for c in self.seeded(tier, seed, 'truncated', 120, 2000):
			yield c
		for kind in ('odd_header', 'odd_data', 'bad_record', 'network', 'undated'):
			for c in self.seeded(tier, seed, kind, 60, 600):
				yield c
		for encoding in ('br', 'compress', 'deflate', 'gzip'):
			for i in range(3):
				yield {'kind': 'odd_data', 'encoding': encoding, 'seed': 'C07/encoding/%s/%d/%d' % (encoding, seed, i)}
		yield {'kind': 'constructor', 'seed': 'C07/constructor'}

	def check_requests(self, m, requests, when, credentials, expected):
		m.equal(len(requests), expected, 'number of requests')
		want = str(when if isinstance(when, int) else wire.timestamp_of(when))
		for request, action in zip(requests, ('headers', 'data')):
			m.equal((request.method, request.parts.scheme, request.parts.hostname, request.parts.path), ('GET', 'https', 'api.weatherlink.com', '/webdl.php'),
					'request')
			m.check(request.parts.port is None and not request.parts.fragment, 'odd URL', url=request.url)
			m.equal(sorted(request.pairs), sorted([
				('timestamp', want), ('user', credentials[0]), ('pass', credentials[1]), ('apiToken', credentials[2]), ('action', action),
			]), 'request parameters', url=request.url)
			m.event('request')
		if expected == 2:
			accepted = [v for k, v in requests[1].headers.items() if k.lower() == 'accept-encoding']
			m.equal(accepted, ['identity'], 'the data was not asked for uncompressed')

	def compare(self, m, downloader, items, span, header):
		m.check(isinstance(downloader.records, (list, tuple)), 'no records', records=downloader.records)
		m.equal([readings.get(r, 'date') for r in downloader.records], [d for _, d in items], 'records downloaded')
		for record, (raw, date) in zip(downloader.records, items):
			readings.check_readings(m, record, expected_download(raw, date, span), 'downloaded record', raw=raw)
		m.equal((downloader.console_version, downloader.record_minute_span, downloader.record_count, downloader.max_account_records), header, 'header values')

	def run(self, case, m):
		import weatherlink.downloader as module
		rng = core.rng_for(case['seed'])
		kind = case['kind']
		if kind == 'constructor':
			for credentials in ((None, 'p', 't'), ('', 'p', 't'), ('u', None, 't'), ('u', '', 't'), ('u', 'p', None), ('u', 'p', ''), ('', '', '')):
				outcome = m.call(module.Downloader, *credentials)
				m.check(isinstance(outcome.exception, ValueError), 'missing credentials were accepted', credentials=credentials, outcome=outcome)
				m.event('constructor_refused')
			m.nontrivial('constructor')
			return
		credentials = (secret(rng), secret(rng), secret(rng))
		downloader = m.returns('Downloader', module.Downloader, *credentials)
		for name in ('console_version', 'record_minute_span', 'record_count', 'max_account_records', 'records'):
			m.equal(getattr(downloader, name, 'nothing'), None, '%s before a download' % name)
		for again in range(2 if rng.random() < 0.3 else 1):
			self.session(case, m, rng, kind if again == 0 else 'clean', downloader, credentials)
			if again:
				m.event('reused')

	def session(self, case, m, rng, kind, downloader, credentials):
		count = rng.choice((0, 1, 2, 5, 20, 60)) if kind == 'clean' else rng.choice((1, 2, 5, 20))
		items = [(wire.random_raw(wire.DOWNLOAD, rng), wire.random_date(rng)) for _ in range(count)]
		encoded = [wire.encode_download(raw, date, rng) for raw, date in items]
		span = rng.choice((1, 5, 10, 15, 30, 60, 120))
		maximum = rng.choice(('25600', '0', '5120'))
		header = ('1.%02d' % rng.randrange(100), span, count, int(maximum))
		model, bad_at = '16', rng.randrange(count) if count else 0
		text_type, text_status = None, 200
		data_options = {}
		surplus = rng.choice((b'', b'\xff' * 52, encoded[0])) if count and kind == 'clean' else b''
		if kind == 'undated':
			encoded[bad_at] = service.undated(rng)
		elif kind == 'bad_record':
			bad = bytearray(encoded[bad_at])
			bad[wire.DOWNLOAD_TYPE_OFFSET] = rng.choice((1, 2, 127, 254, 255))
			encoded[bad_at] = bytes(bad)
		elif kind == 'odd_header':
			how = rng.randrange(5)
			if how == 0:
				model = rng.choice(('17', '0', '', '1', '160'))
			elif how == 1:
				text_type = rng.choice(('application/octet-stream', 'application/json', 'image/png', 'text/xml', 'text/css', 'text/javascript', 'application/xhtml+xml'))
		elif kind == 'odd_data':
			how = 2 if 'encoding' in case else rng.randrange(3)
			if how == 0:
				data_options['content_type'] = rng.choice(('text/html', 'text/plain', 'application/json'))
			elif how == 1:
				data_options['transfer'] = rng.choice((None, 'base64', 'quoted-printable', '7bit'))
			else:
				data_options['encoding'] = case.get('encoding') or rng.choice(('br', 'compress', 'deflate', 'gzip'))
		text = service.headers_text(rng, count, span, model, header[0], maximum)
		if kind == 'odd_header' and how >= 2:
			lines = text.splitlines()
			if how == 2:
				lines = [l for l in lines if not l.startswith(rng.choice(('Model', 'Records', 'ArchiveInt')))]
				if len(lines) == len(text.splitlines()):
					lines = []
			elif how == 3:
				lines = ['<html>', 'login failed', '</html>']
			else:
				lines = [('Records=many' if l.startswith('Records') else l) for l in lines]
			text = '\n'.join(lines)
		body = b''.join(encoded) + surplus
		if kind == 'truncated':
			data_options['cut'] = rng.choice((0, 1, 51, len(body) - 1, rng.randrange(len(body)), 52 * rng.randrange(count)))
			data_options['cut'] = min(data_options['cut'], len(body) - 1)
			data_options['framing'] = rng.choice(('length', 'close', 'chunked'))
		network_at = rng.randrange(2)

		def handler(request):
			first = len(transport.requests) == 1
			if kind == 'network' and (network_at == 0) == first:
				return error
			if request.parameters.get('action') == 'headers':
				return service.header_response(rng, text, text_type, text_status)
			return service.data_response(rng, body, **data_options)
		error = httpsim.connection_error(rng)
		when = rng.choice((wire.random_date(rng), wire.timestamp_of(wire.random_date(rng)), 0))
		with httpsim.Transport(handler) as transport:
			outcome = m.call(downloader.download, when)
		if kind in ('clean', 'undated'):
			m.check(outcome.ok, 'a download failed', outcome=outcome)
			self.check_requests(m, transport.requests, when, credentials, 2)
			self.compare(m, downloader, items[:bad_at] if kind == 'undated' else items, span, header)
			m.event('downloaded' if kind == 'clean' else 'undated')
		else:
			m.check(not outcome.ok, 'an invalid download succeeded', kind=kind, options=data_options, header=text)
			if kind == 'network':
				m.check(outcome.exception is error, 'the network error was replaced', outcome=outcome)
				m.event('network_error')
			elif kind == 'truncated':
				m.event('truncated_refused')
			elif kind == 'bad_record':
				m.event('bad_record_refused')
			else:
				m.event('odd_response_refused')
				if data_options.get('encoding'):
					m.check(isinstance(outcome.exception, ValueError), 'a compressed response was not refused as a value', outcome=outcome)
			self.check_requests(m, transport.requests, when, credentials, 1 if kind == 'odd_header' or (kind == 'network' and network_at == 0) else 2)
		m.nontrivial((kind, credentials, body, text))
		m.sample({'kind': kind, 'records': count, 'user': credentials[0]})

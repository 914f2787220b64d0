"""A simulated WeatherLink.com download service and the archive behind it."""
from wlmon import httpsim, wire


def headers_text(rng, count, span, model='16', version='1.90', maximum='25600', extra=True):
	lines = [('Model', model), ('ConsoleVer', version), ('ArchiveInt', str(span)), ('Records', str(count)), ('MaxRecords', maximum)]
	if extra and rng.random() < 0.5:
		lines.insert(rng.randrange(6), ('ConsoleDate', 'Jun 12 2013=x'))
	rng.shuffle(lines)
	pad = rng.choice(('', ' '))
	return rng.choice(('\n', '\r\n')).join('%s%s=%s%s' % (k, pad, pad, v) for k, v in lines) + rng.choice(('', '\n'))


def header_response(rng, text, content_type=None, status=200):
	return httpsim.message(status=status, headers=[('Content-Type', content_type or rng.choice(('text/html', 'text/plain')))],
						body=text.encode('ascii'), framing=rng.choice(('length', 'chunked', 'close')))


def data_response(rng, body, content_type='application/octet-stream', transfer='binary', encoding=None, framing=None, cut=None):
	headers = [('Content-Type', content_type)]
	if transfer is not None:
		headers.append(('Content-Transfer-Encoding', transfer))
	if encoding:
		headers.append(('Content-Encoding', encoding))
	return httpsim.message(headers=headers, body=body, framing=framing or rng.choice(('length', 'chunked', 'close')), cut=cut)


def undated(rng):
	return b'\x00\x00' + bytes(bytearray(rng.randrange(256) for _ in range(wire.DOWNLOAD_LENGTH - 2)))


class Service(object):
	"""Serves the records after the requested timestamp.  archive: list of (date, 52 bytes) in order."""
	def __init__(self, rng, archive, span):
		self.rng, self.archive, self.span = rng, archive, span
		self.fail_at = {}  # request number -> exception, or ('cut', bytes)
		self.count = 0

	def __call__(self, request):
		number = self.count
		self.count += 1
		after = int(request.parameters['timestamp'])
		chosen = [data for date, data in self.archive if wire.timestamp_of(date) > after]
		fault = self.fail_at.get(number)
		if isinstance(fault, BaseException):
			return fault
		if request.parameters['action'] == 'headers':
			return header_response(self.rng, headers_text(self.rng, len(chosen), self.span))
		body = b''.join(chosen)
		if fault:
			return data_response(self.rng, body, framing='close', cut=min(fault[1], max(0, len(body) - 1)))
		return data_response(self.rng, body)

"""
A simulated HTTP transport: replaces only the transport adapter of requests.  Sessions, URL handling, http.client's and
urllib3's response parsing are the real ones, fed with raw response bytes.
"""
import http.client
import io
import traceback

import requests
import requests.adapters
import urllib3
import urllib3.response
from six.moves.urllib.parse import parse_qsl, urlsplit

from wlmon import core


class _Socket(object):
	def __init__(self, data):
		self.data = data

	def makefile(self, *_, **__):
		return self.data.opened() if hasattr(self.data, 'opened') else io.BytesIO(self.data)


def message(status=200, reason='OK', headers=(), body=b'', framing='length', cut=None):
	"""Raw HTTP response bytes.  framing: length, chunked or close.  cut: only so many bytes of the (framed) body arrive."""
	head = ['HTTP/1.1 %d %s' % (status, reason)] + ['%s: %s' % h for h in headers]
	if framing == 'length':
		head.append('Content-Length: %d' % len(body))
	elif framing == 'chunked':
		head.append('Transfer-Encoding: chunked')
		framed, i, sizes = b'', 0, (1, 7, 51, 52, 53, 104, 1000)
		while i < len(body):
			n = min(sizes[i % len(sizes)], len(body) - i)
			framed += b'%x\r\n' % n + body[i:i + n] + b'\r\n'
			i += n
		body = framed + b'0\r\n\r\n'
	else:
		head.append('Connection: close')
	if cut is not None:
		body = body[:cut]
	return ('\r\n'.join(head) + '\r\n\r\n').encode('latin-1') + body


class Request(object):
	def __init__(self, prepared, options=None):
		self.options = options or {}  # how it is to be sent: verify, cert, proxies
		self.body = prepared.body
		self.method = prepared.method
		self.url = prepared.url
		self.headers = dict(prepared.headers)
		self.parts = urlsplit(prepared.url)
		self.pairs = parse_qsl(self.parts.query, keep_blank_values=True, strict_parsing=False)
		self.parameters = dict(self.pairs)


class Transport(object):
	"""handler(Request) -> raw response bytes, or an exception to raise."""
	def __init__(self, handler):
		self.handler = handler
		self.requests = []

	def __enter__(self):
		transport = self
		self.original = requests.adapters.HTTPAdapter.send

		def send(adapter, request, *args, **kwargs):
			seen = Request(request, kwargs)
			transport.requests.append(seen)
			if len(transport.requests) > 2000:
				raise core.HarnessError('too many requests')
			try:
				answer = transport.handler(seen)
			except Exception as e:
				raise core.HarnessError('the simulated service failed: %s' % ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
			if isinstance(answer, BaseException):
				raise answer
			parsed = http.client.HTTPResponse(_Socket(answer), method=request.method)
			parsed.begin()
			raw = urllib3.response.HTTPResponse(
				body=parsed, headers=urllib3.HTTPHeaderDict(parsed.headers.items()), status=parsed.status, version=parsed.version, reason=parsed.reason,
				preload_content=False, decode_content=False, original_response=parsed, request_method=request.method,
			)
			return adapter.build_response(request, raw)
		requests.adapters.HTTPAdapter.send = send
		return self

	def __exit__(self, *_):
		requests.adapters.HTTPAdapter.send = self.original


def connection_error(rng):
	return rng.choice((
		requests.exceptions.ConnectionError('connection refused'), requests.exceptions.ReadTimeout('read timed out'),
		requests.exceptions.ConnectTimeout('connect timed out'),
	))

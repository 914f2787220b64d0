"""Hostile input: whatever comes from outside, every operation ends, after a proportionate amount of work."""
import datetime
import os
import shutil
import socket
import struct
import sys
import tempfile
import threading

from wlmon import console, core, httpsim, mysqld, rain, service, stored, summary, wire, wlkfile
from wlmon.checks.c42 import outcome_of

try:
	import tracemalloc
	tracemalloc.start
except (ImportError, AttributeError):
	tracemalloc = None

NUMBERS = ('0', '-1', '1', '2', '32767', '65536', '9' * 30, '1e9', '0x10', '', ' ', 'None', '1.5', '\u0663', '+1', '1_0', 'inf')
COUNTS = ('4000000', '5000000', '6000000', '7000000')  # too many to hold, few enough to do so by mistake


class Endless(BaseException):
	pass


class Steps(object):
	"""Counts the lines of the code under test that a call executes, and ends it at a limit."""
	def __init__(self, limit):
		import weatherlink
		self.prefix = os.path.dirname(os.path.realpath(weatherlink.__file__)) + os.sep
		self.limit = limit
		self.known = {}
		self.count = 0
		self.exceeded = False

	def trace(self, frame, event, argument):
		name = frame.f_code.co_filename
		try:
			return self.known[name]
		except KeyError:
			self.known[name] = self.line if os.path.realpath(name).startswith(self.prefix) else None
			return self.known[name]

	def line(self, frame, event, argument):
		if event == 'line':
			self.count += 1
			if self.count > self.limit:
				self.exceeded = True
				raise Endless('%s:%s' % (frame.f_code.co_filename, frame.f_lineno))
		return self.line

	def __enter__(self):
		self.before = sys.gettrace()
		sys.settrace(self.trace)
		return self

	def __exit__(self, *_):
		sys.settrace(self.before)


def damaged(rng, data, unit=0):
	"""(name of the damage, the damaged bytes)"""
	data = bytearray(data)
	how = rng.choice(('flip', 'set', 'cut', 'insert', 'delete', 'repeat', 'random', 'fill', 'words', 'swap', 'empty', 'none', 'several'))
	if how == 'several':
		for _ in range(rng.randint(2, 5)):
			data = bytearray(damaged(rng, data, unit)[1])
		return how, bytes(data)
	size = len(data)
	at = rng.randrange(size + 1)
	length = rng.choice((1, 1, 2, 4, unit or 8, rng.randint(1, 200)))
	noise = bytearray(rng.randrange(256) for _ in range(length))
	if how == 'flip':
		for _ in range(rng.choice((1, 1, 3, 20))):
			if size:
				data[rng.randrange(size)] ^= 1 << rng.randrange(8)
	elif how == 'set':
		data[at:at + length] = bytearray([rng.choice((0, 1, 0x7F, 0x80, 0xFF, 10, 13, 61))]) * len(data[at:at + length])
	elif how == 'cut':
		del data[at:]
	elif how == 'insert':
		data[at:at] = noise
	elif how == 'delete':
		del data[at:at + length]
	elif how == 'repeat':
		data[at:at] = data[at:at + length] * rng.choice((1, 5, 50))
	elif how == 'random':
		data = bytearray(rng.randrange(256) for _ in range(rng.choice((0, 1, size, rng.randint(0, 2 * size + 100)))))
	elif how == 'fill':
		data = bytearray([rng.choice((0, 0xFF, 0x20, 0x80))]) * rng.choice((size, 10 * size, 5000))
	elif how == 'words':
		for _ in range(rng.choice((1, 2, 10))):
			i = rng.randrange(0, max(1, size - 1))
			data[i:i + 2] = struct.pack('<h', rng.choice((0, 1, -1, 32767, -32768, 2, 255)))[:max(0, size - i)]
	elif how == 'swap':
		other = rng.randrange(size + 1)
		data[at:at + length], data[other:other + length] = data[other:other + length], data[at:at + length]
	elif how == 'empty':
		data = bytearray()
	return how, bytes(data)


class CHECK(core.Check):
	id = 'C43'
	rule = (
		'Damaged and made-up bytes in place of everything that comes from outside: acknowledgments, packets and settings of a console, header '
		'texts, records and answers of web services, month files, database rows; each operation under a limit of executed lines and of memory '
		'in proportion to the input, then the same object with good input. Non-trivial: a distinct input.'
	)
	required = (
		'console', 'settings', 'service', 'file', 'answer', 'database', 'ended_with_error', 'ended_with_result', 'good_afterwards', 'endless_console', 'measured_memory',
		'huge_count',
	)

	def cases(self, tier, seed):
		for kind, quick, thorough in (('console', 120, 2500), ('settings', 80, 1500), ('service', 200, 4000), ('file', 200, 4000), ('answer', 60, 800), ('database', 30, 500)):
			for c in self.seeded(tier, seed, kind, quick, thorough):
				yield c

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		getattr(self, case['kind'])(case, m, rng)
		m.event(case['kind'])
		m.nontrivial(case['seed'])

	def hostile(self, m, what, size, function, *args, **how):
		"""Run one operation on `size` bytes of input."""
		limit = 20000 + 150 * size
		memory = tracemalloc is not None and not tracemalloc.is_tracing() and (size % 3 == 0 or how.get('measured', False))
		if memory:
			tracemalloc.start()
		try:
			with Steps(limit) as steps:
				outcome = outcome_of(function, *args)
			peak = tracemalloc.get_traced_memory()[1] if memory else 0
		finally:
			if memory:
				tracemalloc.stop()
		m.check(not steps.exceeded, 'an operation does not end', operation=what, bytes=size, lines=steps.count, where=str(outcome.exception))
		if memory:
			m.check(peak < 4000000 + 400 * size, 'an operation needs memory out of proportion', operation=what, bytes=size, peak=peak)
			m.event('measured_memory')
		if outcome.ok:
			m.event('ended_with_result')
		else:
			e = outcome.exception
			m.check(isinstance(e, Exception) and not isinstance(e, (MemoryError, RecursionError, SystemError, core.HarnessError)), 'an operation ended with no ordinary error',
					operation=what, outcome=outcome)
			m.event('ended_with_error')
			m.seen('error', (what, type(e).__name__))
		m.seen('lines', (what, steps.count))
		m.event('lines', steps.count)
		return outcome

	# ---- a console
	def talk(self, rng, ack, stream, endless):
		"""A console that answers the first instruction with these bytes, then ends the connection."""
		listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
		listener.bind(('127.0.0.1', 0))
		listener.listen(1)

		def serve():
			try:
				s, _ = listener.accept()
			except OSError:
				return
			try:
				s.settimeout(console.WAIT)
				s.recv(1000)
				s.sendall(ack + stream)
				sent = 0
				while endless and sent < 1 << 20:
					s.sendall(stream or b'\x00' * 99)
					sent += len(stream) or 99
				if endless:
					while s.recv(1000):
						pass
			except OSError:
				pass
			finally:
				s.close()
		thread = threading.Thread(target=serve, name='wlmon-hostile')
		thread.daemon = True
		thread.start()
		return listener, thread

	def answered(self, m, rng, operation, good, what, wanted):
		"""The operation on a damaged answer, then on a good one, with one poller."""
		poller = console.poller(0)
		how, stream = damaged(rng, good, 99)
		ack = rng.choice((b'\x06',) * 6 + (b'', b'\x15', b'\x21', b'\x18', b'\x00', b'\xff', b'\n\r\x06', b'\x06\x06'))
		endless = rng.random() < 0.15
		m.seen('damage', (what, how, ack))
		for attempt in ('hostile', 'good'):
			listener, thread = self.talk(rng, ack if attempt == 'hostile' else b'\x06', stream if attempt == 'hostile' else good, endless and attempt == 'hostile')
			try:
				poller.port = listener.getsockname()[1]
				m.returns('connect', poller.connect)
				if attempt == 'hostile':
					# It asked for so much: whatever else is sent costs nothing
					outcome = self.hostile(m, what, len(good), operation, poller)
					if endless:
						m.event('endless_console')
					if outcome.ok and ack + stream != b'\x06' + good and not endless:
						m.check(len(ack + stream) >= len(good), 'a result without enough bytes', operation=what, outcome=outcome, sent=len(stream))
				else:
					outcome = m.call(operation, poller)
					m.check(outcome.ok and core.same(outcome.value, wanted), 'good input after hostile input', operation=what, outcome=outcome)
					m.event('good_afterwards')
				m.returns('disconnect', poller.disconnect)
			finally:
				listener.close()
				thread.join(console.WAIT)
				if thread.is_alive():
					raise core.HarnessError('the hostile console does not end')

	def console(self, case, m, rng):
		count = rng.randint(1, 6)
		packets = [wire.encode_loop2(wire.random_raw(wire.LOOP2, rng), 0, rng) for _ in range(count)]
		good = b''.join(packets)
		listener, thread = self.talk(rng, b'\x06', good, False)
		poller = console.poller(listener.getsockname()[1])
		m.returns('connect', poller.connect)
		poll = lambda p: [dict(r) for r in p.poll(count)]
		wanted = m.returns('poll', poll, poller)
		m.returns('disconnect', poller.disconnect)
		listener.close()
		thread.join(console.WAIT)
		self.answered(m, rng, poll, good, 'poll', wanted)

	def settings(self, case, m, rng):
		length = rng.choice((1, 1, 2, 16, 177, 4096))
		data = bytes(bytearray(rng.randrange(256) for _ in range(length)))
		which = rng.choice(('read', 'read', 'rain', 'unchecked'))
		if which == 'rain':
			self.answered(m, rng, lambda p: p.read_rain_collector_type(), wire.with_crc(data[:1]), 'read_rain_collector_type', bytearray(data)[0] & 0x30)
		elif which == 'read':
			self.answered(m, rng, lambda p: p.read_config_setting('0', '%X' % length), wire.with_crc(data), 'read_config_setting', data)
		else:
			good = wire.with_crc(data)
			poller = console.poller(0)
			stream = damaged(rng, good)[1]
			listener, thread = self.talk(rng, b'\x06', stream, False)
			try:
				poller.port = listener.getsockname()[1]
				m.returns('connect', poller.connect)
				outcome = self.hostile(m, 'read_config_setting', length, lambda: poller.read_config_setting('0', '%X' % length, confirm_crc=False))
				m.check(not outcome.ok or len(outcome.value) <= length, 'more than was asked for', length=length, outcome=outcome)
				m.returns('disconnect', poller.disconnect)
			finally:
				listener.close()
				thread.join(console.WAIT)

	# ---- the download service
	def service(self, case, m, rng):
		from weatherlink.downloader import Downloader
		date, items = wire.random_date(rng, 2001, 2060), []
		for _ in range(rng.randint(0, 12)):
			items.append((date, wire.encode_download(wire.random_raw(wire.DOWNLOAD, rng), date, rng)))
			date += datetime.timedelta(minutes=5)
		body = b''.join(d for _, d in items)
		text = service.headers_text(rng, len(items), 5)
		which = rng.choice(('text', 'text', 'number', 'count', 'body', 'body', 'both'))
		if which in ('text', 'both'):
			text = damaged(rng, text.encode('ascii'))[1].decode('latin-1')
		elif which in ('number', 'count'):
			number = rng.choice(NUMBERS if which == 'number' else COUNTS)
			field = rng.choice(('Records', 'Records', 'ArchiveInt', 'MaxRecords')) if which == 'number' else 'Records'
			text = '\n'.join('%s=%s' % (field, number) if line.startswith(field) else line for line in text.splitlines())
			m.event('huge_count', int(len(number) >= 7 and number.isdigit() and field == 'Records'))
		if which in ('body', 'both'):
			body = damaged(rng, body, 52)[1]
		downloader = m.returns('Downloader', Downloader, 'user', 'pass', 'token')

		def handler(request):
			if request.parameters['action'] == 'headers':
				return httpsim.message(headers=[('Content-Type', 'text/html')], body=text.encode('latin-1', 'replace'))
			return service.data_response(rng, body)
		with httpsim.Transport(handler) as transport:
			outcome = self.hostile(m, 'download', len(text) + len(body), downloader.download, 0, measured=which == 'count')
		m.check(len(transport.requests) <= 2, 'too many requests', requests=len(transport.requests))
		m.check(len(downloader.records or ()) * wire.DOWNLOAD_LENGTH <= len(body), 'records from nothing', records=len(downloader.records or ()), bytes=len(body), outcome=outcome)
		m.seen('damage', (which, outcome.ok))
		with httpsim.Transport(service.Service(rng, items, 5)):
			m.returns('a good download after hostile input', downloader.download, 0)
		m.equal([r.date for r in downloader.records], [d for d, _ in items], 'records of a good download after hostile input')
		m.event('good_afterwards')

	# ---- Weather Underground
	def answer(self, case, m, rng):
		from weatherlink.exporter.wunderground import WundergroundExporter
		exporter = m.returns('WundergroundExporter', WundergroundExporter, 'KTN1', 'secret')
		record, _ = stored.make(rng)
		body = damaged(rng, rng.choice((b'success', b'<html>success</html>' * 20)))[1]
		status = rng.choice((200, 200, 200, 299, 300, 304, 307, 404, 599))

		def handler(request):
			headers = [('Content-Type', rng.choice(('text/html', 'text/html; charset=utf-16', 'text/html; charset=nonsense', 'image/png', '')))]
			if status in (300, 307) and rng.random() < 0.7:
				headers.append(('Location', rng.choice((request.url, '/', 'http://', '://', 'http://[', request.url + '&again=1'))))
			return httpsim.message(status=status, headers=headers, body=body, framing=rng.choice(('length', 'chunked', 'close')))
		with httpsim.Transport(handler) as transport:
			outcome = self.hostile(m, 'update', len(body), exporter.send_simple_update, record)
		m.check(len(transport.requests) < 100, 'too many requests', requests=len(transport.requests))
		m.check(not outcome.ok or 200 <= status < 400, 'an error status was taken for success', status=status)
		with httpsim.Transport(lambda request: httpsim.message(body=b'success')) as transport:
			m.returns('an update after a hostile answer', exporter.send_simple_update, record)
		m.equal(len(transport.requests), 1, 'number of requests')
		m.event('good_afterwards')

	# ---- files
	def file(self, case, m, rng):
		from weatherlink.importer import Importer
		month = wlkfile.Month(rng, max_records=rng.choice((0, 3, 10)))
		good = month.encode(rng)
		if rng.random() < 0.5:
			head = 20 + 32 * 6
			how, start = damaged(rng, good[:head], 6)
			data = start + good[head:]
		else:
			how, data = damaged(rng, good, 88)
		if rng.random() < 0.15:
			# Every day says that it has as many records as can be said
			data = good[:20] + struct.pack('=hl', rng.choice((32767, -32768)), 0) * 32 + data[20 + 32 * 6:]
			m.event('huge_count')
		elif rng.random() < 0.3 and month.days:
			# The last day says that it has many more records than there are
			at = 20 + 6 * max(month.days)
			data = good[:at] + struct.pack('=h', rng.choice((32767, 20000, 3000))) + good[at + 2:] + b'\x01' * rng.choice((0, 0, 50))
			m.event('huge_count')
		directory = tempfile.mkdtemp(prefix='wlmon-hostile-')
		try:
			path = os.path.join(directory, month.name)
			with open(path, 'wb') as f:
				f.write(data)
			importer = m.returns('Importer', Importer, path)
			outcome = self.hostile(m, 'import', len(data), importer.import_data)
			count = len(importer.records or ()) + len(importer.daily_summaries or ())
			m.check(count * 88 <= len(data), 'records from nothing', records=count, bytes=len(data), outcome=outcome)
			m.seen('damage', (how, outcome.ok))
			with open(path, 'wb') as f:
				f.write(good)
			m.returns('a good file after hostile input', importer.import_data)
		finally:
			shutil.rmtree(directory, ignore_errors=True)
		m.equal(len(importer.records), sum(len(records) for _, records in month.days.values()), 'records of a good file after hostile input')
		m.equal(sorted(importer.daily_summaries), sorted(month.days), 'summaries of a good file after hostile input')
		m.event('good_afterwards')

	# ---- rows nobody expects
	def database(self, case, m, rng):
		"""Rain events that overlap, never end or end before they start, records in odd order: still it ends."""
		rows = rain.history(rng, rng.randint(5, 60), rng.choice((5, 30, 60, 120)))
		with mysqld.Server(case['seed']) as server:
			rain.insert(rng, server, rows)
			moments = [r[0] for r in rows] + [rows[0][0] - datetime.timedelta(days=400), rows[-1][0] + datetime.timedelta(days=rng.choice((1, 400)))]
			events = {}
			for _ in range(rng.choice((0, 1, 3, 8))):
				start = rng.choice(moments)
				events[start] = dict(
					timestamp_start=start, timestamp_end=rng.choice([None] + moments), timestamp_rain_rate_high=rng.choice(moments), rain_total=rng.choice((0, 1, 99)),
					rain_rate_average=0, rain_rate_high=rng.choice((0, 5)))
			if events:
				server.engine.insert(rain.TABLE, list(events.values()))
			with mysqld.exporter(server) as exporter:
				before = server.statements
				self.hostile(m, 'find_new_rain_events', 100 * len(rows), exporter.find_new_rain_events)
				m.check(server.statements - before <= 20 + 8 * len(rows), 'too many statements', statements=server.statements - before, rows=len(rows))
				before = server.statements
				dates = [summary.with_time(rng, rng.choice(moments).date()) for _ in range(rng.randint(1, 3))]
				self.hostile(m, 'recalculate_summaries_for_dates', 300 * len(rows) + 300 * len(dates), exporter.recalculate_summaries_for_dates, dates)
				m.check(server.statements - before <= 400 * len(dates), 'too many statements', statements=server.statements - before, dates=dates)

"""Background polling: exactly once, in order, stoppable, restartable, whatever the schedule."""
import os
import subprocess
import sys
import threading
import time

from wlmon import console, core, loop2, readings, wire


class Boom(Exception):
	pass


PROGRAM = """
import sys
from weatherlink.poller import IPPoller
def callback(packet):
	print(packet.rain_clicks_this_storm)
	sys.stdout.flush()
poller = IPPoller('127.0.0.1', int(sys.argv[1]))
poller.connect()
poller.start_background_polling(int(sys.argv[2]), callback)
print('main ends')
sys.stdout.flush()
"""


class Recorder(object):
	"""The callback: records deliveries, and sleeps, raises or acts where the case says so."""
	def __init__(self, rng=None, at=None, action=None):
		self.packets = []
		self.threads = []
		self.rng = rng
		self.at = at
		self.action = action
		self.outcome = None

	def __call__(self, packet):
		self.packets.append(packet)
		self.threads.append(threading.current_thread())
		if self.rng is not None and self.rng.random() < 0.3:
			time.sleep(self.rng.random() * 0.002)
		if self.at == len(self.packets):
			self.action(self)


class CHECK(core.Check):
	id = 'C13'
	level = 'exploration'
	rule = (
		'Background polls of 1 to 12 packets on a console that releases packets one at a time or all at once, fragmented; '
		'stop from outside or from the callback after k packets; callback errors, broken and cut streams, refused and '
		'failing starts; then a restart; programs whose main part ends meanwhile. Non-trivial: a distinct schedule of (kind, packets, stop point, stream).'
	)
	required = (
		'delivered', 'second_start_refused', 'stop_refused', 'stopped_midway', 'cancel_received', 'restarted',
		'restarted_same_connection', 'callback_error', 'stream_error', 'start_failed', 'polled_after',
		'stopped_from_callback', 'stopped_in_silence', 'outlived_main',
	)
	assumptions = ('the callback runs on threads visible to the threading module',)

	def cases(self, tier, seed):
		for kind, quick, thorough in (
			('deliver', 48, 600), ('stop', 72, 1200), ('callback_stop', 24, 300), ('race', 40, 800),
			('callback_error', 24, 240), ('stream_error', 24, 240), ('refused', 16, 160), ('no_thread', 16, 120), ('program', 8, 64),
		):
			for c in self.seeded(tier, seed, kind, quick, thorough):
				yield c

	def packets(self, rng, n, first=1):
		items = []
		for i in range(n):
			raw = wire.random_raw(wire.LOOP2, rng)
			raw['rain_clicks_this_storm'] = first + i
			items.append((raw, rng.choice((-60, -20, 0, 20, 60, 80)), rng.random() < 0.9))
		return items, [wire.encode_loop2(raw, trend, rng, good) for raw, trend, good in items]

	def compare(self, m, recorder, items, what):
		got = [readings.get(p, 'rain_clicks_this_storm') for p in recorder.packets]
		m.equal(got, [raw['rain_clicks_this_storm'] for raw, _, _ in items[:len(got)]], '%s: packets delivered' % what)
		for p, (raw, trend, good) in zip(recorder.packets, items):
			loop2.check_packet(m, p, raw, trend, good, what)
			m.event('delivered')
		main = threading.current_thread()
		m.check(all(t is not main for t in recorder.threads), '%s: the callback ran on the calling thread' % what)

	def start(self, m, poller, n, recorder):
		before = set(threading.enumerate())
		m.returns('starting background polling', poller.start_background_polling, n, recorder)
		return [t for t in threading.enumerate() if t not in before and not t.name.startswith('wlmon')]

	def finish(self, m, workers, recorder, expected=None):
		"""Wait until the background polling has ended."""
		if expected is not None:
			if not console.wait_until(lambda: len(recorder.packets) >= expected):
				m.fail('packets never arrived at the callback', delivered=len(recorder.packets), expected=expected)
		for t in list(workers) + list(set(recorder.threads)):
			if t is not threading.current_thread():
				t.join(console.WAIT)
				m.check(not t.is_alive(), 'the background polling did not end', delivered=len(recorder.packets))

	def again(self, m, poller, server, rng, same):
		"""After an end, whatever its reason: start again and expect every packet."""
		if not same:
			m.call(poller.disconnect)
			m.returns('connecting again', poller.connect)
		k = rng.randint(1, len(self.second))
		recorder = Recorder(rng)
		workers = self.start(m, poller, k, recorder)
		self.finish(m, workers, recorder, k)
		m.equal(len(recorder.packets), k, 'packets delivered after a restart')
		self.compare(m, recorder, self.second, 'restarted')
		m.event('restarted')
		self.idle(m, poller)
		if rng.random() < 0.5:
			k = rng.randint(1, len(self.second))
			got = m.returns('polling after background polling', poller.poll, k)
			m.check(isinstance(got, (list, tuple)) and len(got) == k, 'a poll after background polling is incomplete', got=got)
			m.equal([readings.get(p, 'rain_clicks_this_storm') for p in got],
					[raw['rain_clicks_this_storm'] for raw, _, _ in self.second_items[:k]], 'packets polled afterwards')
			m.event('polled_after')

	def idle(self, m, poller):
		outcome = m.call(poller.stop_background_polling)
		m.check(isinstance(outcome.exception, ValueError), 'stopping while not running was not refused', outcome=outcome)
		m.event('stop_refused')

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		kind = case['kind']
		hook = threading.excepthook
		threading.excepthook = lambda *_: None
		interval = sys.getswitchinterval()
		sys.setswitchinterval(rng.choice((1e-5, 1e-4, interval)))
		try:
			self.execute(case, kind, rng, m)
		finally:
			sys.setswitchinterval(interval)
			threading.excepthook = hook

	def program(self, rng, m):
		"""A program whose main part ends after starting the poll: the packets are delivered all the same."""
		n = rng.randint(2, 6)
		items, packets = self.packets(rng, n)
		pace = threading.Semaphore(0)
		with console.Console([console.Plan(packets=packets, pace=pace)]) as server:
			process = subprocess.Popen([sys.executable, '-B', '-c', PROGRAM, str(server.port), str(n)], cwd='/', stdin=subprocess.DEVNULL,
										stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(
											os.environ, PYTHONPATH=os.path.realpath(os.environ.get('WLMON_REPO') or '/repo')))
			try:
				first = process.stdout.readline()
				if first != b'main ends\n':
					m.fail('a program that polls in the background failed', error=process.communicate()[1][-1500:])
				time.sleep(rng.choice((0, 0.05, 0.3)))
				for _ in range(n):
					pace.release()
				out, err = process.communicate(timeout=console.WAIT)
			except subprocess.TimeoutExpired:
				m.fail('a program that polls in the background never ended')
			finally:
				if process.poll() is None:
					process.kill()
				process.wait()
			m.equal(out.decode('ascii').split(), [str(raw['rain_clicks_this_storm']) for raw, _, _ in items],
					'packets delivered after the main part of a program ended')
			m.event('outlived_main')
			if isinstance(server.error, core.HarnessError):
				raise server.error
		m.nontrivial(('program', packets[0]))

	def execute(self, case, kind, rng, m):
		if kind == 'program':
			return self.program(rng, m)
		n = rng.choice((1, 2, 3, 5, 12)) if kind != 'stop' else rng.choice((2, 3, 5, 12))
		items, packets = self.packets(rng, n)
		self.second_items, second_packets = self.packets(rng, 6, 1000)
		self.second = self.second_items
		pace = None
		if kind in ('stop', 'deliver', 'callback_stop') and (kind == 'stop' or rng.random() < 0.6):
			pace = threading.Semaphore(0)
		fragment = rng if rng.random() < 0.5 and pace is None else None
		first = console.Plan(packets=packets, pace=pace, fragment=core.rng_for(case['seed'], 'f') if fragment else None, delay=0.0003)
		good = console.Plan(packets=second_packets)
		k = rng.randint(0, n - 1) if kind == 'stop' else rng.randint(1, n)
		if kind == 'stream_error':
			if rng.random() < 0.5:
				first.cut = 99 * (k - 1) + rng.randrange(99)
			else:
				bad = bytearray(packets[k - 1])
				bad[rng.choice((0, 1, 2, 4, 95, 96))] ^= 0x41
				packets[k - 1] = bytes(bad)
		if kind == 'refused':
			first.ack = rng.choice((b'\x15', b'\x21', b'\x00', b''))
		m.nontrivial((kind, n, k, pace is not None, packets[0]))
		with console.Console([first, good]) as server:
			poller = console.poller(server.port)
			if rng.random() < 0.3:
				self.idle(m, poller)
			poller.connect()
			self.scenario(kind, rng, m, n, k, items, pace, first, server, poller, second_packets)
			m.call(poller.disconnect)
			if isinstance(server.error, core.HarnessError):
				raise server.error

	def scenario(self, kind, rng, m, n, k, items, pace, plan, server, poller, second_packets):
		delays = rng if rng.random() < 0.6 else None
		if kind == 'deliver':
			recorder = Recorder(delays)
			workers = self.start(m, poller, n, recorder)
			if pace is not None:
				for i in range(n):
					outcome = m.call(poller.start_background_polling, n, Recorder())
					m.check(isinstance(outcome.exception, ValueError), 'a second start while running was not refused', outcome=outcome)
					m.event('second_start_refused')
					pace.release()
					m.check(console.wait_until(lambda: len(recorder.packets) > i), 'a packet never arrived at the callback', index=i)
			self.finish(m, workers, recorder, n)
			m.equal(len(recorder.packets), n, 'packets delivered')
			self.compare(m, recorder, items, 'background')
			m.equal([i.decode('ascii') for i in server.instructions], ['LPS 2 %d' % n], 'instructions sent')
			m.check(not server.cancelled.is_set(), 'a complete poll was cancelled')
			self.idle(m, poller)
			same = rng.random() < 0.5
			if same:
				plan.packets, plan.pace = second_packets, None
				m.event('restarted_same_connection')
			self.again(m, poller, server, rng, same)
		elif kind == 'stop':
			recorder = Recorder(delays)
			workers = self.start(m, poller, n, recorder)
			for i in range(k):
				pace.release()
			m.check(console.wait_until(lambda: len(recorder.packets) >= k), 'packets never arrived at the callback', expected=k)
			if rng.random() < 0.3:
				time.sleep(rng.random() * 0.003)
			m.returns('stopping', poller.stop_background_polling)
			# The packet in flight arrives; nothing after it may be delivered.
			released = k
			while any(t.is_alive() for t in workers) and released < n:
				pace.release()
				released += 1
				console.wait_until(lambda: not any(t.is_alive() for t in workers), 0.5 if released < k + 3 else console.WAIT)
			self.stopped(m, poller, server, recorder, workers, items, n, k)
			same = rng.random() < 0.5 and released == len(recorder.packets) < n
			if same:
				plan.packets, plan.pace = second_packets, None
				m.event('restarted_same_connection')
			self.again(m, poller, server, rng, same)
		elif kind == 'callback_stop':
			def stop(recorder):
				recorder.outcome = m.call(poller.stop_background_polling)
				recorder.refused = m.call(poller.start_background_polling, 1, Recorder())
			recorder = Recorder(delays, k, stop)
			workers = self.start(m, poller, n, recorder)
			if pace is not None:
				# The station falls silent: nothing else has to arrive for the stop to take effect
				for i in range(k):
					pace.release()
			self.finish(m, workers, recorder, k)
			if pace is not None:
				m.equal(len(recorder.packets), k, 'packets delivered up to a stop from the callback')
				m.event('stopped_in_silence')
			m.check(recorder.outcome.ok, 'stopping from the callback failed', outcome=recorder.outcome)
			m.check(isinstance(recorder.refused.exception, ValueError), 'a start from the callback was not refused', outcome=recorder.refused)
			self.stopped(m, poller, server, recorder, workers, items, n, k)
			m.event('stopped_from_callback')
			self.again(m, poller, server, rng, False)
		elif kind == 'race':
			# Everything is in the buffers: the stop races the deliveries
			recorder = Recorder(core.rng_for(n, k, items[0][0]['barometric_pressure']))
			workers = self.start(m, poller, n, recorder)
			pause = rng.random() * 0.006
			time.sleep(pause)
			outcome = m.call(poller.stop_background_polling)
			snapshot = len(recorder.packets)
			if outcome.ok:
				self.stopped(m, poller, server, recorder, workers, items, n, snapshot)
			else:
				m.check(isinstance(outcome.exception, ValueError), 'stopping failed', outcome=outcome)
				m.equal(snapshot, n, 'stopping was refused though packets were missing')
				self.finish(m, workers, recorder)
				self.compare(m, recorder, items, 'race')
			m.seen('race outcome', (n, snapshot, len(recorder.packets), outcome.ok))
			self.again(m, poller, server, rng, False)
		elif kind == 'callback_error':
			def explode(_):
				raise rng.choice((Boom, ValueError, KeyError))('from the callback')
			recorder = Recorder(delays, k, explode)
			workers = self.start(m, poller, n, recorder)
			self.finish(m, workers, recorder, k)
			m.equal(len(recorder.packets), k, 'packets delivered up to the failing callback')
			self.compare(m, recorder, items, 'before a callback error')
			m.event('callback_error')
			self.again(m, poller, server, rng, False)
		elif kind == 'stream_error':
			recorder = Recorder(delays)
			workers = self.start(m, poller, n, recorder)
			self.finish(m, workers, recorder, k - 1)
			m.equal(len(recorder.packets), k - 1, 'packets delivered before a broken stream')
			self.compare(m, recorder, items, 'before a broken stream')
			m.event('stream_error')
			self.again(m, poller, server, rng, False)
		elif kind == 'refused':
			recorder = Recorder()
			outcome = m.call(poller.start_background_polling, n, recorder)
			m.check(isinstance(outcome.exception, IOError), 'a refused start did not raise an acknowledgment error', outcome=outcome)
			m.equal(len(recorder.packets), 0, 'packets delivered by a refused start')
			self.idle(m, poller)
			m.event('start_failed')
			self.again(m, poller, server, rng, False)
		elif kind == 'no_thread':
			original = threading.Thread.start

			def failing(thread):
				if thread.name.startswith('wlmon'):
					return original(thread)
				failing.hit = True
				raise RuntimeError("can't start new thread")
			failing.hit = False
			threading.Thread.start = failing
			try:
				outcome = m.call(poller.start_background_polling, n, Recorder())
			finally:
				threading.Thread.start = original
			if not failing.hit:
				return  # no thread was started through the threading module: there was nothing to fail
			m.check(isinstance(outcome.exception, RuntimeError), 'a failure to start a thread was hidden', outcome=outcome)
			self.idle(m, poller)
			m.event('thread_failed')
			self.again(m, poller, server, rng, False)

	def stopped(self, m, poller, server, recorder, workers, items, n, k):
		self.finish(m, workers, recorder)
		delivered = len(recorder.packets)
		m.check(k <= delivered <= min(n, k + 1), 'more than the packet in flight was delivered after a stop',
				delivered=delivered, before_stop=k, requested=n)
		self.compare(m, recorder, items, 'up to a stop')
		if delivered < n:
			m.event('stopped_midway')
			m.check(console.wait_until(server.cancelled.is_set), 'the console was never told to cancel', delivered=delivered, requested=n)
			m.event('cancel_received')
		self.idle(m, poller)

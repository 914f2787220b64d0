"""Polling: exactly the requested packets, once each, in order, however the network slices them."""
from wlmon import console, core, loop2, readings, wire


class CHECK(core.Check):
	id = 'C12'
	rule = (
		'Polls of 1 to 40 packets over TCP with random fragmentation and random readings, some with bad CRCs; the stream '
		'cut at a chosen byte or broken in its framing at a chosen packet; several polls per connection; a console that pauses for seconds. Non-trivial: a '
		'distinct packet sequence.'
	)
	required = ('packet_polled', 'fragmented', 'bad_crc_reported', 'cut_refused', 'broken_refused', 'second_poll', 'slow_console')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'clean', 80, 800):
			yield c
		for c in self.seeded(tier, seed, 'cut', 40, 400):
			yield c
		for c in self.seeded(tier, seed, 'broken', 24, 240):
			yield c
		for c in self.seeded(tier, seed, 'slow', 2, 8):
			yield c

	def packets(self, rng, n):
		items = []
		for i in range(n):
			raw = wire.random_raw(wire.LOOP2, rng)
			raw['rain_clicks_this_storm'] = i + 1  # makes every packet of a history unique
			raw['minute_in_hour'] = i % 60
			items.append((raw, rng.choice((-60, -20, 0, 20, 60, 80)), rng.random() < 0.85))
		return items, [wire.encode_loop2(raw, trend, rng, good) for raw, trend, good in items]

	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		n = rng.choice((1, 2, 3, 10, 40))
		items, packets = self.packets(rng, n)
		plan = console.Plan(packets=packets + packets[:2], fragment=rng if rng.random() < 0.75 else None, delay=0.0003)
		if case['kind'] == 'slow':
			# A console sends a packet every two seconds, and waits while its owner uses the keys
			plan.pause = 6 if m.tier == 'quick' else 15
			m.event('slow_console')
		if case['kind'] == 'cut':
			plan.cut = rng.choice((0, 1, 98, 99 * n - 1, rng.randrange(99 * n), 99 * rng.randrange(n)))
		elif case['kind'] == 'broken':
			at = rng.randrange(n)
			bad = bytearray(packets[at])
			bad[rng.choice((0, 1, 2, 4, 5, 95, 96, 83))] ^= 0x41
			packets[at] = bytes(bad)
			plan.packets = packets
		with console.Console([plan]) as server:
			poller = console.poller(server.port)
			poller.connect()
			outcome = m.call(poller.poll, n)
			if case['kind'] in ('clean', 'slow'):
				m.check(outcome.ok, 'polling failed', outcome=outcome, packets=n)
				self.compare(m, outcome.value, items)
				if plan.fragment:
					m.event('fragmented')
				if rng.random() < 0.4 and not plan.pause:
					k = rng.randint(1, n)
					self.compare(m, m.returns('polling again', poller.poll, k), items[:k])
					self.compare(m, outcome.value, items)  # what the first poll returned is still there
					m.event('second_poll')
					want = ['LPS 2 %d' % n, 'LPS 2 %d' % k]
				else:
					want = ['LPS 2 %d' % n]
				m.equal([i.decode('ascii') for i in server.instructions], want, 'instructions sent')
				m.nontrivial(packets[0] + packets[-1])
				m.sample({'packets': n, 'first': items[0][0]})
			else:
				m.check(not outcome.ok, 'an incomplete poll returned as if it were complete', how=case['kind'], cut=plan.cut, outcome=outcome)
				m.event('cut_refused' if case['kind'] == 'cut' else 'broken_refused')
				m.nontrivial((case['kind'], n, plan.cut, packets[0]))
			m.call(poller.disconnect)
			m.check(server.wait_closed(), 'the connection was not closed')
			if isinstance(server.error, core.HarnessError):
				raise server.error

	def compare(self, m, got, items):
		m.check(isinstance(got, (list, tuple)), 'a poll did not return its packets', got=got)
		m.equal([readings.get(p, 'rain_clicks_this_storm') for p in got], [raw['rain_clicks_this_storm'] for raw, _, _ in items],
				'packets polled')
		for record, (raw, trend, good) in zip(got, items):
			loop2.check_packet(m, record, raw, trend, good, 'polled packet')
			m.event('packet_polled')
			if not good:
				m.event('bad_crc_reported')

"""Importing a .wlk file: complete, in order, in the right day, exactly decoded."""
import bz2
import calendar
import os
import shutil
import tempfile
from fractions import Fraction

from wlmon import core, readings, wire, wlkfile


class CHECK(core.Check):
	id = 'C03'
	rule = (
		'Generated monthly files (any subset of days, empty days, 24:00 records, every rain collector, dashed and extreme '
		'readings, random filler), files damaged at a known slot, field sweeps through one-record files, and the real '
		'sample file cross-checked against its own daily totals. Non-trivial: a distinct file whose records were all '
		'compared, or a distinct damaged file.'
	)
	required = ('file_imported', 'imported_again', 'record_compared', 'summary_compared', 'damaged_file_refused', 'midnight_record', 'sample_day_conserved', 'full_day')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'file', 120, 1200):
			yield c
		for c in self.seeded(tier, seed, 'damaged', 80, 800):
			yield c
		yield {'kind': 'sample', 'seed': 'sample'}
		for c in self.seeded(tier, seed, 'full', 3, 24, deep=tier == 'thorough'):
			yield c
		for c in self.seeded(tier, seed, 'names', 8, 16):
			yield c
		for table, fields in (('record', wire.WLK), ('summary', wire.SUMMARY)):
			for field in sorted(fields):
				lo, hi = wire.RANGES[fields[field][1]]
				if fields[field][2] is wire.compass:
					hi = 15
				if field == 'minutes_past_midnight':
					lo, hi = 0, 1440
				pieces = 16 if hi - lo > 3000 else 1
				size = (hi - lo) // pieces + 1
				for start in range(lo, hi + 1, size):
					yield {'kind': 'sweep', 'table': table, 'field': field, 'lo': start, 'hi': min(hi, start + size - 1),
							'step': 1 if tier == 'thorough' or hi - lo < 300 else 197, 'seed': seed}

	def import_file(self, m, data, name):
		from weatherlink.importer import Importer
		directory = tempfile.mkdtemp(prefix='wlmon-wlk-')
		try:
			path = os.path.join(directory, name)
			with open(path, 'wb') as f:
				f.write(data)
			importer = Importer(path)
			m.equal([importer.header, importer.daily_summaries, importer.records, importer.daily_records], [None] * 4, 'what is there before the import')
			outcome = m.call(importer.import_data)
			return importer, outcome, path
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	def import_again(self, m, importer, data, path):
		os.makedirs(os.path.dirname(path))
		try:
			with open(path, 'wb') as f:
				f.write(data)
			return m.call(importer.import_data)
		finally:
			shutil.rmtree(os.path.dirname(path), ignore_errors=True)

	def compare(self, m, importer, month):
		m.event('file_imported')
		expected = month.expected()
		flat = [(day, e) for day, records in expected for e in records]
		m.equal(len(importer.records), len(flat), 'number of imported records')
		for (day, want), record in zip(flat, importer.records):
			readings.check_readings(m, record, want, 'record of day %d' % day)
			m.event('record_compared')
			if want['minutes_past_midnight'] == 1440:
				m.event('midnight_record')
		for day in range(0, 33):
			want = [e for d, e in flat if d == day]
			got = list(importer.daily_records[day]) if day in importer.daily_records else []
			m.equal([readings.get(r, 'timestamp') for r in got], [e['timestamp'] for e in want], 'records of day %d' % day)
			for e, r in zip(want, got):
				readings.check_readings(m, r, e, 'record in day %d' % day)
		m.equal(sorted(importer.daily_summaries), sorted(month.days), 'days with a summary')
		for day, (raw, _) in month.days.items():
			summary = importer.daily_summaries[day]
			readings.check_readings(m, summary, wire.decode_fields(wire.SUMMARY, raw), 'summary of day %d' % day, raw=raw)
			date = readings.get(summary, 'date')
			m.check((date.year, date.month, date.day) == (month.year, month.month, day), 'summary date', got=date)
			m.event('summary_compared')

	def run(self, case, m):
		rng = core.rng_for(case['seed'], case.get('table'), case.get('field'), case.get('lo'))
		kind = case['kind']
		if kind == 'file':
			month = wlkfile.Month(rng, max_records=rng.choice((3, 12, 40)), dash=rng.choice((0, 0.1, 0.5)))
			data = month.encode(rng)
			importer, outcome, path = self.import_file(m, data, month.name)
			m.check(outcome.ok, 'a valid file was not imported', outcome=outcome)
			m.equal(readings.get(importer.header, 'version_code'), month.version, 'file version')
			if rng.random() < 0.3:
				# The console software appended to the file, or replaced it, and it is imported again with the same object
				kept = list(importer.records)
				before = [readings.get(r, 'timestamp') for r in kept]
				later = wlkfile.Month(rng, max_records=6, dash=0.1)
				later.year, later.month = month.year, month.month
				later.days = dict((d, v) for d, v in later.days.items() if d <= 28)
				later = later if rng.random() < 0.7 else month
				outcome = self.import_again(m, importer, later.encode(rng), path)
				m.check(outcome.ok, 'a file was not imported again', outcome=outcome)
				m.equal([readings.get(r, 'timestamp') for r in kept], before, 'records of the first import, after the second one')
				self.compare(m, importer, later)
				m.event('imported_again')
				month = later
			m.equal(readings.get(importer.header, 'record_count'), month.header_count, 'record count in the header')
			m.equal([(readings.get(d, 'record_count'), readings.get(d, 'start_index')) for d in importer.header.day_indexes], month.indexes, 'days in the header')
			self.compare(m, importer, month)
			m.nontrivial(data)
			m.sample({'file': month.name, 'days': sorted(month.days), 'records': month.total, 'bytes': len(data)})
		elif kind == 'damaged':
			month = wlkfile.Month(rng, max_records=6)
			while not sum(len(r) for _, r in month.days.values()):
				month = wlkfile.Month(rng, max_records=6)
			data = bytearray(month.encode(rng))
			start = len(wire.file_header(b'', 0, [(0, 0)] * 32))
			offsets, summaries, position = [], [], start
			for day in sorted(month.days):
				summaries.append(position)
				position += wire.SUMMARY_LENGTH
				for _ in month.days[day][1]:
					offsets.append(position)
					position += wire.WLK_LENGTH
			assert position == len(data)
			how = rng.choice(('record type', 'summary type', 'second summary type', 'direction', 'collector', 'short'))
			at = rng.choice(offsets)
			if how == 'record type':
				data[at] = rng.choice((0, 2, 3, 255))
			elif how == 'summary type':
				data[rng.choice(summaries)] = rng.choice((0, 1, 3, 255))
			elif how == 'second summary type':
				data[rng.choice(summaries) + 88] = rng.choice((0, 1, 2, 255))
			elif how == 'direction':
				data[at + rng.choice((28, 29))] = rng.randrange(16, 255)
			elif how == 'collector':
				data[at + 21] = rng.choice((4, 5, 7, 8, 15)) << 4
			else:
				del data[rng.randrange(start, len(data)):]
				if len(data) == start:
					data = data[:-1]
			importer, outcome, _ = self.import_file(m, bytes(data), month.name)
			m.check(not outcome.ok, 'a damaged file was imported as if it were intact', how=how, outcome=outcome)
			m.event('damaged_file_refused')
			m.seen('damage', how)
			m.nontrivial(bytes(data))
		elif kind == 'sweep':
			month = wlkfile.Month(rng, days=[rng.randint(1, 28)], max_records=3)
			day = list(month.days)[0]
			values = sorted(set(range(case['lo'], case['hi'] + 1, case['step'])) | {case['lo'], case['hi']} | set(
				v for v in (-32768, -1, 0, 1, 255, 256, 32767, 32768) if case['lo'] <= v <= case['hi']))
			if case['table'] == 'record':
				records = []
				for value in values:
					raw = wire.random_raw(wire.WLK, rng, skip=('minutes_past_midnight',))
					raw['minutes_past_midnight'] = rng.randint(1, 1440)
					raw[case['field']] = value
					records.append((raw, rng.choice(sorted(wire.WLK_COLLECTORS)) << 12 | rng.randrange(4096)))
					m.nontrivial((case['field'], value))
				month.days = {day: (month.days[day][0], records)}
				data = month.encode(rng)
				importer, outcome, _ = self.import_file(m, data, month.name)
				m.check(outcome.ok, 'a valid file was not imported', outcome=outcome, field=case['field'])
				self.compare(m, importer, month)
				m.event('swept_value', len(values))
			else:
				for value in values[::1 if case['step'] == 1 else 3]:
					raw = wire.random_raw(wire.SUMMARY, rng)
					raw[case['field']] = value
					month.days = {day: (raw, [])}
					importer, outcome, _ = self.import_file(m, month.encode(rng), month.name)
					m.check(outcome.ok, 'a valid file was not imported', outcome=outcome, field=case['field'], value=value)
					self.compare(m, importer, month)
					m.nontrivial((case['field'], value))
					m.event('swept_value')
		elif kind == 'full':
			# A record for every minute of a day or two, or for every few minutes of a month
			interval, days = rng.choice(((1, 1), (1, 2), (5, 31), (10, 31)) if case['deep'] else ((1, 1), (1, 2), (5, 7)))
			month = wlkfile.Month(rng, max_records=1)
			last = calendar.monthrange(month.year, month.month)[1]
			month.days = {}
			for day in sorted(rng.sample(range(1, last + 1), min(days, last))):
				records = []
				for minute in range(interval, 1441, interval):
					raw = wire.random_raw(wire.WLK, rng, 0.05, skip=('minutes_past_midnight',))
					raw['minutes_past_midnight'] = minute
					records.append((raw, rng.choice(sorted(wire.WLK_COLLECTORS)) << 12 | rng.randrange(4096)))
				month.days[day] = (wire.random_raw(wire.SUMMARY, rng), records)
			importer, outcome, _ = self.import_file(m, month.encode(rng), month.name)
			m.check(outcome.ok, 'a valid file was not imported', outcome=outcome)
			self.compare(m, importer, month)
			m.event('full_day', len(month.days))
			m.nontrivial((interval, month.name, case['seed']))
			m.sample({'file': month.name, 'days': sorted(month.days), 'records': 1440 // interval * len(month.days)})
		elif kind == 'names':
			from weatherlink.importer import Importer
			for name in ('', None, '2016-04.dat', '2016-04', '2016-04.wlk.bz2', 'wlk'):
				m.check(not m.call(Importer, name).ok, 'a file that is not a .wlk file was accepted', name=name)
			year, month = rng.randint(2000, 2063), rng.randint(1, 12)
			for prefix in ('', './', '/tmp/a b/', '/x-y/2001-01.d/', 'station-1/', 'old.wlk/', 'home-', 'data/home.2014-12.'):
				importer = m.returns('a .wlk name was refused', Importer, '%s%04d-%02d.wlk' % (prefix, year, month))
				m.equal((importer.year, importer.month), (year, month), 'year and month of the file', prefix=prefix)
			m.nontrivial((year, month))
		else:
			repo = os.environ.get('WLMON_REPO') or '/repo'
			path = os.path.join(repo, 'tests', 'data', 'sample-database-2016-04.wlk.bz2')
			try:
				with open(path, 'rb') as f:
					data = bz2.decompress(f.read())
			except (OSError, EOFError) as e:
				raise core.HarnessError('sample file: %s' % e)
			importer, outcome, _ = self.import_file(m, data, '2016-04.wlk')
			m.check(outcome.ok, 'the sample file was not imported', outcome=outcome)
			m.equal(len(importer.records), 7130, 'records in the sample file')
			m.check(all(a['timestamp'] < b['timestamp'] for a, b in zip(importer.records, importer.records[1:])),
					'the sample records are not in order')
			for day, summary in importer.daily_summaries.items():
				records = importer.daily_records[day]
				# The console software wrote these totals itself: an oracle that shares nothing with the code under test
				m.equal(summary['total_wind_packets'], sum(r['number_of_wind_samples'] or 0 for r in records),
						'wind packets of day %d of the sample' % day)
				m.equal(Fraction(summary['rain_total']), sum(Fraction(r['rain_amount']) for r in records),
						'rain of day %d of the sample' % day)
				m.equal(summary['minutes'], sum(r['minutes_covered'] for r in records), 'minutes of day %d' % day)
				m.equal(summary['temperature_outside_high'], max(r['temperature_outside_high'] for r in records),
						'high temperature of day %d' % day)
				m.equal(summary['temperature_outside_low'], min(r['temperature_outside_low'] for r in records),
						'low temperature of day %d' % day)
				m.equal(summary['wind_speed_high'], max(r['wind_speed_high'] or 0 for r in records) or None,
						'high wind speed of day %d' % day)
				m.event('sample_day_conserved')
			m.nontrivial('sample')

"""Runs given cases of other checks and a battery of operations in one environment, and reports what came out."""
import json
import os
import sys
import time
import traceback


def verdict(check_id, case):
	from wlmon import core
	from wlmon.checks import load
	monitor = core.Monitor(check_id, 'quick', 1)
	monitor.case = case
	try:
		load(check_id).run(case, monitor)
	except core.Violation as v:
		return 'violation: ' + v.message, core.short(v.details, 1500)
	except core.HarnessError as e:
		return 'harness: %s' % e, ''
	except Exception as e:
		return 'error: %s' % type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
	return 'held', monitor.comparisons


def swept():
	"""What comes of every half hour of two years, and of damage to every byte that is verified."""
	import datetime
	import io

	import pytz

	from weatherlink import models, utils
	from wlmon import core, wire
	from wlmon.checks import c38
	for year in (2016, 2017):
		start = datetime.datetime(year, 1, 1)
		for day in range(0, 365, 5):
			dates = [start + datetime.timedelta(days=day + d, minutes=30 * i) for d in range(5) for i in range(48)]
			stamps = [models.convert_datetime_to_timestamp(d) for d in dates]
			back = [models.convert_timestamp_to_datetime(s) for s in stamps]
			utc = [utils.convert_station_time_to_utc(d, pytz.timezone(z)) for z in ('America/Chicago', 'Asia/Kolkata') for d in dates]
			yield 'timestamps of %s' % dates[0].date(), '%r %s %s' % (stamps, ' '.join(map(str, back)), ' '.join(map(str, utc)))
	rng = core.rng_for('damage')
	summaries = [wire.encode_summary(wire.random_raw(wire.SUMMARY, rng), rng) for _ in range(3)]
	records = [wire.encode_wlk(wire.random_raw(wire.WLK, rng, skip=('minutes_past_midnight', ), hostile=0), 0x1000, rng) for _ in range(3)]
	loaders = (
		('header', models.Header.load_from_wlk, (), [wire.file_header(b'WDAT5.3' + bytes(bytearray(9)), 3, [(0, 0)] * 32)]),
		('summary', models.DailySummary.load_from_wlk, (2016, 3, 5), summaries),
		('record', models.ArchiveIntervalRecord.load_from_wlk, (2016, 3, 5), records),
		('download', models.ArchiveIntervalRecord.load_from_download, (5, ), [
			wire.encode_download(wire.plausible_raw(wire.DOWNLOAD, rng), wire.random_date(rng), rng) for _ in range(3)]),
		('packet', models.LoopRecord.load_loop_2_from_connection, (), [wire.encode_loop2(wire.plausible_raw(wire.LOOP2, rng), 20, rng) for _ in range(3)]),
	)
	for name, load, arguments, good in loaders:
		for k, data in enumerate(good):
			for at in range(len(data) + 1):
				for change in (1, 2, 0x80):
					damaged = bytearray(data)
					if at < len(data):
						damaged[at] ^= change
					elif change != 1:
						del damaged[-change:]
					try:
						result = c38.plain(load(io.BytesIO(bytes(damaged)), *arguments))
					except Exception as e:
						result = 'raised %s' % type(e).__name__
					if 'object at 0x' not in result:
						yield '%s %d with byte %d changed by %d' % (name, k, at, change), result


def operations(seed, calculations, steps):
	"""[(what, result)] of calculations and of one station's operations."""
	from wlmon import core
	from wlmon.checks import c38
	rng = core.rng_for(seed, 'variant')
	found = []
	for i in range(calculations):
		task = c38.CHECK().task(rng)
		try:
			result = c38.plain(task())
		except core.HarnessError:
			raise
		except Exception as e:
			result = 'raised %s' % type(e).__name__
		found.append(('calculation %d' % i, result))
	if steps:
		monitor = core.Monitor('C40', 'quick', 1)
		for name, result, urls in c38.alone(seed, rng.randrange(4), steps, monitor):
			if result.startswith('raised '):
				result = result.split(':')[0]
			found.append((name, result + ' ' + ' '.join(urls)))
	found.extend(swept())
	return found


def main(argv):
	with open(argv[0]) as f:
		spec = json.load(f)
	sys.stdout = open(os.devnull, 'w')
	from wlmon.worker import load_repository
	result = {}
	try:
		load_repository()
	except Exception as e:
		result['import'] = '%s: %s' % (type(e).__name__, e)
	else:
		result['verdicts'] = [verdict(check_id, case) for check_id, case in spec['cases']]
		try:
			result['operations'] = operations(spec['seed'], spec['calculations'], spec['steps'])
		except Exception as e:
			result['failed'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
	result['environment'] = {
		'python': '%s %s' % (sys.implementation.name, sys.version.split()[0]), 'optimize': sys.flags.optimize, 'bytes': sys.flags.bytes_warning,
		'time': time.time(), 'local': time.strftime('%z %Z', time.localtime(1467331200)), 'hash': hash('x'), 'directory': os.getcwd(),
		'encoding': sys.getfilesystemencoding(),
	}
	with open(spec['out'] + '.tmp', 'w') as f:
		json.dump(result, f)
	os.rename(spec['out'] + '.tmp', spec['out'])
	os._exit(0)


if __name__ == '__main__':
	main(sys.argv[1:])

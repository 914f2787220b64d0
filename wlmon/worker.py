"""One shard: runs its share of a check's cases against the repository, in its own process."""
import importlib
import json
import os
import sys
import tempfile
import time
import traceback


MODULES = ('models', 'utils', 'importer', 'downloader', 'serial', 'poller', 'exporter.mysql', 'exporter.wunderground')


def load_repository():
	repo = os.path.realpath(os.environ.get('WLMON_REPO') or '/repo')
	# Third-party modules first, so that they may come from their byte-code caches; the code under test never does.
	import six, pytz, requests, urllib3  # noqa
	import mysql.connector, mysql.connector.errors  # noqa
	sys.path.insert(0, repo)
	for name in list(sys.modules):
		if name == 'weatherlink' or name.startswith('weatherlink.'):
			del sys.modules[name]
	sys.dont_write_bytecode = True
	sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'wlmon-no-such-cache-%d' % os.getpid())
	import weatherlink  # noqa
	for name in MODULES:
		try:
			importlib.import_module('weatherlink.' + name)
		except Exception:
			# Checks of what the module offers import it, too, and report that it cannot be used
			traceback.print_exc()
	sys.pycache_prefix = None
	for name, module in list(sys.modules.items()):
		if name == 'weatherlink' or name.startswith('weatherlink.'):
			path = os.path.realpath(getattr(module, '__file__', None) or '')
			if not path.startswith(repo + os.sep):
				raise RuntimeError('%s was imported from %s, not from %s' % (name, path, repo))
	return repo


class Lines(object):
	"""Which lines of the code under test were executed, by its own monitoring events (CPython 3.12 and later)."""
	def __init__(self, repo):
		self.prefix = os.path.join(repo, 'weatherlink') + os.sep
		self.reached = {}
		monitoring = getattr(sys, 'monitoring', None)
		if monitoring is None:
			return
		tool = monitoring.COVERAGE_ID
		monitoring.use_tool_id(tool, 'wlmon')

		def line(code, number):
			if code.co_filename.startswith(self.prefix):
				self.reached.setdefault(code.co_filename[len(self.prefix):], set()).add(number)
			return monitoring.DISABLE
		monitoring.register_callback(tool, monitoring.events.LINE, line)
		monitoring.set_events(tool, monitoring.events.LINE)

	def result(self):
		return dict((name, sorted(numbers)) for name, numbers in list(self.reached.items()))


def main(argv):
	spec = json.loads(argv[0])
	out = spec['out']
	result = {'status': 'error', 'violations': [], 'detail': ''}
	real_stdout = sys.stdout
	sys.stdout = open(os.devnull, 'w')
	from wlmon import core
	from wlmon.checks import load
	monitor = core.Monitor(spec['id'], spec['tier'], spec['seed'])
	try:
		try:
			repo = load_repository()
			lines = Lines(repo)
		except Exception as e:
			# The tree under test cannot even be imported: no verdict about the property.
			raise core.HarnessError('import failed: %s' % ''.join(
				traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
		check = load(spec['id'])
		deadline = time.time() + spec['budget']
		truncated = False
		progress = os.open(spec['out'] + '.progress', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
		cases = [spec['case']] if spec.get('case') is not None else check.cases(spec['tier'], spec['seed'])
		for index, case in enumerate(cases):
			if spec.get('case') is None and index % spec['shards'] != spec['shard']:
				continue
			now = time.time()
			if now > deadline:
				truncated = True
				break
			# The orchestrator's watchdog reads which case is being run.
			note = json.dumps(case).encode('utf-8')
			os.pwrite(progress, note, 0)
			os.ftruncate(progress, len(note))
			monitor.case = case
			monitor.cases += 1
			try:
				check.run(case, monitor)
			except core.Violation as v:
				result['violations'].append({'case': case, 'message': v.message, 'details': v.details})
			except (core.HarnessError, MemoryError, KeyboardInterrupt, SystemExit):
				raise
			except BaseException as e:
				tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
				result['violations'].append({
					'case': case,
					'message': 'execution ended with an unexpected %s: %s' % (type(e).__name__, core.short(str(e))),
					'details': {'traceback': tb},
				})
			if len(result['violations']) >= 5:
				break
		result['truncated'] = truncated
		result['lines'] = lines.result()
		result['status'] = 'done'
	except core.HarnessError as e:
		result['detail'] = 'harness: %s (case %s)' % (e, core.short(monitor.case))
	except BaseException as e:
		result['detail'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
	result['events'] = monitor.events
	result['distinct'] = dict((k, sorted(v, key=str)) for k, v in monitor.distinct.items())
	result['keys'] = sorted(monitor.keys)
	result['comparisons'] = monitor.comparisons
	result['cases'] = monitor.cases
	result['samples'] = core.jsonable(monitor.samples)
	result['python'] = '%s %s' % (sys.implementation.name, sys.version.split()[0])
	with open(out + '.tmp', 'w') as f:
		json.dump(result, f, default=lambda o: core.short(o))
	os.rename(out + '.tmp', out)
	sys.stdout = real_stdout
	sys.stderr.flush()
	os._exit(0)


if __name__ == '__main__':
	main(sys.argv[1:])

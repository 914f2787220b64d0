"""The same inputs give the same results whatever the environment of the process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from wlmon import core
from wlmon.checks import load

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PYTHONS = ('/opt/venv-pypy/bin/python', '/opt/venv/bin/python')
LIMIT = 240
# Cases of other checks that take long or depend on how fast threads are
SKIP = {'C13': None, 'C24': ('station', ), 'C26': ('year', ), 'C29': ('pages', ), 'C30': ('recalculate', 'search')}
FRIENDS = tuple('C%02d' % i for i in range(1, 38) if SKIP.get('C%02d' % i, ()) is not None)
ZONES = (
	'America/New_York', 'America/Chicago', 'Pacific/Apia', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Europe/Berlin', 'America/St_Johns',
	'Pacific/Kiritimati', 'EST5EDT', 'XYZ-13:37', 'Africa/Casablanca',
)
CLOCK = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long shift(void) {
	const char *s = getenv("WLMON_CLOCK");
	return s ? atol(s) : 0;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
	static int (*real)(clockid_t, struct timespec *);
	int result;
	if (!real)
		real = dlsym(RTLD_NEXT, "clock_gettime");
	result = real(id, ts);
	if (!result && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
		ts->tv_sec += shift();
	return result;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	struct timespec ts;
	int result = clock_gettime(CLOCK_REALTIME, &ts);
	(void) tz;
	if (!result && tv) {
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
	}
	return result;
}

time_t time(time_t *t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
'''


def clock_library(directory):
	"""A library that shifts the wall clock of a process, or None where it cannot be built."""
	source, library = os.path.join(directory, 'clock.c'), os.path.join(directory, 'clock.so')
	if not os.path.exists(library):
		with open(source, 'w') as f:
			f.write(CLOCK)
		try:
			subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', library + '.new', source, '-ldl'], stdout=subprocess.DEVNULL,
								stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
			os.rename(library + '.new', library)
		except (OSError, subprocess.CalledProcessError):
			return None
	return library


class CHECK(core.Check):
	id = 'C40'
	patience = 4  # a case is up to four processes, each of which may take half a minute
	rule = (
		'Sampled cases of the other checks with their oracles, calculations and all operations of a station, in fresh processes '
		'that differ in time zone, wall clock, hash seed, optimization (-O, -OO), locale, directory and '
		'interpreter; verdicts and every result are compared with those of a plain process. Non-trivial: a distinct '
		'environment and inputs.'
	)
	required = ('compared', 'zone', 'hash', 'optimized', 'locale', 'directory', 'oracle_held', 'imported')

	def cases(self, tier, seed):
		for c in self.seeded(tier, seed, 'imports', 1, 12):
			yield c
		for c in self.seeded(tier, seed, 'environments', 12, 300):
			yield c


	def run(self, case, m):
		rng = core.rng_for(case['seed'])
		if case['kind'] == 'imports':
			return self.imports(case, m, rng)
		directory = tempfile.mkdtemp(prefix='wlmon-environments-')
		try:
			self.compare(case, m, rng, directory)
		finally:
			shutil.rmtree(directory, ignore_errors=True)

	def chosen(self, rng, seed):
		found = []
		for name in FRIENDS:
			kinds = {}
			for c in load(name).cases('quick', seed):
				kinds.setdefault(c.get('kind'), []).append(c)
			for kind in sorted(kinds, key=str):
				if kind not in SKIP.get(name, ()):
					found.append((name, rng.choice(kinds[kind])))
		return found

	def environment(self, rng, directory):
		"""(description, interpreter, options, variables, directory)"""
		names = [name for name in ('zone', 'clock', 'hash', 'optimized', 'locale', 'directory', 'interpreter', 'strict') if rng.random() < {'zone': 0.85, 'strict': 0.2}.get(name, 0.6)] or ['zone']
		plain = python = next((p for p in PYTHONS if 'pypy' not in p and os.path.exists(p)), sys.executable)
		options, variables, where = [], {}, ROOT
		for name in names:
			if name == 'zone':
				variables['TZ'] = rng.choice(ZONES)
			elif name == 'clock':
				library = clock_library(directory)
				if library:
					variables.update({'LD_PRELOAD': library, 'WLMON_CLOCK': str(rng.choice((-1, 1)) * rng.randrange(3600, 40 * 365 * 86400))})
			elif name == 'hash':
				variables['PYTHONHASHSEED'] = str(rng.randrange(1, 2 ** 32))
			elif name == 'optimized':
				options.append(rng.choice(('-O', '-OO')))
			elif name == 'strict':
				options += ['-X', 'dev']
			elif name == 'locale':
				variables.update({'LC_ALL': rng.choice(('C', 'POSIX')), 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'})
			elif name == 'directory':
				where = rng.choice(('/', directory, os.path.dirname(os.path.abspath(__file__))))
			elif name == 'interpreter':
				python = rng.choice([p for p in PYTHONS if os.path.exists(p)] or [python])
		# Locks with a timeout wait for the wall clock on PyPy
		if 'LD_PRELOAD' in variables:
			python = plain
		return names, python, options, variables, where

	def start(self, directory, name, spec, python, options, variables, where):
		spec = dict(spec, out=os.path.join(directory, name + '.json'))
		path = os.path.join(directory, name + '.spec')
		with open(path, 'w') as f:
			json.dump(spec, f)
		env = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC', PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE='1')
		env.update(variables)
		log = open(os.path.join(directory, name + '.log'), 'wb')
		try:
			process = subprocess.Popen([python, '-B'] + options + ['-m', 'wlmon.variant', path], cwd=where, env=env, stdin=subprocess.DEVNULL,
									stdout=subprocess.DEVNULL, stderr=log)
			try:
				process.wait(LIMIT)
			except subprocess.TimeoutExpired:
				process.kill()
				process.wait()
		finally:
			log.close()
		try:
			with open(spec['out']) as f:
				return json.load(f)
		except (OSError, ValueError):
			with open(os.path.join(directory, name + '.log'), 'rb') as f:
				return {'import': 'ended with status %s: %s' % (process.returncode, f.read()[-1500:].decode('utf-8', 'replace'))}

	def imports(self, case, m, rng):
		"""Every module can be imported first, and before or after any other one."""
		from wlmon import worker
		repo = os.path.realpath(os.environ.get('WLMON_REPO') or '/repo')
		for first in worker.MODULES:
			order = [first] + rng.sample(worker.MODULES, rng.randrange(3))
			program = 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r)\n%s' % (repo, '\n'.join('import weatherlink.' + n for n in order))
			process = subprocess.Popen([rng.choice([p for p in PYTHONS if os.path.exists(p)] or [sys.executable]), '-B', '-c', program], cwd='/',
									stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
			out = process.communicate()[0].decode('utf-8', 'replace')
			m.check(process.returncode == 0, 'a module cannot be imported', order=order, out=out[-1500:])
			m.event('imported')
			m.nontrivial((case['seed'], order))

	def compare(self, case, m, rng, directory):
		spec = {'seed': case['seed'], 'cases': self.chosen(rng, m.seed), 'calculations': 150, 'steps': rng.randint(4, 14)}
		# What the other checks observe must hold anyway
		plain = self.start(directory, 'plain', dict(spec, cases=[]), sys.executable, [], {}, ROOT)
		if 'import' in plain or 'failed' in plain:
			raise core.HarnessError('the plain process: %s' % (plain.get('import') or plain.get('failed')))
		cases = spec['cases']
		for i in range(2 if m.tier == 'thorough' else 1):
			names, python, options, variables, where = environment = self.environment(rng, directory)
			# The whole of it takes long on PyPy
			spec['cases'] = cases if 'pypy' not in python else [c for c in cases if rng.random() < 0.25]
			other = self.start(directory, 'other%d' % i, spec, *environment[1:])
			difference = self.difference(spec, plain, other)
			if difference:
				# Both once more, so that nothing but the environment can be the reason
				again = self.start(directory, 'plain%d' % i, spec, sys.executable, [], {}, ROOT)
				failing = [c for c, v in zip(spec['cases'], again['verdicts']) if v[0] != 'held']
				if self.difference(dict(spec, cases=[]), plain, again):
					raise core.HarnessError('two plain processes differ: %s' % (self.difference(spec, plain, again), ))
				# Cases that fail in the plain process, too, are for the other checks to report
				spec['cases'] = [c for c in spec['cases'] if c not in failing]
				other = self.start(directory, 'again%d' % i, spec, *environment[1:])
				difference = self.difference(spec, plain, other)
			if difference:
				m.fail('another result in another environment: %s' % difference[0], options=options, variables=variables, python=python,
						directory=where, plain=difference[1], other=difference[2])
			m.event('compared', len(other['operations']))
			m.comparisons += len(other['operations']) + sum(v[1] for v in other['verdicts'] if v[0] == 'held')
			m.event('oracle_held', sum(1 for v in other['verdicts'] if v[0] == 'held'))
			for name in names:
				m.event(name)
			m.seen('environment', json.dumps([options, sorted(variables.items()), python]))
			m.seen('process', json.dumps(other['environment']))
			m.nontrivial((case['seed'], names, options, sorted(variables.items()), python))
		m.sample({'environment': other['environment'], 'cases': [c for c, _ in spec['cases']], 'operations': len(other['operations'])})

	def difference(self, spec, plain, other):
		"""None, or (what differs, in the plain process, in the other one)."""
		if 'import' in other:
			return 'the package cannot be used', 'imported', other['import']
		if 'failed' in other:
			return 'operations fail', 'done', other['failed']
		for chosen, b in zip(spec['cases'], other['verdicts']):
			if b[0] != 'held':
				return 'what %s observes no longer holds' % chosen[0], 'held', (chosen, b)
		for a, b in zip(plain['operations'], other['operations']):
			if a != b:
				at = next((k for k, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
				return a[0], a[1][max(0, at - 100):at + 150], b[1][max(0, at - 100):at + 150]
		if len(plain['operations']) != len(other['operations']):
			return 'operations', len(plain['operations']), len(other['operations'])
		return None

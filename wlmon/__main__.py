"""Orchestrator: python -m wlmon <PROPERTY> [--replay FILE].  See DESIGN.md."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from wlmon.checks import load

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHONS = ('/opt/venv-pypy/bin/python', '/opt/venv/bin/python')
STALL_SECONDS = 45
CONFIRM_SECONDS = 60
RETRY_STALL_SECONDS = 240
GRACE_SECONDS = 3  # for the other shards, once one has found a violation


def usable_pythons():
	found = []
	for p in PYTHONS:
		if os.path.exists(p):
			found.append(p)
	return found or [sys.executable]


def environment():
	env = dict(os.environ)
	env['PYTHONHASHSEED'] = env.get('PYTHONHASHSEED', '0')
	env['PYTHONPATH'] = HERE
	env['PYTHONDONTWRITEBYTECODE'] = '1'
	env['TZ'] = 'UTC'
	for k in ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY', 'ALL_PROXY', 'all_proxy'):
		env.pop(k, None)
	return env


def start(python, spec, log):
	return subprocess.Popen(
		[python, '-B', '-m', 'wlmon.worker', json.dumps(spec)],
		cwd=HERE, env=dict(environment(), TMPDIR=os.path.dirname(spec['out'])), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log,
		start_new_session=True,
	)


def stop(process):
	try:
		os.killpg(process.pid, signal.SIGKILL)
	except OSError:
		pass
	process.wait()


def read_json(path):
	try:
		with open(path) as f:
			return json.load(f)
	except (OSError, ValueError):
		return None


def known_findings():
	"""property -> list of substrings; a violation whose message contains one is a listed finding."""
	found = {}
	try:
		with open(os.path.join(HERE, 'KNOWN_FINDINGS')) as f:
			for line in f:
				line = line.strip()
				if line.startswith('known: property='):
					head, _, rest = line[len('known: property='):].partition(' ')
					found.setdefault(head, []).append(rest.strip())
	except OSError:
		pass
	return found


def write_replay(check_id, violation, tier, seed, python):
	directory = os.path.join(HERE, 'replays')
	os.makedirs(directory, exist_ok=True)
	path = os.path.join(directory, '%s-%s.json' % (check_id, tier))
	with open(path, 'w') as f:
		json.dump({
			'property': check_id, 'tier': tier, 'seed': seed, 'python': python,
			'message': violation['message'], 'details': violation['details'], 'case': violation['case'],
			'how': './check.sh %s --replay %s' % (check_id, path),
		}, f, indent=1, sort_keys=True)
	return path


def main(argv):
	started = time.time()
	check_id = argv[0]
	replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
	tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
	if '--thorough' in argv:
		tier = 'thorough'
	try:
		seed = int(os.environ.get('VERIF_SEED') or '1')
	except ValueError:
		seed = 1
	check = load(check_id)
	pythons = usable_pythons()
	shards = int(os.environ.get('WLMON_SHARDS') or 8)
	budget = (780 if check.patience == 1 else 540) if tier == 'thorough' else 300
	case = None
	if replay:
		with open(replay) as f:
			replayed = json.load(f)
		case, tier, seed, shards = replayed['case'], replayed['tier'], replayed['seed'], 1
		if replayed.get('python') in pythons:
			pythons = [replayed['python']]
	work = tempfile.mkdtemp(prefix='wlmon-')
	try:
		return run(check, check_id, tier, seed, pythons, shards, budget, case, work, started)
	finally:
		shutil.rmtree(work, ignore_errors=True)


def run(check, check_id, tier, seed, pythons, shards, budget, case, work, started):
	running = {}
	results = []
	violations = []
	errors = []
	log_path = os.path.join(work, 'stderr.log')
	log = open(log_path, 'ab')
	interpreters = getattr(check, 'interpreters', None)
	if interpreters:
		wanted = [p for p in pythons if any(i in p for i in interpreters)]
		pythons = wanted or pythons

	def launch(shard, patience):
		spec = {
			'id': check_id, 'tier': tier, 'seed': seed, 'shard': shard, 'shards': shards, 'case': case,
			'budget': budget, 'out': os.path.join(work, 'shard-%d.json' % shard),
		}
		python = pythons[shard % len(pythons)]
		running[shard] = (start(python, spec, log), spec, python, time.time(), patience)

	for shard in range(shards):
		launch(shard, STALL_SECONDS * check.patience)
	hard_stop = started + budget + 60
	violated_at = None
	while running:
		time.sleep(0.02)
		now = time.time()
		for shard in list(running):
			process, spec, python, began, patience = running[shard]
			if process.poll() is not None:
				result = read_json(spec['out'])
				if result is None or result['status'] != 'done':
					errors.append('shard %d (%s): %s' % (
						shard, python, (result or {}).get('detail') or 'ended with status %s' % process.returncode))
				if result is not None:
					for v in result['violations']:
						violations.append((v, python))
					results.append(result)
				del running[shard]
				continue
			progress = spec['out'] + '.progress'
			try:
				touched = os.path.getmtime(progress)
			except OSError:
				touched = began
			if now - max(touched, began) > patience or now > hard_stop:
				stop(process)
				del running[shard]
				stuck = read_json(progress)
				if stuck is None:
					errors.append('shard %d made no progress' % shard)
					continue
				# A stall alone decides nothing: the case must fail to finish alone, too, with ample time.
				for other in running.values():
					os.killpg(other[0].pid, signal.SIGSTOP)
				verdict, found = confirm_stall(CONFIRM_SECONDS * check.patience, check_id, tier, seed, python, stuck, work, log)
				for other in running.values():
					os.killpg(other[0].pid, signal.SIGCONT)
				paused = time.time() - now
				hard_stop += paused
				for s, other in list(running.items()):
					running[s] = other[:3] + (time.time(), other[4])
				if verdict == 'stuck':
					violations.append(({
						'case': stuck, 'message': 'no progress: the case does not finish (run alone, %d s)'
						% (CONFIRM_SECONDS * check.patience), 'details': {}}, python))
				elif found:
					violations.extend((v, python) for v in found)
				elif patience == STALL_SECONDS * check.patience and now < hard_stop - 120:
					launch(shard, RETRY_STALL_SECONDS)  # it was only slow
				else:
					errors.append('shard %d stalled on %s (%s)' % (shard, json.dumps(stuck)[:300], verdict))
		if violations and violated_at is None:
			violated_at = time.time()
		if violated_at and time.time() > violated_at + GRACE_SECONDS:
			for other in running.values():
				stop(other[0])
			break
	log.close()
	return conclude(check, check_id, tier, seed, results, violations, errors, log_path, started, case)


def confirm_stall(seconds, check_id, tier, seed, python, case, work, log):
	spec = {
		'id': check_id, 'tier': tier, 'seed': seed, 'shard': 0, 'shards': 1, 'case': case, 'budget': seconds,
		'out': os.path.join(work, 'confirm-%d.json' % int(time.time() * 1000)),
	}
	process = start(python, spec, log)
	try:
		process.wait(seconds)
		return 'finished when run alone', (read_json(spec['out']) or {}).get('violations')
	except subprocess.TimeoutExpired:
		stop(process)
		return 'stuck', None


def conclude(check, check_id, tier, seed, results, violations, errors, log_path, started, case):
	events, distinct, keys, comparisons, cases, samples = {}, {}, set(), 0, 0, []
	interpreters, lines = set(), {}
	truncated = False
	for r in results:
		for k, v in r['events'].items():
			events[k] = events.get(k, 0) + v
		for k, v in r['distinct'].items():
			distinct.setdefault(k, set()).update(map(str, v))
		keys.update(r['keys'])
		comparisons += r['comparisons']
		cases += r['cases']
		samples.extend(r['samples'][:1])
		interpreters.add(r['python'])
		for name, numbers in r.get('lines', {}).items():
			lines.setdefault(name, set()).update(numbers)
		truncated = truncated or bool(r.get('truncated'))

	known = known_findings().get(check_id, [])
	new, listed = [], {}
	for v, python in violations:
		for pattern in known:
			if pattern and pattern in v['message']:
				listed.setdefault(pattern, v)
				break
		else:
			new.append((v, python))
	for pattern in known:
		if pattern in listed:
			print('KNOWN-FINDING: property=%s %s' % (check_id, pattern))

	missing = [e for e in check.required if not events.get(e)]
	if os.environ.get('WLMON_LINES'):
		with open(os.environ['WLMON_LINES'], 'a') as f:
			f.write(json.dumps({'property': check_id, 'lines': dict((k, sorted(v)) for k, v in lines.items())}) + '\n')
	if case is None:
		evidence = {
			'property': check_id, 'tier': tier, 'seed': seed, 'level': check.level,
			'coverage': {
				'evaluations': cases,
				'distinct_nontrivial': len(keys),
				'rule': check.rule,
				'samples': samples[:6] or ['none'],
				'oracle_comparisons': comparisons,
				'events_observed': dict(sorted(events.items())),
				'distinct_observed': dict((k, len(v)) for k, v in sorted(distinct.items())),
				'lines_of_the_code_executed': dict((k, len(v)) for k, v in sorted(lines.items())),
				'interpreters': sorted(interpreters),
				'stopped_by_time_budget': truncated,
				'errors': errors,
			},
			'assumptions': list(check.assumptions),
			'wall_s': round(time.time() - started, 2),
			'violations': len(new),
		}
		if check.exhaustive and not truncated and not errors:
			evidence['coverage']['exhaustive'] = True
		directory = os.path.join(HERE, 'evidence')
		os.makedirs(directory, exist_ok=True)
		path = os.path.join(directory, check_id + '.json')
		with open(path + '.tmp', 'w') as f:
			json.dump(evidence, f, indent=1, sort_keys=True)
		os.rename(path + '.tmp', path)

	if new:
		v, python = sorted(new, key=lambda x: len(json.dumps(x[0]['case'])))[0]
		replay = write_replay(check_id, v, tier, seed, python) if case is None else 'same'
		print('%s: %s' % (check_id, v['message']))
		for k, d in sorted(v['details'].items()):
			print('  %s: %s' % (k, d))
		print('VIOLATION property=%s replay=%s' % (check_id, replay))
		return 1
	if errors:
		for e in errors:
			print('%s: error: %s' % (check_id, e), file=sys.stderr)
		with open(log_path, 'rb') as f:
			sys.stderr.write(f.read()[-3000:].decode('utf-8', 'replace'))
		return 3
	if case is None and (missing or not keys):
		print('%s: inconclusive: never observed %s' % (check_id, missing or 'a non-trivial case'), file=sys.stderr)
		return 4
	print('%s: held on %d executions (%d distinct non-trivial), %d comparisons, %.1f s' % (
		check_id, cases, len(keys), comparisons, time.time() - started))
	return 0


if __name__ == '__main__':
	sys.exit(main(sys.argv[1:]))

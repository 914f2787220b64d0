#!/usr/bin/env python3
"""
Writes /verif/seeded/<id>/ from the bugs described in tools/bugs.py, after confirming each in a scratch copy of /repo:
the changed lines are original ones, the tests pass, the demonstration passes without and fails with the change.

    plant.py [ID...] [--check] [--keep]     --check also runs the property's quick check against the change
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs  # noqa: E402
import bugs2  # noqa: E402,F401
import bugs3  # noqa: E402,F401
import bugs4  # noqa: E402,F401
import bugs5  # noqa: E402,F401
import bugs6  # noqa: E402,F401
import bugs7  # noqa: E402,F401
import bugs8  # noqa: E402,F401

BASE = 'c8e92bf'
DEMO_SH = '''#!/bin/bash
# Exit 0 if the code in the current directory behaves, 1 if it does not.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def run(command, cwd, timeout=300, **env):
	p = subprocess.run(command, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
	return p.returncode, p.stdout.decode('utf-8', 'replace')


def plant(bug, check):
	scratch = tempfile.mkdtemp(prefix='plant', dir='/tmp')
	try:
		repo = os.path.join(scratch, 'repo')
		run(['git', 'clone', '-q', '/repo', repo], scratch)
		demo = os.path.join(scratch, 'demo')
		os.mkdir(demo)
		with open(os.path.join(demo, 'demo.sh'), 'w') as f:
			f.write(DEMO_SH)
		with open(os.path.join(demo, 'demo.py'), 'w') as f:
			f.write(bug['demo'].lstrip('\n'))
		lib = set(bug.get('lib', ()))
		if lib:
			os.mkdir(os.path.join(demo, 'wlmon'))
			for name in lib | {'__init__', 'core'}:
				shutil.copy(os.path.join(HERE, 'wlmon', name + '.py'), os.path.join(demo, 'wlmon'))
		code, out = run(['bash', os.path.join(demo, 'demo.sh')], repo)
		if code:
			return 'demo fails on the unchanged tree: ' + out[-1500:]
		for path, old, new in bug['edits']:
			full = os.path.join(repo, path)
			with open(full) as f:
				source = f.read()
			if source.count(old) != 1:
				return '%d times in %s: %r' % (source.count(old), path, old)
			with open(full, 'w') as f:
				f.write(source.replace(old, new))
		diff = run(['git', 'diff'], repo)[1]
		removed = 0
		for path in {e[0] for e in bug['edits']}:
			base = run(['git', 'show', BASE + ':' + path], '/repo')[1].split('\n')
			for line in run(['git', 'diff', '-U0', '--', path], repo)[1].split('\n'):
				if line.startswith('-') and not line.startswith('---'):
					removed += 1
					if line[1:] not in base:
						return 'not an original line: ' + line
		if not removed:
			return 'no original line is changed'
		code, out = run([
			'/opt/venv-pypy/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'addopts=', 'tests'
		], repo, PYTHONPATH=repo, TZ='UTC', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
		if code:
			return 'tests fail: ' + out[-600:]
		code, demo_out = run(['bash', os.path.join(demo, 'demo.sh')], repo)
		if code == 0:
			return 'demo passes with the change'
		target = os.path.join(HERE, 'seeded', bug['id'])
		if os.path.isdir(target):
			shutil.rmtree(target)
		shutil.copytree(demo, target, ignore=shutil.ignore_patterns('__pycache__'))
		with open(os.path.join(target, 'patch.diff'), 'w') as f:
			f.write(diff)
		with open(os.path.join(target, 'meta.json'), 'w') as f:
			json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
			f.write('\n')
		result = 'planted; ' + demo_out.strip().split('\n')[-1][:160]
		if check:
			code, out = run(['./check.sh', bug['property'], 'quick'], HERE, 900, WLMON_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
			result += '\n    check %s: exit %s %s' % (bug['property'], code, [x for x in out.split('\n') if 'VIOLATION' in x or 'held' in x or 'error' in x][:1])
		return result
	finally:
		shutil.rmtree(scratch)


def main():
	ids = [a for a in sys.argv[1:] if not a.startswith('--')]
	for bug in bugs.BUGS:
		if not ids or bug['id'] in ids:
			print(bug['id'], plant(bug, '--check' in sys.argv), flush=True)


if __name__ == '__main__':
	main()

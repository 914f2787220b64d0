#!/usr/bin/env python3
"""Every repaired defect, put back in a scratch copy of /repo, must be reported by its property's check again."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
	chosen = sys.argv[1:]
	seen = {}
	for line in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
		found = re.match(r'fixed: property=(C\d+) ([0-9a-f]{7,})', line)
		if found:
			seen.setdefault(found.group(2), []).append(found.group(1))
	for commit, properties in seen.items():
		if chosen and commit not in chosen:
			continue
		work = tempfile.mkdtemp(prefix='wlmon-refix-')
		try:
			copy = os.path.join(work, 'repo')
			subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
			reverted = subprocess.run(['git', '-C', copy, '-c', 'user.name=x', '-c', 'user.email=x', 'revert', '--no-commit', commit], capture_output=True, text=True)
			if reverted.returncode:
				print(commit, properties, 'cannot be reverted alone')
				continue
			for p in properties:
				done = subprocess.run([os.path.join(HERE, 'check.sh'), p, 'quick'], env=dict(os.environ, WLMON_REPO=copy), capture_output=True, text=True)
				print(commit, p, 'reported' if 'VIOLATION property=%s ' % p in done.stdout else 'MISSED (%d)' % done.returncode, flush=True)
		finally:
			shutil.rmtree(work)


main()

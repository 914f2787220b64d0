#!/usr/bin/env python3
"""
Mutation campaign: how many small behaviour changes that pass the repository's own tests do the checks detect?

    mutate.py --out LOG [--seed N] [--count N] [--files a,b] [--verif COPY] [--lines]

Every mutant lives in a scratch copy of /repo.  A development tool: no check uses it.
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
FILES = {
	'weatherlink/downloader.py': 'C07 C11 C33 C02 C01 C41 C42 C43 C44 C38',
	'weatherlink/importer.py': 'C03 C33 C42 C43 C38',
	'weatherlink/poller.py': 'C12 C13 C11 C38 C39 C41 C42 C43',
	'weatherlink/serial.py': 'C08 C12 C04 C09 C10 C11 C13 C05 C38 C42 C43',
	'weatherlink/models.py': 'C02 C03 C04 C01 C35 C34 C06 C09 C10 C21 C07 C20 C22 C32',
	'weatherlink/utils.py': 'C14 C15 C16 C17 C18 C19 C20 C21 C37 C05 C34 C02 C03 C04 C23 C38 C40 C41',
	'weatherlink/exporter/mysql.py': 'C22 C23 C24 C25 C26 C36 C28 C29 C27 C30 C33 C38 C41 C42 C43 C44',
	'weatherlink/exporter/wunderground.py': 'C31 C32 C06 C38 C41 C42 C44',
}
COMPARE = {
	ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
	ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
}
BINARY = {
	ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv,
	ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitXor: ast.BitOr, ast.Pow: ast.Mult,
}
SQL = [
	('MAX(', 'MIN('), ('MIN(', 'MAX('), ('SUM(', 'AVG('), ('AVG(', 'SUM('), (' ASC', ' DESC'), (' DESC', ' ASC'), (' AND ', ' OR '),
	(' >= ', ' > '), (' <= ', ' < '), (' > ', ' >= '), (' < ', ' <= '), (' IS NOT NULL', ' IS NULL'), ('IGNORE ', ''), ('BETWEEN', 'NOT BETWEEN'),
	('timestamp_station', 'timestamp_utc'), ('summary_date', 'summary_year'), ('_high', '_low'), ('_low', '_high'), ('LIMIT 1', 'LIMIT 2'), ('COUNT(', 'SUM('),
	(' = %s', ' <> %s'), ('WEEKLY', 'MONTHLY'), ('DAILY', 'WEEKLY'),
]


def mutations(node, parents):
	"""Replacements of one node."""
	if isinstance(node, ast.Compare):
		for i, op in enumerate(node.ops):
			new = copy.deepcopy(node)
			new.ops[i] = COMPARE[type(op)]()
			yield 'compare', new
	elif isinstance(node, ast.BinOp) and not isinstance(getattr(node, 'left', None), (ast.Constant,)) or (
			isinstance(node, ast.BinOp) and not isinstance(node.left.value, str)):
		if type(node.op) in BINARY:
			new = copy.deepcopy(node)
			new.op = BINARY[type(node.op)]()
			yield 'binary', new
	elif isinstance(node, ast.BoolOp):
		new = copy.deepcopy(node)
		new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
		yield 'boolean', new
		for i in range(len(node.values)):
			new = copy.deepcopy(node)
			del new.values[i]
			yield 'drop operand', new if len(new.values) > 1 else new.values[0]
	elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
		yield 'drop unary', copy.deepcopy(node.operand)
	elif isinstance(node, ast.Constant):
		v = node.value
		if v is True or v is False:
			yield 'bool', ast.Constant(not v)
		elif isinstance(v, int):
			yield 'int+', ast.Constant(v + 1)
			yield 'int-', ast.Constant(v - 1)
		elif isinstance(v, float):
			yield 'float', ast.Constant(v * 1.1)
		elif isinstance(v, str):
			for a, b in SQL:
				for at in [x.start() for x in re.finditer(re.escape(a), v)]:
					yield 'sql', ast.Constant(v[:at] + b + v[at + len(a):])
			if re.match(r'^-?\d+\.\d+$', v):
				yield 'decimal', ast.Constant(v[:-1] + str((int(v[-1]) + 1) % 10))
			elif re.match(r'^[\w%]+$', v):
				yield 'string', ast.Constant(v + 'x')
		elif isinstance(v, bytes) and v:
			yield 'bytes', ast.Constant(bytes([v[0] ^ 1]) + v[1:])
	elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
		for value in (True, False):
			if isinstance(node, ast.While) and value:
				continue
			new = copy.deepcopy(node)
			new.test = ast.Constant(value)
			yield 'condition', new
	elif isinstance(node, ast.Return) and node.value is not None:
		yield 'return', ast.Return(ast.Constant(None))
	elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
		yield 'delete', ast.Pass()
	elif isinstance(node, ast.Break):
		yield 'break', ast.Continue()
	elif isinstance(node, ast.Continue):
		yield 'continue', ast.Pass()
	elif isinstance(node, ast.Call) and len(node.args) == 1 and isinstance(node.func, ast.Attribute) and node.func.attr in (
			'quantize', 'replace', 'upper', 'lower', 'strip', 'abs', 'get'):
		yield 'drop call', copy.deepcopy(node.func.value)
	elif isinstance(node, ast.Dict) and node.keys:
		for i in range(len(node.keys)):
			new = copy.deepcopy(node)
			del new.keys[i], new.values[i]
			yield 'drop item', new
	elif isinstance(node, (ast.Tuple, ast.List)) and isinstance(getattr(node, 'ctx', None), ast.Load) and len(node.elts) > 1:
		for i in range(len(node.elts)):
			new = copy.deepcopy(node)
			del new.elts[i]
			yield 'drop element', new

	if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
		for i in range(len(node.body) - 1):
			new = copy.deepcopy(node)
			new.body[i], new.body[i + 1] = new.body[i + 1], new.body[i]
			yield 'swap statements', new
	if isinstance(node, ast.Try):
		if node.finalbody and node.handlers:
			new = copy.deepcopy(node)
			new.finalbody = []
			yield 'drop finally', new
		for i, handler in enumerate(node.handlers):
			new = copy.deepcopy(node)
			new.handlers[i].body = [ast.Pass()]
			yield 'empty handler', new
			new = copy.deepcopy(node)
			new.handlers[i].type = ast.Name('Exception', ast.Load())
			yield 'other handler', new
	if isinstance(node, ast.Call):
		if len(node.args) > 1:
			for i in range(len(node.args) - 1):
				new = copy.deepcopy(node)
				new.args[i], new.args[i + 1] = new.args[i + 1], new.args[i]
				yield 'swap arguments', new
		for i in range(len(node.keywords)):
			new = copy.deepcopy(node)
			del new.keywords[i]
			yield 'drop keyword', new
	if isinstance(node, ast.FunctionDef):
		names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in node.args.args if a.arg not in ('self', 'cls')})
		loads = [n for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names]
		for i, n in enumerate(loads):
			for step in (1, len(names) // 2):
				other = names[(names.index(n.id) + step) % len(names)]
				if other != n.id:
					new = copy.deepcopy(node)
					[m for m in ast.walk(new) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id in names][i].id = other
					yield 'other name', new
		for i, default in enumerate(node.args.defaults):
			if isinstance(default, ast.Constant):
				new = copy.deepcopy(node)
				new.args.defaults[i] = ast.Constant(not default.value if isinstance(default.value, bool) else 7 if default.value is None else None)
				yield 'default', new
	if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
		for a, b in (('_low', '_high'), ('_high', '_low'), ('outside', 'inside'), ('inside', 'outside'), ('month', 'day'), ('hour', 'minute'), ('year', 'month')):
			if a in node.attr:
				new = copy.deepcopy(node)
				new.attr = node.attr.replace(a, b)
				yield 'other attribute', new


def all_mutants(path):
	with open(os.path.join(REPO, path)) as f:
		source = f.read()
	tree = ast.parse(source)
	skip = set()
	for node in ast.walk(tree):
		if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)) and node.body and isinstance(node.body[0], ast.Expr) \
				and isinstance(node.body[0].value, ast.Constant):
			skip.update(id(n) for n in ast.walk(node.body[0]))
		if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
			skip.update(id(n) for n in ast.walk(node) if n is not node)
		if isinstance(node, ast.FunctionDef) and node.name in ('__repr__', '__str__'):
			skip.update(id(n) for n in ast.walk(node))
		if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in node.targets):
			skip.update(id(n) for n in ast.walk(node))
	for at, node in enumerate(ast.walk(tree)):
		if id(node) in skip:
			continue
		for number, (kind, new) in enumerate(mutations(node, None)):
			yield at, number, kind, getattr(node, 'lineno', 0)


def build(path, at, number):
	with open(os.path.join(REPO, path)) as f:
		tree = ast.parse(f.read())
	target = list(ast.walk(tree))[at]
	new = list(mutations(target, None))[number][1]
	before = ast.unparse(target)

	class Replace(ast.NodeTransformer):
		def visit(self, node):
			return new if node is target else self.generic_visit(node)
	tree = ast.fix_missing_locations(Replace().visit(tree))
	return ast.unparse(tree), before, ast.unparse(ast.fix_missing_locations(new))


def difference(before, after):
	a, b = before.splitlines(), after.splitlines()
	start = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
	return '\n'.join(a[start:start + 3])[:300], '\n'.join(b[start:start + 3])[:300]


def run(command, cwd, timeout, **env):
	e = dict(os.environ, LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1', VERIF_TIER='quick', **env)
	p = subprocess.Popen(command, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
	try:
		out = p.communicate(timeout=timeout)[0]
		return p.returncode, out.decode('utf-8', 'replace')
	except subprocess.TimeoutExpired:
		os.killpg(p.pid, 9)
		p.communicate()
		return 'timeout', ''


def main():
	a = argparse.ArgumentParser()
	a.add_argument('--out', required=True)
	a.add_argument('--seed', default='0')
	a.add_argument('--count', type=int, default=100)
	a.add_argument('--files', default=','.join(sorted(FILES)))
	a.add_argument('--verif', default='/verif')
	a.add_argument('--list', action='store_true')
	a.add_argument('--kinds', default='', help='only mutants of these kinds, separated by commas')
	a = a.parse_args()
	rng = random.Random(a.seed)
	pool = []
	for path in a.files.split(','):
		if path not in FILES:
			path = [p for p in FILES if path in p][0]
		pool += [(path,) + x for x in all_mutants(path) if not a.kinds or x[2] in a.kinds.split(',')]
	if a.list:
		print(len(pool))
		return
	rng.shuffle(pool)
	done = set()
	if os.path.exists(a.out):
		with open(a.out) as f:
			done = {tuple(json.loads(line)['id']) for line in f}
	tried = 0
	for path, at, number, kind, line in pool:
		if tried >= a.count:
			break
		if (path, at, number) in done:
			continue
		try:
			source, before, after = build(path, at, number)
		except Exception as e:
			continue
		scratch = tempfile.mkdtemp(prefix='mutant', dir='/tmp')
		try:
			repo = os.path.join(scratch, 'repo')
			shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
			with open(os.path.join(repo, path), 'w') as f:
				f.write(source)
			started = time.time()
			code, out = run([
				'/opt/venv-pypy/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:logging', '--timeout=60', '-o', 'addopts=', 'tests'
			], repo, 120, PYTHONPATH=repo)
			result = {'id': (path, at, number), 'kind': kind, 'line': line, 'before': before[:300], 'after': after[:300]}
			if len(before) > 300:
				result['before'], result['after'] = difference(before, after)
			if code != 0:
				result['outcome'] = 'tests'
			else:
				tried += 1
				result['outcome'] = 'SURVIVED'
				result['errors'] = []
				for check in FILES[path].split():
					code, out = run(['./check.sh', check, 'quick'], a.verif, 600, WLMON_REPO=repo)
					if code == 1 and 'VIOLATION property=' + check in out:
						result['outcome'] = check
						break
					if code != 0:
						result['errors'].append((check, code, out[-300:]))
				result['seconds'] = round(time.time() - started, 1)
			with open(a.out, 'a') as f:
				f.write(json.dumps(result) + '\n')
			print(result['outcome'], path, line, kind, '|', result['before'][:100].replace('\n', ' '), '->', result['after'][:100].replace('\n', ' '), flush=True)
		finally:
			shutil.rmtree(scratch)


if __name__ == '__main__':
	main()

#!/usr/bin/env python3
"""
Differential self-test of wlmon/sqlengine.py against SQLite, over random statements of the common subset (integers,
text and NULL; no decimals or dates, which SQLite does not have).  Usage: sqltest.py [COUNT [SEED]]
"""
import os
import random
import sqlite3
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from wlmon import sqlengine  # noqa: E402

SCHEMA = '''
CREATE TABLE `t` (
	`id` INT NOT NULL AUTO_INCREMENT,
	`a` INT,
	`b` INT,
	`c` INT,
	PRIMARY KEY (`id`)
);
CREATE TABLE `u` (
	`id` INT NOT NULL AUTO_INCREMENT,
	`a` INT,
	`d` INT,
	PRIMARY KEY (`id`)
);
'''
COLUMNS = {'t': ['id', 'a', 'b', 'c'], 'u': ['id', 'a', 'd']}


class Generator(object):
	def __init__(self, rng):
		self.rng = rng

	def scalar(self, names, depth):
		r = self.rng
		k = r.randrange(9 if depth else 3)
		if k < 2:
			return r.choice(names)
		if k == 2:
			return r.choice(['NULL', str(r.randrange(-3, 6)), '0', '1'])
		if k == 3:
			return '(%s %s %s)' % (self.scalar(names, depth - 1), r.choice('+-*'), self.scalar(names, depth - 1))
		if k == 4:
			return 'coalesce(%s, %s)' % (self.scalar(names, depth - 1), self.scalar(names, depth - 1))
		if k == 5:
			return 'CASE WHEN %s THEN %s ELSE %s END' % (self.test(names, depth - 1), self.scalar(names, depth - 1), self.scalar(names, depth - 1))
		if k == 6:
			return 'nullif(%s, %s)' % (self.scalar(names, depth - 1), self.scalar(names, depth - 1))
		if k == 7:
			table = r.choice(['t', 'u'])
			inner = ['s%d.%s' % (depth, c) for c in COLUMNS[table]]
			return '(SELECT %s(%s) FROM %s s%d WHERE %s)' % (
				r.choice(['min', 'max', 'count', 'sum']), r.choice(inner), table, depth, self.test(inner + names, 1))
		return 'abs(%s)' % self.scalar(names, depth - 1)

	def test(self, names, depth):
		r = self.rng
		k = r.randrange(11 if depth else 2)
		if k < 2:
			return '%s %s %s' % (self.scalar(names, 0), r.choice(['=', '<', '<=', '>', '>=', '<>']), self.scalar(names, depth and depth - 1))
		if k == 2:
			return '(%s AND %s)' % (self.test(names, depth - 1), self.test(names, depth - 1))
		if k == 3:
			return '(%s OR %s)' % (self.test(names, depth - 1), self.test(names, depth - 1))
		if k == 4:
			return 'NOT (%s)' % self.test(names, depth - 1)
		if k == 5:
			return '%s IS %sNULL' % (self.scalar(names, depth - 1), r.choice(['', 'NOT ']))
		if k == 6:
			return '%s %sBETWEEN %s AND %s' % (self.scalar(names, 0), r.choice(['', 'NOT ']), self.scalar(names, 0), self.scalar(names, 0))
		if k == 7:
			return '%s %sIN (%s)' % (self.scalar(names, 0), r.choice(['', 'NOT ']), ', '.join(self.scalar(names, 0) for _ in range(r.randrange(1, 4))))
		if k in (8, 9):
			table = r.choice(['t', 'u'])
			inner = ['q%d.%s' % (depth, c) for c in COLUMNS[table]]
			where = self.test(inner + names, 1)
			if k == 8:
				return '%s %sIN (SELECT %s FROM %s q%d WHERE %s)' % (self.scalar(names, 0), r.choice(['', 'NOT ']), r.choice(inner), table, depth, where)
			return '%sEXISTS (SELECT 1 FROM %s AS q%d WHERE %s)' % (r.choice(['', 'NOT ']), table, depth, where)
		return '%s = %s' % (self.scalar(names, depth - 1), self.scalar(names, depth - 1))

	def select(self):
		r = self.rng
		kind = r.randrange(5)
		if kind <= 1:
			table = r.choice(['t', 'u'])
			source, names = table, list(COLUMNS[table])
		elif kind == 2:
			source = 't x %s u y ON %s' % (r.choice(['JOIN', 'LEFT JOIN', 'INNER JOIN', 'LEFT OUTER JOIN']), self.test(['x.a', 'x.b', 'y.a', 'y.d'], 1))
			names = ['x.id', 'x.a', 'b', 'c', 'y.id', 'y.a', 'd']
		elif kind == 3:
			source = '(SELECT a AS m, %s AS n FROM t WHERE %s) AS z' % (self.scalar(COLUMNS['t'], 1), self.test(COLUMNS['t'], 1))
			names = ['m', 'n', 'z.m']
		else:
			source, names = 't, u', ['t.a', 'b', 'u.a', 'd', 't.id', 'u.id']
		where = r.choice(['', ' WHERE ' + self.test(names, 2)])
		if r.random() < 0.4:
			keys = r.sample(names, r.randrange(0, 3))
			items = keys + ['%s(%s)' % (r.choice(['min', 'max', 'sum', 'count', 'count']), self.scalar(names, 1)) for _ in range(r.randrange(1, 3))] + ['count(*)']
			having = r.choice(['', ' HAVING count(%s) > %d' % (r.choice(names), r.randrange(3))]) if keys else ''
			group = ' GROUP BY ' + ', '.join(keys) if keys else ''
			return 'SELECT %s FROM %s%s%s%s' % (', '.join(items), source, where, group, having), False
		items = [self.scalar(names, 2) for _ in range(r.randrange(1, 4))]
		order = [n for n in r.sample(names, len(names))]
		if r.random() < 0.5 and kind != 3:
			return 'SELECT %s FROM %s%s ORDER BY %s LIMIT %d' % (', '.join(items), source, where, ', '.join(n + r.choice(['', ' ASC', ' DESC']) for n in order), r.randrange(6)), True
		if r.random() < 0.2:
			items += names
			return 'SELECT %s FROM %s%s ORDER BY %s' % (', '.join(items), source, where, ', '.join('%d%s' % (i + 1, r.choice(['', ' DESC'])) for i in r.sample(range(len(items)), len(items)))), True
		distinct = r.choice(['', 'DISTINCT '])
		return 'SELECT %s%s FROM %s%s' % (distinct, ', '.join(items), source, where), False

	def change(self):
		r = self.rng
		table = r.choice(['t', 'u'])
		names, other = COLUMNS[table], 'u' if table == 't' else 't'
		value = self.scalar([n for n in names], 0) if r.random() < 0.6 else '(SELECT %s(%s) FROM %s)' % (r.choice(['max', 'min', 'sum']), r.choice(COLUMNS[other]), other)
		k = r.randrange(4)
		if k == 0:
			return 'DELETE FROM %s WHERE id = %d' % (table, r.randrange(12))
		if k == 1:
			return 'INSERT INTO %s (a, %s) SELECT a, id FROM %s WHERE a > %d ORDER BY id' % (table, names[2], other, r.randrange(6))
		if k == 2:
			return 'INSERT INTO %s (a, %s) VALUES (%d, NULL), (%d, %d)' % (table, names[2], r.randrange(5), r.randrange(5), r.randrange(5))
		return 'UPDATE %s SET %s = %s WHERE %s' % (table, r.choice(names[1:]), value, self.test(names, 0))


def main(count, seed):
	done = changes = nonempty = 0
	for round_number in range(count // 50 + 1):
		rng = random.Random('%s:%s' % (seed, round_number))
		g = Generator(rng)
		engine = sqlengine.Engine(sqlengine.parse_schema(SCHEMA), round_number)
		session = sqlengine.Session(engine)
		lite = sqlite3.connect(':memory:')
		lite.isolation_level = None
		for table in ('t', 'u'):
			names = COLUMNS[table]
			lite.execute('CREATE TABLE %s (id INTEGER PRIMARY KEY AUTOINCREMENT, %s)' % (table, ', '.join('%s INT' % n for n in names[1:])))
			for _ in range(rng.randrange(0, 9)):
				sql = 'INSERT INTO %s (%s) VALUES (%s)' % (table, ', '.join(names[1:]), ', '.join(rng.choice(['NULL', '0', '1', '2', '3', '5']) for _ in names[1:]))
				lite.execute(sql)
				session.execute(sql)
		for _ in range(50):
			if rng.random() < 0.15:
				sql = g.change()
				changes += 1
				lite.execute(sql)
				session.execute(sql)
				for table in ('t', 'u'):
					if lite.execute('SELECT count(*) FROM ' + table).fetchone()[0] > 14:
						for s in (lite, session):
							s.execute('DELETE FROM %s WHERE id > 8' % table)
				for table in ('t', 'u'):
					sql2 = 'SELECT * FROM %s ORDER BY id' % table
					mine, theirs = session.execute(sql2)[2], lite.execute(sql2).fetchall()
					if [tuple(r)[1:] for r in mine] != [tuple(r)[1:] for r in theirs]:
						print('DIFFERENT after', sql, mine, theirs)
						return 1
				continue
			sql, ordered = g.select()
			try:
				theirs = lite.execute(sql).fetchall()
			except sqlite3.OperationalError as e:
				theirs = e
			try:
				mine = session.execute(sql)[2]
			except sqlengine.SQLError as e:
				mine = e
			if isinstance(theirs, Exception) or isinstance(mine, Exception):
				if isinstance(mine, sqlengine.SQLError) and mine.number == 1055:
					continue
				print('ERROR', sql, mine, theirs)
				return 1
			mine = [tuple(None if v is None else int(v) for v in r) for r in mine]
			key = (lambda r: [(v is not None, v or 0) for v in r])
			if not ordered:
				mine.sort(key=key)
				theirs.sort(key=key)
			if mine != theirs:
				print('DIFFERENT', sql, mine, theirs)
				return 1
			done += 1
			nonempty += bool(theirs)
	print('%d queries (%d with rows) and %d changes agree' % (done, nonempty, changes))
	return 0


if __name__ == '__main__':
	sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 5000, sys.argv[2] if len(sys.argv) > 2 else '1'))

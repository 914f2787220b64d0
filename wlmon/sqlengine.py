"""
A small SQL engine with MySQL 8 semantics in strict mode: exact decimals, three-valued logic, enums, unsigned ranges,
unique keys, transactions with a REPEATABLE READ snapshot.  Written from the MySQL manual, for monitoring: whatever
order a statement leaves open is shuffled, and SQL outside the supported subset is a HarnessError, never a verdict.
"""
import datetime
import functools
import random
import re
from decimal import ROUND_HALF_UP, Context, Decimal

from wlmon.core import HarnessError

CONTEXT = Context(prec=120)
MAX_SCALE = 30


class SQLError(Exception):
	def __init__(self, number, state, message):
		super(SQLError, self).__init__(message)
		self.number, self.state, self.message = number, state, message


def syntax(near):
	return SQLError(1064, '42000', "You have an error in your SQL syntax near '%s'" % near[:60])


# ---------------------------------------------------------------- values and types
class Enum(str):
	"""An enum value: compares as its name, orders by its position."""
	position = 0


class Type(object):
	def __init__(self, kind, scale=0, unsigned=False, precision=0, names=(), width=0):
		self.kind, self.scale, self.unsigned, self.precision, self.names, self.width = kind, scale, unsigned, precision, names, width


INT = Type('int')
STR = Type('str')
NULL = Type('null')
DATETIME = Type('datetime')
DATE = Type('date')
TIME = Type('time')
INT_BITS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'integer': 32, 'bigint': 64}
DATETIME_RE = re.compile(r'^(\d{4})-(\d\d?)-(\d\d?)(?:[ T](\d\d?):(\d\d?)(?::(\d\d?)(?:\.(\d{1,6})\d*)?)?)?$')
TIME_RE = re.compile(r'^(-?)(\d{1,3}):(\d\d)(?::(\d\d)(?:\.(\d{1,6})\d*)?)?$')
NUMBER_RE = re.compile(r'^\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)')


def decimal_type(scale):
	return Type('decimal', scale=min(scale, MAX_SCALE))


@functools.lru_cache(maxsize=4096)
def parse_datetime(text):
	m = DATETIME_RE.match(text)
	if not m:
		return None
	y, mo, d, h, mi, s, f = m.groups()
	try:
		return datetime.datetime(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(s or 0), int((f or '0').ljust(6, '0')))
	except ValueError:
		return None


def parse_time(text):
	m = TIME_RE.match(text)
	if not m:
		return None
	sign, h, mi, s, f = m.groups()
	if int(mi) > 59 or int(s or 0) > 59:
		return None
	value = datetime.timedelta(hours=int(h), minutes=int(mi), seconds=int(s or 0), microseconds=int((f or '0').ljust(6, '0')))
	return -value if sign else value


def is_number(value):
	return isinstance(value, (int, Decimal))


def to_number(value):
	if value is None or is_number(value):
		return value
	if isinstance(value, str):
		m = NUMBER_RE.match(value)
		return Decimal(m.group(1)) if m else Decimal(0)
	raise HarnessError('a %s used as a number' % type(value).__name__)


def quantize(value, scale):
	return Decimal(value).quantize(Decimal(1).scaleb(-scale), rounding=ROUND_HALF_UP, context=CONTEXT)


def rounded_datetime(value):
	if value.microsecond >= 500000:
		value += datetime.timedelta(seconds=1)
	return value.replace(microsecond=0)


class Column(object):
	def __init__(self, name, type_, nullable=True, auto=False, default=None):
		self.name, self.type, self.nullable, self.auto, self.default = name, type_, nullable, auto, default

	def store(self, value):
		"""The value a strict-mode INSERT or UPDATE stores."""
		t = self.type
		if value is None:
			if not self.nullable and not self.auto:
				raise SQLError(1048, '23000', "Column '%s' cannot be null" % self.name)
			return None
		if t.kind in ('int', 'decimal', 'year'):
			if isinstance(value, str):
				m = NUMBER_RE.match(value)
				if not m or m.end() != len(value.rstrip()):
					raise SQLError(1366, 'HY000', "Incorrect %s value: '%s' for column '%s'" % (t.kind, value, self.name))
				value = Decimal(m.group(1))
			elif not is_number(value):
				raise HarnessError('a %s stored in numeric column %s' % (type(value).__name__, self.name))
			value = quantize(value, t.scale)
			if t.kind == 'year':
				value = int(value)
				if 1 <= value <= 99:
					value += 1900 if value >= 70 else 2000
				low, high = 1901, 2155
				if value == 0:
					return 0
			elif t.kind == 'int':
				value = int(value)
				low, high = (0, 2 ** t.width - 1) if t.unsigned else (-2 ** (t.width - 1), 2 ** (t.width - 1) - 1)
			else:
				high = (10 ** t.precision - 1) * Decimal(1).scaleb(-t.scale)
				low = Decimal(0) if t.unsigned else -high
				if value == 0:
					value = abs(value)
			if not low <= value <= high:
				raise SQLError(1264, '22003', "Out of range value for column '%s' at row 1" % self.name)
			return value
		if t.kind == 'enum':
			if is_number(value):
				if value != int(value) or not 1 <= value <= len(t.names):
					raise SQLError(1265, '01000', "Data truncated for column '%s' at row 1" % self.name)
				return t.names[int(value) - 1]
			if isinstance(value, str):
				for name in t.names:
					if name.lower() == value.rstrip().lower():
						return name
			raise SQLError(1265, '01000', "Data truncated for column '%s' at row 1" % self.name)
		if t.kind in ('datetime', 'date'):
			if isinstance(value, str):
				value = parse_datetime(value)
				if value is None:
					raise SQLError(1292, '22007', "Incorrect datetime value for column '%s' at row 1" % self.name)
			elif isinstance(value, datetime.date) and not isinstance(value, datetime.datetime):
				value = datetime.datetime(value.year, value.month, value.day)
			elif not isinstance(value, datetime.datetime):
				raise SQLError(1292, '22007', "Incorrect datetime value for column '%s' at row 1" % self.name)
			value = rounded_datetime(value)
			return value if t.kind == 'datetime' else value.date()
		if t.kind == 'time':
			if isinstance(value, str):
				text, value = value, parse_time(value)
				if value is None:
					full = parse_datetime(text)
					if full is None:
						raise SQLError(1292, '22007', "Incorrect time value: '%s' for column '%s' at row 1" % (text, self.name))
					value = full
			if isinstance(value, datetime.datetime):
				value = datetime.timedelta(hours=value.hour, minutes=value.minute, seconds=value.second, microseconds=value.microsecond)
			if not isinstance(value, datetime.timedelta):
				raise HarnessError('a %s stored in time column %s' % (type(value).__name__, self.name))
			seconds = int(quantize(Decimal(value // datetime.timedelta(microseconds=1)) / 1000000, 0))
			return datetime.timedelta(seconds=seconds)
		if t.kind == 'str':
			value = value if isinstance(value, str) else text_of(value)
			if len(value) > t.width:
				raise SQLError(1406, '22001', "Data too long for column '%s' at row 1" % self.name)
			return value
		raise HarnessError('column kind %s' % t.kind)


def text_of(value):
	"""The value as the text protocol sends it."""
	if isinstance(value, datetime.datetime):
		return value.strftime('%Y-%m-%d %H:%M:%S').rjust(19, '0') + ('.%06d' % value.microsecond if value.microsecond else '')
	if isinstance(value, datetime.date):
		return value.strftime('%Y-%m-%d').rjust(10, '0')
	if isinstance(value, datetime.timedelta):
		total = int(abs(value).total_seconds())
		return '%s%02d:%02d:%02d' % ('-' if value < datetime.timedelta(0) else '', total // 3600, total // 60 % 60, total % 60)
	if isinstance(value, Decimal):
		return '{:f}'.format(value)
	return str(value)


# ---------------------------------------------------------------- tables
class Table(object):
	"""rows: primary key -> tuple of values.  Row tuples are never modified in place."""
	def __init__(self, name, columns, primary, uniques):
		self.name, self.columns, self.primary, self.uniques = name, columns, primary, uniques
		self.position = dict((c.name.lower(), i) for i, c in enumerate(columns))
		self.names = [c.name for c in columns]
		self.rows = {}
		self.keys = dict((u, {}) for u in uniques)  # unique columns -> {values: primary key}
		self.next_id = [1]  # shared by every version: not rolled back

	def copy(self):
		other = Table.__new__(Table)
		other.__dict__.update(self.__dict__)
		other.rows = dict(self.rows)
		other.keys = dict((u, dict(k)) for u, k in self.keys.items())
		return other

	def index(self, name):
		try:
			return self.position[name.lower()]
		except KeyError:
			raise SQLError(1054, '42S22', "Unknown column '%s' in 'field list'" % name)

	def unique_key(self, columns, row):
		key = tuple(row[self.position[c]] for c in columns)
		return None if None in key else key

	def conflict(self, row, but=None):
		if row[self.primary] in self.rows and row[self.primary] != but:
			return row[self.primary], 'PRIMARY'
		for columns, known in self.keys.items():
			key = self.unique_key(columns, row)
			if key is not None and known.get(key, but) != but:
				return known[key], '-'.join(columns)
		return None

	def put(self, row, old=None):
		if old is not None:
			self.remove(old)
		self.rows[row[self.primary]] = row
		for columns, known in self.keys.items():
			key = self.unique_key(columns, row)
			if key is not None:
				known[key] = row[self.primary]

	def remove(self, row):
		del self.rows[row[self.primary]]
		for columns, known in self.keys.items():
			known.pop(self.unique_key(columns, row), None)

	def as_dicts(self):
		return [dict(zip(self.names, self.rows[k])) for k in sorted(self.rows)]


class Joined(object):
	"""What the columns of a FROM clause of more than one table are looked up in"""
	primary = -1
	name = ''

	def __init__(self, parts):
		self.parts = parts  # (alias, table)
		self.columns = [c for _, t in parts for c in t.columns]
		self.names = [c.name for c in self.columns]

	def index(self, name, qualifier=None):
		found, offset = [], 0
		for alias, table in self.parts:
			if qualifier in (None, alias) and name.lower() in table.position:
				found.append(offset + table.position[name.lower()])
			offset += len(table.columns)
		if len(found) > 1:
			raise SQLError(1052, '23000', "Column '%s' in field list is ambiguous" % name)
		if not found:
			raise SQLError(1054, '42S22', "Unknown column '%s' in 'field list'" % name)
		return found[0]


TOKEN_RE = re.compile(r"""
	(?P<space>\s+|--[ \t][^\n]*|\#[^\n]*|/\*.*?\*/)
	|(?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
	|(?P<tick>`(?:[^`]|``)*`)
	|(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?(?![A-Za-z_$]))
	|(?P<id>@{0,2}[A-Za-z_$][A-Za-z0-9_$]*|@@[A-Za-z_.]+)
	|(?P<op><=>|<=|>=|<>|!=|:=|&&|\|\||[-+*/%=<>(),.;!])
""", re.X | re.S)
ESCAPES = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'b': '\b', 'Z': '\x1a'}


def unquote(text):
	q, body = text[0], text[1:-1]
	return re.sub(r"\\(.)|(%s%s)" % (q, q), lambda m: ESCAPES.get(m.group(1), m.group(1)) if m.group(1) else q, body, flags=re.S)


def tokenize(sql):
	"""Tokens, with literals replaced by slots: two statements differing in literals have the same shape."""
	tokens, literals, at = [], [], 0
	while at < len(sql):
		m = TOKEN_RE.match(sql, at)
		if not m:
			raise syntax(sql[at:])
		at = m.end()
		kind = m.lastgroup
		text = m.group()
		if kind == 'space':
			continue
		if kind == 'str':
			tokens.append(('lit', 'str'))
			literals.append(unquote(text))
		elif kind == 'num':
			if re.match(r'^\d+$', text):
				tokens.append(('lit', 'int'))
				literals.append(int(text))
			else:
				# The scale is part of the type
				value = Decimal(text)
				tokens.append(('lit', 'dec%d' % max(0, -value.as_tuple().exponent)))
				literals.append(value)
		elif kind == 'tick':
			tokens.append(('name', text[1:-1].replace('``', '`')))
		elif kind == 'id':
			tokens.append(('id', text))
		else:
			tokens.append(('op', text))
	return tuple(tokens), literals


SCHEMA_RE = re.compile(r"""
	(?P<space>\s+|--(?=\s)[^\n]*|\#[^\n]*|/\*.*?\*/)
	|(?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
	|(?P<tick>`(?:[^`]|``)*`)
	|(?P<word>[A-Za-z_$][A-Za-z0-9_$]*|\d+(?:\.\d+)?)
	|(?P<op>.)
""", re.X | re.S)


class SchemaParser(object):
	"""The statements of a schema file that make tables and indexes; what else it holds does not matter here."""
	def __init__(self, text):
		self.tokens = [(m.lastgroup, m.group()) for m in SCHEMA_RE.finditer(text) if m.lastgroup != 'space']
		self.tables = {}

	def run(self):
		statement, depth = [], 0
		for token in self.tokens + [('op', ';')]:
			if token == ('op', ';') and not depth:
				self.statement(statement)
				statement = []
				continue
			depth += {'(': 1, ')': -1}.get(token[1], 0) if token[0] == 'op' else 0
			statement.append(token)
		return self.tables

	@staticmethod
	def word(tokens, at):
		return tokens[at][1].lower() if at < len(tokens) and tokens[at][0] == 'word' else ''

	@staticmethod
	def name_of(token):
		return token[1][1:-1].replace('``', '`') if token[0] == 'tick' else token[1]

	def table_at(self, tokens, at):
		"""(table name, position after it), a database before it left out."""
		name = self.name_of(tokens[at])
		if tokens[at + 1:at + 2] == [('op', '.')]:
			return self.name_of(tokens[at + 2]), at + 3
		return name, at + 1

	@staticmethod
	def group(tokens, at):
		"""The tokens between the parenthesis at `at` and its end, and the position after it."""
		depth, start = 0, at
		while True:
			if tokens[at][0] == 'op':
				depth += {'(': 1, ')': -1}.get(tokens[at][1], 0)
			at += 1
			if not depth:
				return tokens[start + 1:at - 1], at

	@staticmethod
	def parts(tokens):
		"""Split at the commas outside parentheses."""
		part, depth = [], 0
		for token in tokens:
			if token[0] == 'op':
				depth += {'(': 1, ')': -1}.get(token[1], 0)
			if token == ('op', ',') and not depth:
				yield part
				part = []
			else:
				part.append(token)
		if part:
			yield part

	def columns_of(self, tokens):
		"""The column names of an index definition: what its parentheses list."""
		at = tokens.index(('op', '('))
		return tuple(self.name_of(part[0]).lower() for part in self.parts(self.group(tokens, at)[0]))

	def statement(self, tokens):
		words = [self.word(tokens, i) for i in range(4)]
		if words[:2] == ['create', 'table']:
			at = 5 if words[2] == 'if' else 2
			name, at = self.table_at(tokens, at)
			body, _ = self.group(tokens, at)
			self.create(name, body)
		elif words[0] == 'create' and words[1] == 'unique':
			at = next(i for i, t in enumerate(tokens) if t[1].lower() == 'on')
			name, at = self.table_at(tokens, at + 1)
			self.add_unique(self.tables[name.lower()], self.columns_of(tokens[at:]))
		elif words[:2] == ['alter', 'table']:
			name, at = self.table_at(tokens, 2)
			table = self.tables[name.lower()]
			for part in self.parts(tokens[at:]):
				words = [self.word(part, i) for i in range(len(part))]
				if words[:1] == ['add'] and 'unique' in words:
					self.add_unique(table, self.columns_of(part))
				elif words[:2] in (['add', 'index'], ['add', 'key']) or words[:1] == ['engine']:
					pass
				else:
					raise HarnessError('schema change %r' % (part,))

	@staticmethod
	def add_unique(table, columns):
		table.uniques = table.uniques + (columns,)
		table.keys[columns] = {}

	def create(self, name, body):
		columns, primary, uniques = [], None, []
		for part in self.parts(body):
			words = [self.word(part, i) for i in range(len(part))]
			if words[0] == 'constraint':
				part = part[1:] if words[1] in ('primary', 'unique') else part[2:]
				words = [self.word(part, i) for i in range(len(part))]
			if words[0] == 'primary':
				primary = self.columns_of(part)
			elif words[0] == 'unique':
				uniques.append(self.columns_of(part))
			elif words[0] not in ('index', 'key'):
				column, own = self.column(part)
				columns.append(column)
				if own == 'primary':
					primary = (column.name.lower(),)
				elif own == 'unique':
					uniques.append((column.name.lower(),))
		if not primary or len(primary) != 1:
			raise HarnessError('the primary key of %s is not one column' % name)
		table = Table(name, columns, 0, tuple(uniques))
		table.primary = table.index(primary[0])
		self.tables[name.lower()] = table

	def column(self, part):
		name, kind, argument, at = self.name_of(part[0]), self.word(part, 1), [], 2
		if part[2:3] == [('op', '(')]:
			group, at = self.group(part, 2)
			argument = [unquote(t[1]) if t[0] == 'str' else t[1] for t in group if t != ('op', ',')]
		rest, own, default, nullable, auto, unsigned = part[at:], None, None, True, False, False
		i = 0
		while i < len(rest):
			w = self.word(rest, i)
			if w == 'unsigned':
				unsigned = True
			elif w == 'not':
				nullable = False
				i += 1
			elif w == 'auto_increment':
				auto = True
			elif w in ('primary', 'unique'):
				own = w
				i += self.word(rest, i + 1) == 'key'
			elif w in ('comment', 'collate'):
				i += 1
			elif w == 'default':
				i += 1
				sign = rest[i:i + 1] == [('op', '-')]
				i += sign
				if self.word(rest, i) == 'null':
					default = None
				elif rest[i][0] == 'str':
					default = unquote(rest[i][1])
				elif re.match(r'^[\d.]+$', rest[i][1]):
					default = Decimal(rest[i][1]) if '.' in rest[i][1] else int(rest[i][1])
					default = -default if sign else default
				elif self.word(rest, i) in ('true', 'false'):
					default = int(self.word(rest, i) == 'true')
				else:
					raise HarnessError('schema default %r' % (rest[i],))
			elif w not in ('null', 'signed', 'zerofill', 'key'):
				raise HarnessError('schema column %r' % (part,))
			i += 1
		return Column(name, self.type_of(kind, argument, unsigned), nullable=nullable and own != 'primary', auto=auto, default=default), own

	@staticmethod
	def type_of(kind, argument, unsigned):
		if kind in INT_BITS:
			return Type('int', unsigned=unsigned, width=INT_BITS[kind])
		if kind in ('decimal', 'numeric', 'dec'):
			p, s = ([int(v) for v in argument] + [0])[:2] if argument else (10, 0)
			return Type('decimal', scale=s, precision=p, unsigned=unsigned)
		if kind in ('datetime', 'timestamp'):
			return DATETIME
		if kind == 'date':
			return DATE
		if kind == 'time':
			return TIME
		if kind == 'year':
			return Type('year')
		if kind == 'enum':
			names = []
			for i, n in enumerate(argument):
				n = Enum(n)
				n.position = i + 1
				names.append(n)
			return Type('enum', names=tuple(names))
		if kind in ('varchar', 'char'):
			return Type('str', width=int(argument[0]))
		raise HarnessError('schema type %r' % kind)


def parse_schema(text):
	"""CREATE TABLE statements -> {name: Table}"""
	return SchemaParser(text).run()


# ---------------------------------------------------------------- expressions
def truth(value):
	if value is None:
		return None
	return to_number(value) != 0


def comparable(a, b):
	"""Bring two non-NULL values to a common domain, as MySQL's comparison rules do."""
	if is_number(a) and is_number(b):
		return a, b
	if isinstance(a, str) and isinstance(b, str):
		return a.lower().rstrip(), b.lower().rstrip()
	for x, y, flip in ((a, b, False), (b, a, True)):
		if isinstance(x, datetime.date):
			x = x if isinstance(x, datetime.datetime) else datetime.datetime(x.year, x.month, x.day)
			if isinstance(y, str):
				parsed = parse_datetime(y)
				if parsed is None:
					raise SQLError(1525, 'HY000', "Incorrect DATETIME value: '%s'" % y)
				y = parsed
			elif isinstance(y, datetime.datetime):
				pass
			elif isinstance(y, datetime.date):
				y = datetime.datetime(y.year, y.month, y.day)
			else:
				break
			return (y, x) if flip else (x, y)
		if isinstance(x, datetime.timedelta):
			if isinstance(y, str):
				y = parse_time(y)
			if not isinstance(y, datetime.timedelta):
				break
			return (y, x) if flip else (x, y)
		if is_number(x) and isinstance(y, str):
			y = to_number(y)
			return (y, x) if flip else (x, y)
	raise HarnessError('comparison of %r with %r' % (a, b))


def compare(op, a, b):
	if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and op in ('=', '<=>', '<>', '!='):
		results = [compare('=' if op != '<=>' else op, x, y) for x, y in zip(a, b)]
		same = 0 if 0 in results else None if None in results else 1
		return same if op in ('=', '<=>') or same is None else 1 - same
	if isinstance(a, tuple) or isinstance(b, tuple):
		raise HarnessError('rows compared with %s' % op)
	if op == '<=>':
		if a is None or b is None:
			return int(a is None and b is None)
		op = '='
	if a is None or b is None:
		return None
	a, b = comparable(a, b)
	if op == '=':
		return int(a == b)
	if op in ('<>', '!='):
		return int(a != b)
	if op == '<':
		return int(a < b)
	if op == '<=':
		return int(a <= b)
	if op == '>':
		return int(a > b)
	return int(a >= b)


class Sort(object):
	"""A sort key: NULL first, enums by position."""
	__slots__ = ('key',)

	def __init__(self, value):
		if value is None:
			self.key = (0, 0)
		elif isinstance(value, Enum):
			self.key = (1, value.position)
		elif isinstance(value, str):
			self.key = (1, value.lower())
		else:
			self.key = (1, value)

	def __lt__(self, other):
		return self.key < other.key

	def __eq__(self, other):
		return self.key == other.key


class Node(object):
	"""type: the static type; value(scope) evaluates.  scope: row (tuple), rows (group), literals."""
	aggregate = False
	type = INT

	def children(self):
		return ()

	def any(self, test):
		return test(self) or any(c.any(test) for c in self.children())


class Scope(object):
	__slots__ = ('row', 'rows', 'literals', 'inserted', 'session', 'cache')

	def __init__(self, literals, row=None, rows=None, inserted=None, session=None):
		self.row, self.rows, self.literals, self.inserted = row, rows, literals, inserted
		self.session, self.cache = session, {}


class Literal(Node):
	def __init__(self, slot, kind):
		self.slot = slot
		self.type = STR if kind == 'str' else INT if kind == 'int' else decimal_type(int(kind[3:]))

	def value(self, scope):
		return scope.literals[self.slot]


class Constant(Node):
	def __init__(self, value, type_=INT):
		self.constant, self.type = value, type_

	def value(self, scope):
		return self.constant


class ColumnRef(Node):
	def __init__(self, name, table, qualifier=None):
		self.name = name
		self.index = table.index(name, qualifier) if isinstance(table, Joined) else table.index(name)
		self.type = table.columns[self.index].type

	def value(self, scope):
		if scope.row is None:
			return None
		return scope.row[self.index]


class OuterRef(Node):
	"""A column of the row of an enclosing query; frame: the stack of the rows it is evaluated for"""
	def __init__(self, inner, frame):
		self.index, self.type, self.frame = inner.index, inner.type, frame

	def value(self, scope):
		row = self.frame[-1]
		return None if row is None else row[self.index]


class Subquery(Node):
	def __init__(self, select, frame, correlated, form):
		self.select, self.frame, self.correlated, self.form = select, frame, correlated, form
		self.type = select.items[0][0].type if form == 'scalar' else INT
		if form != 'exists' and len(select.items) != 1:
			raise SQLError(1241, '21000', 'Operand should contain 1 column(s)')

	def value(self, scope):
		if not self.correlated and id(self) in scope.cache:
			return scope.cache[id(self)]
		self.frame.append(scope.row)
		try:
			rows = self.select.run(scope.session, scope.literals)[1]
		finally:
			self.frame.pop()
		if self.form == 'exists':
			result = int(bool(rows))
		elif self.form == 'list':
			result = [r[0] for r in rows]
		else:
			if len(rows) > 1:
				raise SQLError(1242, '21000', 'Subquery returns more than 1 row')
			result = rows[0][0] if rows else None
		scope.cache[id(self)] = result
		return result


class Inserted(Node):
	"""VALUES(column) in ON DUPLICATE KEY UPDATE"""
	def __init__(self, name, table):
		self.index = table.index(name)
		self.type = table.columns[self.index].type

	def value(self, scope):
		return scope.inserted[self.index]


class Function(Node):
	def __init__(self, arguments, type_, function):
		self.arguments, self.type, self.function = arguments, type_, function

	def children(self):
		return self.arguments

	def value(self, scope):
		return self.function(*[a.value(scope) for a in self.arguments])


class Lazy(Function):
	def value(self, scope):
		return self.function(scope, *self.arguments)


class Remembered(Function):
	"""LAST_INSERT_ID(expression)"""
	def value(self, scope):
		value = self.arguments[0].value(scope)
		if value is not None:
			scope.session.remembered = value
		return value


class Position(Node):
	"""A number in ORDER BY or GROUP BY: the column of the result it counts to"""
	def __init__(self, number, nodes):
		self.number, self.nodes = number, nodes

	def value(self, scope):
		n = self.number.value(scope)
		if not 1 <= n <= len(self.nodes):
			raise SQLError(1054, '42S22', "Unknown column '%s' in 'order clause'" % n)
		return self.nodes[n - 1].value(scope)


class AnyValue(Function):
	"""ANY_VALUE(): exempt from ONLY_FULL_GROUP_BY"""


class Aggregate(Node):
	aggregate = True

	def __init__(self, name, argument, distinct):
		self.name, self.argument, self.distinct = name, argument, distinct
		t = argument.type if argument is not None else INT
		if name == 'count':
			self.type = INT
		elif name == 'avg':
			self.type = decimal_type((t.scale if t.kind == 'decimal' else 0) + 4)
		elif name == 'sum':
			self.type = decimal_type(t.scale if t.kind == 'decimal' else 0)
		else:
			self.type = t

	def children(self):
		return () if self.argument is None else (self.argument,)

	def value(self, scope):
		if scope.rows is None:
			raise SQLError(1111, 'HY000', 'Invalid use of group function')
		if self.argument is None:
			return len(scope.rows)
		values = []
		outer = scope.row, scope.rows
		scope.rows = None
		for row in outer[1]:
			scope.row = row
			v = self.argument.value(scope)
			if v is not None:
				values.append(v)
		scope.row, scope.rows = outer
		if self.distinct:
			values = list(dict((v, v) for v in values))
		if self.name == 'count':
			return len(values)
		if not values:
			return None
		if self.name in ('min', 'max'):
			if isinstance(values[0], Enum):
				return min(values, key=str) if self.name == 'min' else max(values, key=str)
			return min(values) if self.name == 'min' else max(values)
		total = CONTEXT.create_decimal(0)
		for v in values:
			total = CONTEXT.add(total, Decimal(to_number(v)))
		if self.name == 'avg':
			return quantize(CONTEXT.divide(total, Decimal(len(values))), self.type.scale)
		return quantize(total, self.type.scale)


def arithmetic(op, a, b):
	if a is None or b is None:
		return None
	if isinstance(a, Interval) or isinstance(b, Interval):
		if isinstance(a, Interval):
			a, b = b, a
		if isinstance(a, str):
			a = parse_datetime(a)
			if a is None:
				return None
		if isinstance(a, datetime.date) and not isinstance(a, datetime.datetime):
			a = datetime.datetime(a.year, a.month, a.day)
		return a + b.delta if op == '+' else a - b.delta
	a, b = to_number(a), to_number(b)
	if isinstance(a, int) and isinstance(b, int) and op != '/':
		if op == '%':
			return None if b == 0 else int(CONTEXT.remainder(Decimal(a), Decimal(b)))
		return a + b if op == '+' else a - b if op == '-' else a * b
	x, y = Decimal(a), Decimal(b)
	if op == '+':
		return CONTEXT.add(x, y)
	if op == '-':
		return CONTEXT.subtract(x, y)
	if op == '*':
		return CONTEXT.multiply(x, y)
	if y == 0:
		return None
	if op == '%':
		return CONTEXT.remainder(x, y)
	return quantize(CONTEXT.divide(x, y), min(MAX_SCALE, max(0, -x.as_tuple().exponent) + 4))


def arithmetic_type(op, a, b):
	if 'datetime' in (a.kind, b.kind) or 'date' in (a.kind, b.kind) or 'interval' in (a.kind, b.kind):
		return DATETIME
	s, t = (a.scale if a.kind == 'decimal' else 0), (b.scale if b.kind == 'decimal' else 0)
	if op == '/':
		return decimal_type(s + 4)
	if a.kind in ('int', 'year') and b.kind in ('int', 'year'):
		return INT
	return decimal_type(s + t if op == '*' else max(s, t))


class Interval(object):
	UNITS = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 604800}

	def __init__(self, amount, unit):
		if unit not in self.UNITS:
			raise HarnessError('INTERVAL unit %s' % unit)
		self.delta = datetime.timedelta(seconds=float(amount) * self.UNITS[unit])


def as_datetime(value):
	if value is None:
		return None
	if isinstance(value, str):
		return parse_datetime(value)
	if isinstance(value, datetime.datetime):
		return value
	if isinstance(value, datetime.date):
		return datetime.datetime(value.year, value.month, value.day)
	raise HarnessError('%r used as a datetime' % (value,))


def merged_type(types):
	types = [t for t in types if t.kind != 'null']
	if not types:
		return NULL
	if all(t.kind in ('int', 'year') for t in types):
		return INT
	if all(t.kind in ('int', 'year', 'decimal') for t in types):
		return decimal_type(max(t.scale for t in types if t.kind == 'decimal'))
	if all(t.kind == types[0].kind for t in types):
		return types[0]
	if all(t.kind in ('date', 'datetime') for t in types):
		return DATETIME
	return STR


def _part(name):
	return lambda d: None if as_datetime(d) is None else getattr(as_datetime(d), name)


def _like(value, pattern):
	if value is None or pattern is None:
		return None
	regex = ''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c) for c in pattern)
	return int(re.match('^%s$' % regex, text_of(value), re.I | re.S) is not None)


def _extreme(pick):
	def function(*values):
		if any(v is None for v in values):
			return None
		best = values[0]
		for v in values[1:]:
			a, b = comparable(v, best)
			if (a > b) == (pick == 'greatest') and a != b:
				best = v
		return best
	return function


def contained_in(value, given):
	results = [compare('=', value, g) for g in given]
	return 1 if 1 in results else None if None in results else 0


def _truncate(value, places):
	if value is None or places is None:
		return None
	return to_number(value).quantize(Decimal(1).scaleb(-int(places)), rounding='ROUND_DOWN') if isinstance(to_number(value), Decimal) else value


def _whole(name):
	def function(value):
		if value is None:
			return None
		return int(Decimal(to_number(value)).to_integral_value(rounding='ROUND_FLOOR' if name == 'floor' else 'ROUND_CEILING'))
	return function


def _difference(unit):
	def function(a, b):
		a, b = as_datetime(a), as_datetime(b)
		if a is None or b is None:
			return None
		seconds = (b - a).total_seconds()
		return int(seconds / Interval.UNITS[unit])  # toward zero
	return function


def _cast(kind):
	def function(value, *size):
		if value is None:
			return None
		if kind in ('date', 'datetime'):
			value = as_datetime(value)
			return value.date() if kind == 'date' else value
		if kind == 'char':
			return text_of(value)
		value = Decimal(to_number(value))
		return quantize(value, int(size[1]) if len(size) > 1 else 0) if kind == 'decimal' else int(quantize(value, 0))
	return function


def _round(value, places=0):
	return None if value is None or places is None else quantize(to_number(value), int(places))


NOT_NAMES = frozenset((
	'from where and or not group by order limit having on duplicate key update values set asc desc between in is like as for offset '
	'join left inner cross union case when then else end interval null true false select insert into delete replace distinct'
).split())


class Parser(object):
	def __init__(self, tokens, tables):
		self.tokens, self.tables, self.at, self.slot, self.table = tokens, tables, 0, 0, None
		self.alias = None
		self.labels = {}  # what HAVING can refer to
		self.outer = []  # (table, alias, frame) of the enclosing queries
		self.outer_refs = []  # the depth of each reference to one of them
		self.sub_tables = set()  # the tables its subqueries read

	# ---- token access
	def word(self, offset=0):
		if self.at + offset < len(self.tokens):
			kind, text = self.tokens[self.at + offset]
			if kind == 'id':
				return text.lower()
		return None

	def op(self, text):
		if self.at < len(self.tokens) and self.tokens[self.at] == ('op', text):
			self.at += 1
			return True
		return False

	def accept(self, *words):
		for i, w in enumerate(words):
			if self.word(i) != w:
				return False
		self.at += len(words)
		return True

	def need(self, *words):
		if not self.accept(*words):
			raise self.error()

	def need_op(self, text):
		if not self.op(text):
			raise self.error()

	def error(self):
		return syntax(' '.join(t[1] for t in self.tokens[self.at:self.at + 8]))

	def unsupported(self, what):
		return HarnessError('unsupported SQL (%s): %s' % (what, ' '.join(t[1] for t in self.tokens)[:300]))

	def name(self):
		if self.at < len(self.tokens):
			kind, text = self.tokens[self.at]
			if kind == 'name' or (kind == 'id' and text.lower() not in NOT_NAMES):
				self.at += 1
				return text
		raise self.error()

	def literal(self):
		kind, sub = self.tokens[self.at]
		node = Literal(self.slot, sub)
		self.slot += 1
		self.at += 1
		return node

	# ---- expressions
	def expression(self):
		left = self.conjunction()
		while self.accept('or') or self.op('||'):
			right = self.conjunction()

			def either(scope, a, b):
				x = truth(a.value(scope))
				if x:
					return 1
				y = truth(b.value(scope))
				return 1 if y else None if x is None or y is None else 0
			left = Lazy((left, right), INT, either)
		return left

	def conjunction(self):
		left = self.negation()
		while self.accept('and') or self.op('&&'):
			right = self.negation()

			def both(scope, a, b):
				x = truth(a.value(scope))
				if x is False:
					return 0
				y = truth(b.value(scope))
				return 0 if y is False else None if x is None or y is None else 1
			left = Lazy((left, right), INT, both)
		return left

	def negation(self):
		if self.accept('not') or self.op('!'):
			return Function((self.negation(),), INT, lambda a: None if a is None else int(not truth(a)))
		return self.predicate()

	def predicate(self):
		left = self.additive()
		while True:
			if self.accept('is'):
				negated = self.accept('not')
				if self.accept('null'):
					left = Function((left,), INT, lambda a, n=negated: int((a is None) != n))
				elif self.word() in ('true', 'false'):
					want = self.word() == 'true'
					self.at += 1
					left = Function((left,), INT, lambda a, n=negated, w=want: int((a is not None and truth(a) == w) != n))
				else:
					raise self.error()
				continue
			negated = self.word() == 'not' and self.word(1) in ('between', 'in', 'like')
			if negated:
				self.at += 1
			if self.accept('between'):
				low = self.additive()
				self.need('and')
				high = self.additive()

				def between(v, a, b):
					x, y = compare('>=', v, a), compare('<=', v, b)
					return 0 if x == 0 or y == 0 else None if x is None or y is None else 1
				node = Function((left, low, high), INT, between)
			elif self.accept('in'):
				self.need_op('(')
				if self.word() == 'select':
					node = Function((left, self.subquery('list')), INT, contained_in)
					left = Function((node,), INT, lambda a: None if a is None else 1 - a) if negated else node
					continue
				items = self.list()
				self.need_op(')')

				def contained(v, *given):
					results = [compare('=', v, g) for g in given]
					return 1 if 1 in results else None if None in results else 0
				node = Function((left,) + tuple(items), INT, contained)
			elif self.accept('like'):
				node = Function((left, self.additive()), INT, _like)
			else:
				for op in ('<=>', '<=', '>=', '<>', '!=', '=', '<', '>'):
					if self.op(op):
						right = self.additive()
						left = Function((left, right), INT, lambda a, b, o=op: compare(o, a, b))
						break
				else:
					return left
				continue
			left = Function((node,), INT, lambda a: None if a is None else 1 - a) if negated else node

	def additive(self):
		left = self.multiplicative()
		while True:
			for op in ('+', '-'):
				if self.op(op):
					right = self.interval() if self.word() == 'interval' else self.multiplicative()
					left = Function((left, right), arithmetic_type(op, left.type, right.type), lambda a, b, o=op: arithmetic(o, a, b))
					break
			else:
				return left

	def interval(self):
		self.need('interval')
		amount = self.expression()
		unit = self.name().lower()
		return Function((amount,), Type('interval'), lambda a: None if a is None else Interval(to_number(a), unit))

	def multiplicative(self):
		left = self.unary()
		while True:
			for op in ('*', '/', '%'):
				if self.op(op):
					right = self.unary()
					left = Function((left, right), arithmetic_type(op, left.type, right.type), lambda a, b, o=op: arithmetic(o, a, b))
					break
			else:
				return left

	def unary(self):
		if self.op('-'):
			node = self.unary()
			return Function((node,), node.type if node.type.kind == 'decimal' else INT, lambda a: None if a is None else -to_number(a))
		if self.op('+'):
			return self.unary()
		return self.primary()

	def list(self):
		items = [self.expression()]
		while self.op(','):
			items.append(self.expression())
		return items

	def primary(self):
		if self.at >= len(self.tokens):
			raise self.error()
		kind, text = self.tokens[self.at]
		if kind == 'lit':
			return self.literal()
		if self.op('('):
			if self.word() == 'select':
				return self.subquery('scalar')
			nodes = self.list()
			self.need_op(')')
			return nodes[0] if len(nodes) == 1 else Function(tuple(nodes), NULL, lambda *v: v)
		word = self.word()
		if word == 'null':
			self.at += 1
			return Constant(None, NULL)
		if word in ('true', 'false'):
			self.at += 1
			return Constant(int(word == 'true'))
		if word == 'exists':
			self.at += 1
			self.need_op('(')
			return self.subquery('exists')
		if word == 'case':
			return self.case()
		if word == 'interval':
			return self.interval()
		if word is not None and word.startswith('@@'):
			self.at += 1
			while self.op('.'):
				word += '.' + self.name().lower()
			return Constant(SYSTEM_VARIABLES.get(word.split('.')[-1].lstrip('@'), ''), STR)
		if word in ('date', 'timestamp', 'datetime', 'time') and self.at + 1 < len(self.tokens) and self.tokens[self.at + 1] == ('lit', 'str'):
			self.at += 1
			node = self.literal()
			if word == 'time':
				return Function((node,), TIME, parse_time)
			return Function((node,), DATETIME if word != 'date' else DATE, parse_datetime if word != 'date' else lambda s: parse_datetime(s).date())
		if word == 'values' and self.tokens[self.at + 1:self.at + 2] == (('op', '('),):
			self.at += 2
			node = Inserted(self.name(), self.table)
			self.need_op(')')
			return node
		if kind == 'id' and self.at + 1 < len(self.tokens) and self.tokens[self.at + 1] == ('op', '(') and word not in NOT_NAMES:
			return self.function()
		name, qualifier = self.name(), None
		while self.op('.'):
			if qualifier is not None and qualifier != DATABASE:
				raise self.error()
			qualifier, name = name.lower(), self.name()
		if qualifier == 'new' and self.inserting:
			return Inserted(name, self.table)
		return self.column(name, qualifier)

	def column(self, name, qualifier):
		try:
			return self.column_of(self.table, self.alias, name, qualifier)
		except SQLError as e:
			if qualifier is None and name.lower() in self.labels:
				return self.labels[name.lower()]
			for depth in reversed(range(len(self.outer))):
				table, alias, frame = self.outer[depth]
				try:
					node = OuterRef(self.column_of(table, alias, name, qualifier), frame)
				except SQLError:
					continue
				self.outer_refs.append(depth)
				return node
			raise e

	@staticmethod
	def column_of(table, alias, name, qualifier):
		if table is None:
			raise SQLError(1054, '42S22', "Unknown column '%s' in 'field list'" % name)
		if isinstance(table, Joined):
			return ColumnRef(name, table, qualifier)
		if qualifier not in (None, alias or table.name.lower()):
			raise SQLError(1054, '42S22', "Unknown table '%s'" % qualifier)
		return ColumnRef(name, table)

	def subquery(self, form, lateral=True):
		"""After its opening parenthesis; through the closing one."""
		frame, saved = [], (self.table, self.alias)
		depth = len(self.outer)
		self.outer.append((self.table, self.alias, frame) if lateral else (None, None, frame))
		known = len(self.outer_refs)
		self.table = self.alias = None
		select = Select(self, True)
		self.outer.pop()
		self.table, self.alias = saved
		self.need_op(')')
		correlated = any(d <= depth for d in self.outer_refs[known:])
		if form == 'table':
			return select
		return Subquery(select, frame, correlated, form)

	inserting = False

	def case(self):
		self.need('case')
		subject = None if self.word() == 'when' else self.expression()
		branches = []
		while self.accept('when'):
			test = self.expression()
			if subject is not None:
				test = Function((subject, test), INT, lambda a, b: compare('=', a, b))
			self.need('then')
			branches.append((test, self.expression()))
		default = self.expression() if self.accept('else') else Constant(None, NULL)
		self.need('end')
		nodes = tuple(n for b in branches for n in b) + (default,)

		def pick(scope, *_):
			for test, result in branches:
				if truth(test.value(scope)):
					return result.value(scope)
			return default.value(scope)
		return Lazy(nodes, merged_type([b[1].type for b in branches] + [default.type]), pick)

	def function(self):
		name = self.tokens[self.at][1].lower()
		self.at += 2
		if name in ('count', 'sum', 'avg', 'min', 'max'):
			distinct = self.accept('distinct')
			if name == 'count' and self.op('*'):
				argument = None
			else:
				argument = self.expression()
				if name == 'count' and isinstance(argument, Literal):
					argument = None  # a constant is never NULL
			self.need_op(')')
			return Aggregate(name, argument, distinct)
		if name == 'timestampdiff':
			unit = self.name().lower()
			self.need_op(',')
			arguments = tuple(self.list())
			self.need_op(')')
			if unit not in Interval.UNITS or len(arguments) != 2:
				raise self.unsupported('TIMESTAMPDIFF')
			return Function(arguments, INT, _difference(unit))
		if name == 'extract':
			unit = self.name().lower()
			self.need('from')
			argument = self.expression()
			self.need_op(')')
			if unit not in ('year', 'month', 'day', 'hour', 'minute', 'second'):
				raise self.unsupported('EXTRACT')
			return Function((argument,), INT, _part(unit))
		if name == 'cast':
			argument, size = self.expression(), ()
			self.need('as')
			kind = self.name().lower()
			if self.op('('):
				size = tuple(self.list())
				self.need_op(')')
			if kind in ('signed', 'unsigned'):
				self.accept('integer')
			self.need_op(')')
			types = {'decimal': decimal_type(10), 'signed': INT, 'unsigned': INT, 'char': STR, 'date': DATE, 'datetime': DATETIME}
			if kind not in types:
				raise self.unsupported('CAST')
			return Function((argument,) + size, types[kind], _cast(kind))
		arguments = () if self.op(')') else tuple(self.list())
		if arguments:
			self.need_op(')')
		types = [a.type for a in arguments]
		if name in ('coalesce', 'ifnull'):
			return Function(arguments, merged_type(types), lambda *v: next((x for x in v if x is not None), None))
		if name == 'if' and len(arguments) == 3:
			return Function(arguments, merged_type(types[1:]), lambda t, a, b: a if truth(t) else b)
		if name == 'nullif' and len(arguments) == 2:
			return Function(arguments, types[0], lambda a, b: None if compare('=', a, b) else a)
		if name in ('greatest', 'least'):
			return Function(arguments, merged_type(types), _extreme(name))
		if name == 'round' and len(arguments) == 1:
			return Function(arguments, decimal_type(0) if types[0].kind == 'decimal' else INT, _round)
		if name in ('round', 'truncate') and len(arguments) == 2:
			return Function(arguments, types[0], _round if name == 'round' else _truncate)
		if name in ('floor', 'ceil', 'ceiling') and len(arguments) == 1:
			return Function(arguments, INT, _whole(name))
		if name == 'mod' and len(arguments) == 2:
			return Function(arguments, arithmetic_type('%', types[0], types[1]), lambda a, b: arithmetic('%', a, b))
		if name == 'isnull' and len(arguments) == 1:
			return Function(arguments, INT, lambda a: int(a is None))
		if name == 'sign' and len(arguments) == 1:
			return Function(arguments, INT, lambda a: None if a is None else (to_number(a) > 0) - (to_number(a) < 0))
		if name == 'any_value' and len(arguments) == 1:
			return AnyValue(arguments, types[0], lambda a: a)
		if name == 'datediff' and len(arguments) == 2:
			return Function(arguments, INT, lambda a, b: None if as_datetime(a) is None or as_datetime(b) is None else (as_datetime(a).date() - as_datetime(b).date()).days)
		if name == 'abs':
			return Function(arguments, types[0], lambda a: None if a is None else abs(to_number(a)))
		if name == 'date':
			return Function(arguments, DATE, lambda d: None if as_datetime(d) is None else as_datetime(d).date())
		if name == 'time':
			return Function(arguments, TIME, lambda d: None if as_datetime(d) is None else as_datetime(d) - as_datetime(d).replace(hour=0, minute=0, second=0))
		if name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'dayofmonth'):
			return Function(arguments, INT, _part('day' if name == 'dayofmonth' else name))
		if name in ('week', 'yearweek') and len(arguments) == 2:
			def week(d, mode):
				if mode != 3:
					raise HarnessError('WEEK of mode %r' % (mode,))
				if as_datetime(d) is None:
					return None
				year, number, _ = as_datetime(d).isocalendar()
				return number if name == 'week' else 100 * year + number
			return Function(arguments, INT, week)
		if name == 'weekday':
			return Function(arguments, INT, lambda d: None if as_datetime(d) is None else as_datetime(d).weekday())
		if name == 'concat':
			return Function(arguments, STR, lambda *v: None if None in v else ''.join(text_of(x) for x in v))
		if name in ('lower', 'upper'):
			return Function(arguments, STR, lambda s: None if s is None else getattr(str(s), name)())
		if name in ('date_add', 'date_sub', 'adddate', 'subdate'):
			return Function(arguments, DATETIME, lambda a, b: arithmetic('+' if 'add' in name else '-', a, b))
		if name == 'last_insert_id' and len(arguments) == 1:
			return Remembered(arguments, INT, None)
		if name == 'last_insert_id' and not arguments:
			return Lazy((), INT, lambda scope: scope.literals[-1])
		if name in ('database', 'schema') and not arguments:
			return Constant(DATABASE, STR)
		if name == 'version' and not arguments:
			return Constant(SYSTEM_VARIABLES['version'], STR)
		if name == 'connection_id' and not arguments:
			return Constant(8)
		raise self.unsupported('function %s' % name)

	# ---- statements
	def find_table(self):
		name = self.name()
		if self.op('.'):
			if name.lower() != DATABASE:
				raise SQLError(1049, '42000', "Unknown database '%s'" % name)
			name = self.name()
		table = self.tables.get(name.lower())
		if table is None:
			raise SQLError(1146, '42S02', "Table '%s.%s' doesn't exist" % (DATABASE, name))
		self.table = table
		if self.outer:
			self.sub_tables.add(table.name.lower())
		return table.name.lower()

	def source(self):
		"""One table of a FROM clause: (alias, the table its columns are looked up in, what reads its rows)"""
		if self.op('('):
			if self.word() != 'select':
				raise self.unsupported('a nested FROM')
			before = set(self.sub_tables)
			select = self.subquery('table', lateral=False)
			if select.grouped or select.distinct or select.count is not None:
				self.sub_tables = before  # it is materialized, never merged into the statement around it
			self.accept('as')
			alias = self.name().lower()
			labels = [label for label, _ in zip([i[1] for i in select.items], select.items)]
			if len(set(label.lower() for label in labels)) != len(labels):
				raise SQLError(1060, '42S21', 'Duplicate column name')
			columns = [Column(label, node.type) for node, label in select.items]
			return alias, Table(alias, columns, -1, ()), lambda session, literals: select.run(session, literals)[1]
		name = self.find_table()
		table, alias = self.table, name
		if self.accept('as'):
			alias = self.name().lower()
		elif self.at < len(self.tokens) and self.tokens[self.at][0] in ('id', 'name') and self.word() not in NOT_NAMES and self.word() not in ('force', 'use', 'ignore'):
			alias = self.name().lower()
		if self.word() in ('force', 'use', 'ignore') and self.word(1) in ('index', 'key'):
			self.at += 2
			self.need_op('(')
			self.name()
			while self.op(','):
				self.name()
			self.need_op(')')
		return alias, table, lambda session, literals: list(session.read(name).rows.values())

	def join(self):
		"""'inner', 'left' or None"""
		if self.op(',') or self.accept('join') or self.accept('inner', 'join') or self.accept('cross', 'join'):
			return 'inner'
		if self.accept('left', 'join') or self.accept('left', 'outer', 'join'):
			return 'left'
		if self.word() in ('right', 'natural', 'straight_join'):
			raise self.unsupported('join')
		return None

	def order_by(self, aliases=()):
		result = []
		if self.accept('order', 'by'):
			while True:
				node = self.ordering(aliases)
				descending = self.accept('desc')
				if not descending:
					self.accept('asc')
				result.append((node, descending))
				if not self.op(','):
					break
		return result

	def ordering(self, aliases):
		kind, text = self.tokens[self.at] if self.at < len(self.tokens) else (None, None)
		if kind in ('id', 'name') and text.lower() in dict(aliases):
			follow = self.tokens[self.at + 1] if self.at + 1 < len(self.tokens) else None
			if follow is None or follow in (('op', ','), ('op', ';')) or (follow[0] == 'id' and follow[1].lower() in ('asc', 'desc', 'limit', 'for')):
				self.at += 1
				return dict(aliases)[text.lower()]
		if kind == 'lit' and text == 'int':
			follow = self.tokens[self.at + 1] if self.at + 1 < len(self.tokens) else None
			if follow is None or follow in (('op', ','), ('op', ';'), ('op', ')')) or (follow[0] == 'id' and follow[1].lower() in ('asc', 'desc', 'limit', 'for', 'having', 'order')):
				return Position(self.literal(), [node for _, node in aliases])
		return self.expression()

	def limit(self):
		if not self.accept('limit'):
			return None, None
		first = self.literal()
		if self.op(','):
			return self.literal(), first
		if self.accept('offset'):
			return first, self.literal()
		return first, None

	def finish(self):
		self.op(';')
		if self.at != len(self.tokens):
			if self.tokens[self.at - 1] == ('op', ';'):
				raise self.unsupported('several statements')
			raise self.error()


SYSTEM_VARIABLES = {'version': '8.0.36', 'sql_mode': 'STRICT_TRANS_TABLES', 'autocommit': '0', 'max_allowed_packet': '67108864'}
DATABASE = 'weather'


class Select(object):
	def __init__(self, p, nested=False):
		p.need('select')
		p.table = p.alias = None
		self.distinct = p.accept('distinct')
		start, slot = p.at, p.slot
		# The select list is parsed after FROM, where its columns get their types
		depth = 0
		while p.at < len(p.tokens):
			kind, text = p.tokens[p.at]
			if kind == 'op':
				depth += {'(': 1, ')': -1}.get(text, 0)
			if depth < 0 or (depth == 0 and (p.word() == 'from' or (kind, text) == ('op', ';'))):
				break
			if kind == 'lit':
				p.slot += 1
			p.at += 1
		self.sources = []  # (what reads its rows, how it is joined, the condition, its number of columns)
		resume = p.at, p.slot
		if p.accept('from'):
			p.table = p.alias = None
			parts = []
			how = 'inner'
			while how:
				saved, p.table, p.alias = (p.table, p.alias), None, None
				alias, table, read = p.source()
				if any(alias == a for a, _ in parts):
					raise SQLError(1066, '42000', "Not unique table/alias: '%s'" % alias)
				parts.append((alias, table))
				p.table, p.alias = (table, alias) if len(parts) == 1 else (Joined(parts[:]), None)
				on = None
				if len(parts) > 1 and p.accept('on'):
					on = p.expression()
				elif p.word() == 'using':
					raise p.unsupported('USING')
				self.sources.append((read, how, on, len(table.columns)))
				how = p.join()
			resume = p.at, p.slot
		p.at, p.slot = start, slot
		self.items = []
		while True:
			if p.op('*'):
				if p.table is None:
					raise p.error()
				for i, column in enumerate(p.table.columns):
					node = ColumnRef.__new__(ColumnRef)
					node.name, node.index, node.type = column.name, i, column.type
					self.items.append((node, column.name))
			elif p.table is not None and p.tokens[p.at + 1:p.at + 3] == (('op', '.'), ('op', '*')):
				qualifier = p.name().lower()
				p.at += 2
				parts = p.table.parts if isinstance(p.table, Joined) else [(p.alias or p.table.name.lower(), p.table)]
				found = [t for a, t in parts if a == qualifier]
				if not found:
					raise SQLError(1051, '42S02', "Unknown table '%s'" % qualifier)
				for column in found[0].columns:
					node = ColumnRef(column.name, p.table, qualifier) if isinstance(p.table, Joined) else ColumnRef(column.name, p.table)
					self.items.append((node, column.name))
			else:
				begin = p.at
				node = p.expression()
				label = ''.join(t[1] for t in p.tokens[begin:p.at])
				if p.accept('as'):
					label = p.name()
				elif p.at < len(p.tokens) and p.tokens[p.at][0] in ('id', 'name') and p.word() not in NOT_NAMES:
					label = p.name()
				elif isinstance(node, ColumnRef):
					label = node.name
				self.items.append((node, label))
			if not p.op(','):
				break
		if self.sources and p.word() != 'from':
			raise p.error()
		p.at, p.slot = resume
		aliases = [(label.lower(), node) for node, label in self.items]
		self.where = p.expression() if p.accept('where') else None
		self.group = []
		if p.accept('group', 'by'):
			while True:
				self.group.append(p.ordering(aliases))
				if not p.op(','):
					break
		p.labels = dict(aliases)
		self.having = p.expression() if p.accept('having') else None
		p.labels = {}
		self.order = p.order_by(aliases)
		self.count, self.offset = p.limit()
		if p.accept('for', 'update') or p.accept('lock', 'in', 'share', 'mode'):
			pass
		if p.word() == 'union':
			raise p.unsupported('union')
		if not nested:
			p.finish()
		nodes = [n for n, _ in self.items] + [n for n, _ in self.order] + ([self.having] if self.having else [])
		self.grouped = bool(self.group) or any(n.any(lambda x: x.aggregate) for n in nodes)
		if self.where is not None and self.where.any(lambda x: x.aggregate):
			raise SQLError(1111, 'HY000', 'Invalid use of group function')
		if self.grouped:
			keys = set(g.index for g in self.group if isinstance(g, ColumnRef))
			positions = any(isinstance(g, Position) for g in self.group)

			def bare(node):
				if node.aggregate or node in self.group or isinstance(node, AnyValue):
					return False
				if isinstance(node, ColumnRef):
					return node.index not in keys and p.table.primary not in keys  # all depend on the primary key
				return any(bare(c) for c in node.children())
			if not positions and any(bare(n) for n in nodes):
				raise SQLError(1055, '42000', 'Expression is not in GROUP BY clause and contains nonaggregated column (sql_mode=only_full_group_by)')

	def run(self, session, literals):
		scope = Scope(literals, session=session)
		candidates = [()]
		for number, (read, how, on, width) in enumerate(self.sources):
			others = read(session, literals)
			session.server.examined += len(others) * len(candidates)
			if number == 0:
				candidates = others
				continue
			joined = []
			for row in candidates:
				before = len(joined)
				for other in others:
					scope.row = row + other
					if on is None or truth(on.value(scope)):
						joined.append(scope.row)
				if how == 'left' and len(joined) == before:
					joined.append(row + (None,) * width)
			candidates = joined
		rows = []
		for row in candidates:
			scope.row = row
			if self.where is None or truth(self.where.value(scope)):
				rows.append(row)
		session.server.shuffle.shuffle(rows)
		results = []  # (sort keys, output)
		if self.grouped:
			groups = {}
			for row in rows:
				scope.row = row
				groups.setdefault(tuple(g.value(scope) for g in self.group), []).append(row)
			if not self.group and not groups:
				groups[()] = []
			for members in groups.values():
				scope.rows, scope.row = members, (members[0] if members else None)
				if self.having is not None and not truth(self.having.value(scope)):
					continue
				results.append(([n.value(scope) for n, _ in self.order], tuple(n.value(scope) for n, _ in self.items)))
		else:
			for row in rows:
				scope.row = row
				if self.having is not None and not truth(self.having.value(scope)):
					continue
				results.append(([n.value(scope) for n, _ in self.order], tuple(n.value(scope) for n, _ in self.items)))
		if self.distinct:
			seen, kept = set(), []
			for r in results:
				if r[1] not in seen:
					seen.add(r[1])
					kept.append(r)
			results = kept
		for i in reversed(range(len(self.order))):
			results.sort(key=lambda r: Sort(r[0][i]), reverse=self.order[i][1])
		start = self.offset.value(scope) if self.offset else 0
		stop = start + self.count.value(scope) if self.count else None
		return [(label, node.type) for node, label in self.items], [r[1] for r in results[start:stop]]


def new_row(table, columns, values):
	row = [None] * len(table.columns)
	given = set()
	for index, value in zip(columns, values):
		if index in given:
			raise SQLError(1110, '42000', "Column '%s' specified twice" % table.columns[index].name)
		given.add(index)
		row[index] = table.columns[index].store(value)
	for i, column in enumerate(table.columns):
		if column.auto:
			if not row[i]:
				row[i] = table.next_id[0]
			table.next_id[0] = max(table.next_id[0], row[i] + 1)
		elif i not in given and column.default is not None:
			row[i] = column.store(column.default)
		elif i not in given and not column.nullable:
			raise SQLError(1364, 'HY000', "Field '%s' doesn't have a default value" % column.name)
	return tuple(row)


class Insert(object):
	def __init__(self, p):
		self.replace = p.word() == 'replace'
		p.at += 1
		self.ignore = p.accept('ignore')
		p.accept('into')
		self.table = p.find_table()
		self.rows = []
		self.select = None
		if p.accept('set'):
			self.columns, values = [], []
			while True:
				self.columns.append(p.table.index(p.name()))
				p.need_op('=')
				values.append(p.expression())
				if not p.op(','):
					break
			self.rows.append(values)
		else:
			if p.op('('):
				self.columns = []
				if not p.op(')'):
					while True:
						self.columns.append(p.table.index(p.name()))
						if not p.op(','):
							break
					p.need_op(')')
			else:
				self.columns = list(range(len(p.table.columns)))
			if not (p.accept('values') or p.accept('value')):
				if p.word() != 'select':
					raise p.error()
				target, self.select = p.table, Select(p, True)
				p.table, p.alias = target, None
				if len(self.select.items) != len(self.columns):
					raise SQLError(1136, '21S01', "Column count doesn't match value count at row 1")
			while self.select is None:
				p.need_op('(')
				values = [] if p.op(')') else p.list()
				if values:
					p.need_op(')')
				self.rows.append(values)
				if not p.op(','):
					break
		if p.accept('as'):
			p.name()
		self.updates = None
		if p.accept('on', 'duplicate', 'key', 'update'):
			p.inserting = True
			self.updates = assignments(p)
		p.finish()

	def run(self, session, literals):
		table = session.write(self.table)
		affected, last = 0, 0
		if self.select is not None:
			rows = [[Constant(v) for v in row] for row in self.select.run(session, literals)[1]]
		else:
			rows = self.rows
		for values in rows:
			if len(values) != len(self.columns):
				raise SQLError(1136, '21S01', "Column count doesn't match value count at row 1")
			scope = Scope(literals, session=session)
			try:
				row = new_row(table, self.columns, [v.value(scope) for v in values])
			except SQLError:
				if self.ignore:
					raise HarnessError('INSERT IGNORE of an invalid value')
				raise
			found = table.conflict(row)
			if found is None:
				table.put(row)
				affected, last = affected + 1, row[table.primary]
				continue
			if self.replace:
				while found is not None:
					table.remove(table.rows[found[0]])
					found = table.conflict(row)
				table.put(row)
				affected, last = affected + 2, row[table.primary]
			elif self.updates is not None:
				old = table.rows[found[0]]
				changed = apply(session, table, old, self.updates, literals, row)
				if changed != old:
					replace(table, old, changed)
				affected, last = affected + (2 if changed != old else 1), old[table.primary]
			elif not self.ignore:
				raise SQLError(1062, '23000', "Duplicate entry for key '%s.%s'" % (table.name, found[1]))
		return affected, last


def assignments(p):
	result = []
	while True:
		name = p.name()
		if p.op('.'):
			name = p.name()
		index = p.table.index(name)
		p.need_op('=')
		result.append((index, p.expression()))
		if not p.op(','):
			return result


def apply(session, table, old, updates, literals, inserted=None):
	row = list(old)
	for index, node in updates:
		# MySQL evaluates assignments from left to right, each seeing the earlier ones
		row[index] = table.columns[index].store(node.value(Scope(literals, row=tuple(row), inserted=inserted, session=session)))
	return tuple(row)


def replace(table, old, row):
	found = table.conflict(row, but=old[table.primary])
	if found is not None:
		raise SQLError(1062, '23000', "Duplicate entry for key '%s.%s'" % (table.name, found[1]))
	table.put(row, old)


def not_target(p, name):
	if p.sub_tables and name in p.sub_tables:
		raise SQLError(1093, 'HY000', "You can't specify target table '%s' for update in FROM clause" % name)


def limited(statement, scope, rows):
	if statement.count is None and not statement.order:
		return rows
	rows = list(rows)
	keys = {}
	for row in rows:
		scope.row = row
		keys[row] = [n.value(scope) for n, _ in statement.order]
	scope.session.server.shuffle.shuffle(rows)
	for i in reversed(range(len(statement.order))):
		rows.sort(key=lambda r: Sort(keys[r][i]), reverse=statement.order[i][1])
	return rows if statement.count is None else rows[:statement.count.value(scope)]


class Update(object):
	def __init__(self, p):
		p.need('update')
		self.table = p.find_table()
		if p.accept('as') or p.word() != 'set':
			p.alias = p.name().lower()
		p.need('set')
		self.updates = assignments(p)
		self.where = p.expression() if p.accept('where') else None
		self.order, (self.count, offset) = p.order_by(), p.limit()
		if offset is not None:
			raise p.error()
		p.finish()
		not_target(p, self.table)

	def run(self, session, literals):
		table = session.write(self.table)
		scope = Scope(literals, session=session)
		chosen = []
		for row in table.rows.values():
			scope.row = row
			if self.where is None or truth(self.where.value(scope)):
				chosen.append(row)
		for old in limited(self, scope, chosen):
			row = apply(session, table, old, self.updates, literals)
			if row != old:
				replace(table, old, row)
		return len(chosen), 0


class Delete(object):
	def __init__(self, p):
		p.need('delete', 'from')
		self.table = p.find_table()
		self.where = p.expression() if p.accept('where') else None
		self.order, (self.count, offset) = p.order_by(), p.limit()
		if offset is not None:
			raise p.error()
		p.finish()
		not_target(p, self.table)

	def run(self, session, literals):
		table = session.write(self.table)
		scope = Scope(literals, session=session)
		chosen = []
		for row in table.rows.values():
			scope.row = row
			if self.where is None or truth(self.where.value(scope)):
				chosen.append(row)
		chosen = limited(self, scope, chosen)
		for row in chosen:
			table.remove(row)
		return len(chosen), 0


STATEMENTS = {'select': Select, 'insert': Insert, 'replace': Insert, 'update': Update, 'delete': Delete}


class Engine(object):
	"""The committed state of one database."""
	def __init__(self, tables, seed):
		self.tables = tables
		self.shuffle = random.Random('shuffle:%s' % seed)
		self.plans = {}
		self.examined = 0
		self.log = []  # (session, kind, statement)

	def table(self, name):
		return self.tables[name.lower()]

	def insert(self, name, rows):
		"""Commit rows (mappings) directly, on behalf of the workload."""
		table = self.tables[name.lower()].copy()
		for values in rows:
			row = new_row(table, [table.index(n) for n in values], list(values.values()))
			if table.conflict(row):
				raise HarnessError('the workload inserted a duplicate')
			table.put(row)
		self.tables[name.lower()] = table

	def amend(self, name, change):
		"""Commit changes directly, on behalf of the workload: change(row) returns the row as it is to be, or None for no row."""
		table = self.tables[name.lower()].copy()
		for key in sorted(table.rows):
			old = table.rows[key]
			values = change(dict(zip(table.names, old)))
			table.remove(old)
			if values is not None:
				table.put(new_row(table, [table.index(n) for n in values], list(values.values())))
		self.tables[name.lower()] = table

	def dump(self):
		return dict((n, t.as_dicts()) for n, t in self.tables.items())


class Session(object):
	def __init__(self, server):
		self.server = server
		self.autocommit = True
		self.snapshot = None
		self.written = {}
		self.explicit = False
		self.last_id = 0

	def read(self, name):
		if name in self.written:
			return self.written[name]
		if self.snapshot is None:
			self.snapshot = dict(self.server.tables)
		return self.snapshot[name]

	def write(self, name):
		if name not in self.written:
			if self.snapshot is None:
				self.snapshot = dict(self.server.tables)
			self.written[name] = self.server.tables[name].copy()
			self.base = getattr(self, 'base', {})
			self.base[name] = self.server.tables[name]
		return self.written[name]

	@property
	def dirty(self):
		return bool(self.written)

	def commit(self):
		for name, table in self.written.items():
			if self.server.tables[name] is not self.base[name]:
				raise HarnessError('concurrent writers of one table')
			self.server.tables[name] = table
		self.end()

	def end(self):
		self.snapshot, self.written, self.explicit, self.base = None, {}, False, {}

	rollback = end

	def execute(self, sql):
		"""('rows', columns, rows) or ('ok', affected, insert id)"""
		tokens, literals = tokenize(sql)
		plan = self.server.plans.get(tokens)
		if plan is None:
			p = Parser(tokens, self.server.tables)
			word = p.word()
			if word in STATEMENTS:
				plan = STATEMENTS[word](p)
			else:
				plan = self.control(p, word)
			self.server.plans[tokens] = plan
		if isinstance(plan, tuple):
			return self.run_control(plan, literals)
		saved = dict((n, t.copy()) for n, t in self.written.items()) if not isinstance(plan, Select) else None
		self.remembered = None
		try:
			result = plan.run(self, literals + [self.last_id])
		except SQLError:
			if saved is not None:
				self.written = saved  # a failed statement has no effect
			raise
		if not isinstance(plan, Select):
			if self.remembered is not None:
				result = result[0], self.remembered
			if result[1]:
				self.last_id = result[1]
			result = ('ok',) + result
		else:
			result = ('rows',) + result
		if self.autocommit and not self.explicit:
			self.commit()
		return result

	def control(self, p, word):
		if word == 'set':
			return ('set', tuple(t[1].lower() for t in p.tokens), tuple(p.tokens))
		if word in ('commit', 'rollback', 'begin') or (word == 'start' and p.word(1) == 'transaction'):
			return (word,)
		if word in ('create', 'drop', 'alter', 'truncate', 'show', 'lock', 'unlock', 'call', 'with', 'explain', 'describe', 'use', 'analyze', 'savepoint', 'release'):
			raise HarnessError('unsupported statement %s' % word)
		raise p.error()

	def run_control(self, plan, literals):
		if plan[0] == 'set':
			words = [w.replace('@@session.', '').replace('@@', '') for w in plan[1]]
			if 'autocommit' in words:
				given = words[-1] if words[-1] != ';' else words[-2]
				if given in ('int', 'str'):
					given = str(literals[-1]).lower()
				self.autocommit = given in ('1', 'on', 'true')
				if self.autocommit and self.dirty:
					self.commit()
		elif plan[0] == 'commit':
			self.commit()
		elif plan[0] == 'rollback':
			self.rollback()
		else:
			self.commit()
			self.explicit = True
		return 'ok', 0, 0

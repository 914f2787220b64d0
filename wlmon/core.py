"""Monitor core: events, oracle comparisons, verdicts.  A case is a small JSON value that replays deterministically."""
import hashlib
import json
import random
import traceback


class HarnessError(Exception):
	"""The machinery itself could not decide (never a violation)."""


class Violation(Exception):
	def __init__(self, message, details=None):
		super(Violation, self).__init__(message)
		self.message = message
		self.details = details or {}


class Missing(object):
	def __repr__(self):
		return '<missing>'

	def __bool__(self):
		return False


MISSING = Missing()


def short(value, limit=400):
	try:
		text = repr(value)
	except Exception as e:
		text = '<unreprable %s: %s>' % (type(value).__name__, e)
	return text if len(text) <= limit else text[:limit] + '...(%d chars)' % len(text)


class Outcome(object):
	"""What a call into the code under test did: returned a value or raised an exception."""
	def __init__(self, value=None, exception=None):
		self.value = value
		self.exception = exception

	@property
	def ok(self):
		return self.exception is None

	def __repr__(self):
		if self.exception is None:
			return 'returned ' + short(self.value)
		return 'raised %s: %s' % (type(self.exception).__name__, short(str(self.exception)))


class Monitor(object):
	MAX_DISTINCT = 200000

	def __init__(self, check_id, tier, seed):
		self.check_id = check_id
		self.tier = tier
		self.seed = seed
		self.events = {}
		self.distinct = {}
		self.keys = set()
		self.comparisons = 0
		self.cases = 0
		self.samples = []
		self.case = None

	# ---- what the monitors observed
	def event(self, name, n=1):
		self.events[name] = self.events.get(name, 0) + n

	def seen(self, kind, key):
		s = self.distinct.setdefault(kind, set())
		if len(s) < self.MAX_DISTINCT:
			s.add(key if isinstance(key, (int, str)) else repr(key))

	def nontrivial(self, key):
		"""The current case is non-trivial; `key` is what makes it distinct."""
		if len(self.keys) < self.MAX_DISTINCT:
			if not isinstance(key, bytes):
				key = repr(key).encode('utf-8', 'replace')
			self.keys.add(hashlib.md5(key).hexdigest()[:16])

	def sample(self, value):
		if len(self.samples) < 3:
			self.samples.append(value)

	# ---- oracle
	def fail(self, message, **details):
		raise Violation(message, dict((k, short(v, 1500)) for k, v in details.items()))

	def check(self, condition, message, **details):
		self.comparisons += 1
		if not condition:
			self.fail(message, **details)

	def equal(self, actual, expected, message, **details):
		self.comparisons += 1
		if not same(actual, expected):
			self.fail(message, actual=actual, expected=expected, **details)

	def call(self, function, *args, **kwargs):
		"""Call into the code under test, capturing any exception."""
		try:
			return Outcome(value=function(*args, **kwargs))
		except HarnessError:
			raise
		except Violation:
			raise
		except BaseException as e:
			if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
				raise
			return Outcome(exception=e)

	def returns(self, message, function, *args, **kwargs):
		"""Call into the code under test; an exception is a violation."""
		outcome = self.call(function, *args, **kwargs)
		self.comparisons += 1
		if not outcome.ok:
			e = outcome.exception
			tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
			raise Violation('%s: unexpected %s: %s' % (message, type(e).__name__, short(str(e))), {'traceback': tb})
		return outcome.value


def same(a, b):
	"""Equality that separates missing from present (None is not 0) and survives odd types."""
	if a is None or b is None:
		return a is b
	try:
		return bool(a == b)
	except Exception:
		return False


def rng_for(*parts):
	return random.Random(':'.join(str(p) for p in parts))


class Check(object):
	"""One property's check.  Subclasses yield cases and run each one under the monitor."""
	id = None
	level = 'exploration'
	rule = ''
	required = ()  # events without which the run decided nothing
	assumptions = ()
	exhaustive = False
	patience = 1  # how much longer than usual a case may take

	def cases(self, tier, seed):
		raise NotImplementedError

	def run(self, case, m):
		raise NotImplementedError

	def seeded(self, tier, seed, kind, quick, thorough, **extra):
		for i in range(thorough if tier == 'thorough' else quick):
			case = {'kind': kind, 'seed': '%s/%s/%s/%d' % (self.id, seed, kind, i)}
			case.update(extra)
			yield case


def jsonable(value):
	return json.loads(json.dumps(value, default=lambda o: short(o)))

"""Comparing decoded records with the readings their raw bytes stand for."""
from decimal import Decimal
from fractions import Fraction

from wlmon.core import MISSING, same


def get(record, key):
	try:
		if key not in record:
			return MISSING
		return record[key]
	except Exception:
		return MISSING


def name_of(value):
	"""A direction, trend or collector by name."""
	if value is None or value is MISSING:
		return value
	return getattr(value, 'name', value)


def numeric(value):
	return isinstance(value, (int, Decimal, Fraction)) and not isinstance(value, bool)


def check_readings(m, record, expected, what, tolerance=None, **details):
	"""Every expected reading is present, exact (never a binary float) and None exactly when the sensor was dashed."""
	for key in sorted(expected):
		want = expected[key]
		got = get(record, key)
		m.comparisons += 1
		if isinstance(want, str):
			if name_of(got) != want:
				m.fail('%s: %s decoded wrongly' % (what, key), got=got, expected=want, **details)
		elif want is None:
			if got is not None:
				m.fail('%s: %s should be missing' % (what, key), got=got, **details)
		elif isinstance(want, float):
			if isinstance(got, bool) or not same(got, want):
				m.fail('%s: %s decoded wrongly' % (what, key), got=got, expected=want, **details)
		elif isinstance(want, (int, Decimal, Fraction)) and not isinstance(want, bool):
			if not numeric(got):
				m.fail('%s: %s is not an exact number' % (what, key), got=got, expected=want, **details)
			if (Fraction(got) != want) if isinstance(want, Fraction) else (got != want):
				m.fail('%s: %s decoded wrongly' % (what, key), got=got, expected=want, **details)
		elif not same(got, want):
			m.fail('%s: %s decoded wrongly' % (what, key), got=got, expected=want, **details)

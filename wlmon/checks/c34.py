"""Rain collector conversions."""
from decimal import Decimal as D
from fractions import Fraction

from wlmon import core, wire

SERIAL = {'inches_0_01': (0x00, 'in', '0.01'), 'millimeters_0_2': (0x10, 'cm', '0.02'), 'millimeters_0_1': (0x20, 'cm', '0.01')}
DATABASE = {
	'inches_0_1': (0x0000, 'in', '0.1'), 'inches_0_01': (0x1000, 'in', '0.01'), 'millimeters_0_2': (0x2000, 'cm', '0.02'),
	'millimeters_1_0': (0x3000, 'cm', '0.1'), 'millimeters_0_1': (0x6000, 'cm', '0.01'),
}
INCH_PER_CM = Fraction('0.393701')


class CHECK(core.Check):
	id = 'C34'
	rule = 'Each of the eight collectors by click counts 0 to 4095 (thorough: 65535), as integers and decimals. Non-trivial: a distinct block.'
	required = ('inches', 'centimeters', 'decimal_clicks', 'collector')

	def cases(self, tier, seed):
		for kind, table in (('RainCollectorTypeSerial', SERIAL), ('RainCollectorTypeDatabase', DATABASE)):
			yield {'kind': 'members', 'enum': kind}
			for name in sorted(table):
				for start in range(0, 65536 if tier == 'thorough' else 4096, 512):
					yield {'kind': 'block', 'enum': kind, 'name': name, 'start': start}

	def run(self, case, m):
		import weatherlink.models as models
		enum = getattr(models, case['enum'])
		table = SERIAL if case['enum'].endswith('Serial') else DATABASE
		if case['kind'] == 'members':
			m.equal(dict((c.name, c.value) for c in enum), dict((k, v[0]) for k, v in table.items()), 'collectors')
			for name, (value, _, _) in table.items():
				m.check(enum(value) is enum[name], 'collector code', name=name)
				m.event('collector')
			m.nontrivial(case['enum'])
			return
		collector = enum[case['name']]
		_, unit, size = table[case['name']]
		for clicks in range(case['start'], case['start'] + 512):
			amount = Fraction(size) * clicks
			inches = amount if unit == 'in' else amount * INCH_PER_CM
			centimeters = amount if unit == 'cm' else amount / INCH_PER_CM
			for given in (clicks, D(clicks)) if clicks % 8 == 0 else (clicks,):
				for what, want in (('inches', inches), ('centimeters', centimeters)):
					got = m.returns('clicks_to_' + what, getattr(collector, 'clicks_to_' + what), given)
					m.check(isinstance(got, D) and abs(Fraction(got) - want) <= want / 10 ** 20, 'wrong ' + what,
							collector=case['name'], clicks=given, got=got, expected=float(want))
					m.event(what)
				if isinstance(given, D):
					m.event('decimal_clicks')
		m.nontrivial((case['enum'], case['name'], case['start']))
		m.sample(dict(case))

"""P08: numeric."""
import struct as _struct
from decimal import Decimal as _Decimal
BOUNDS = ('numbers of 1 to 5 digits with exponents -10 to 8, some of 6, 8 and 9 digits (thorough: 1 to 12 digits, exponents -20 to 20) and some far ones (to -16383 and 131068), every digit and sign; received '
	'numerics of 0 to 3 (thorough: 4) base-10000 digits, every digit value and sign, weights -4 to 4 and scales from those that just cover the digits to 4 beyond')
OUTSIDE = 'longer digit strings; conversion of text and floats to Decimal before encoding'
REACH = ('pack', 'unpack', 'zero', 'trip', 'integer', 'nan', 'infinity', 'leading zeros')


def decimals_of(digits, exponent):
	"""{power of ten: digit}"""
	n = len(digits)
	return {exponent + n - 1 - i: d for i, d in enumerate(digits)}


def check_wire(sx, data, sign, digits, exponent):
	sx.check(len(data) >= 8 and len(data) % 2 == 0, 'numeric data of a wrong size')
	n, weight, s, dscale = _struct.unpack('!hhHh', data[:8])
	sx.check(n * 2 == len(data) - 8, 'the digit count does not match the digits')
	sx.check(dscale == (-exponent if exponent < 0 else 0), 'wrong display scale')
	zero = sx.all(*[d == 0 for d in digits])
	# a zero may be sent with either sign
	sx.check(sx.any(s == sign * 0x4000, sx.all(zero, s == 0)), 'wrong sign')
	got = _struct.unpack('!%dh' % ((len(data) - 8) // 2,), data[8:])
	want = decimals_of(digits, exponent)
	used = set(e // 4 for e in want)
	for i, g in enumerate(got):
		w = weight - i
		x = 0
		for k in range(4):
			x = x + want.get(4 * w + k, 0) * 10 ** k
		sx.check(g == x, 'wrong base-10000 digit')
		used.discard(w)
	for w in used:
		for k in range(4):
			sx.check(want.get(4 * w + k, 0) == 0, 'digits of the number are not sent')


def same_number(sx, t, sign, digits, exponent, label):
	sx.check(t[2] == exponent, label + ': wrong number of fractional digits')
	want = decimals_of(digits, exponent)
	got = decimals_of(t[1], t[2])
	zero = sx.all(*[d == 0 for d in digits])
	sx.check(sx.all(*[got.get(e, 0) == want.get(e, 0) for e in set(want) | set(got)]), label + ': wrong digits')
	sx.check(sx.any(t[0] == sign, zero), label + ': wrong sign')


def pack(sx, nd, exponent):
	from postgresql.types.io import stdlib_decimal as m
	sign = sx.int('sign', 0, 1)
	digits = tuple(sx.int('d%d' % i, 0, 9) for i in range(nd))
	if nd > 1:
		sx.assume(digits[0] != 0)
	x = _Decimal((sign, digits, exponent))
	data = m.numeric_pack(x)
	sx.observe('data', data)
	check_wire(sx, data, sign, digits, exponent)
	sx.reach('pack')
	if nd == 1 and exponent == 0:
		sx.reach('zero')
	if abs(exponent) < 100:
		t = m.numeric_unpack(data).as_tuple()
		if exponent > 0:
			same_number(sx, t, sign, digits + (0,) * exponent, 0, 'trip')
		else:
			same_number(sx, t, sign, digits, exponent, 'trip')
		sx.reach('trip')


def integer(sx, lo, hi):
	from postgresql.types.io import stdlib_decimal as m
	v = sx.int('v', lo, hi)
	data = m.numeric_pack(v)
	n, weight, s, dscale = _struct.unpack('!hhHh', data[:8])
	sx.check(sx.any(s == sx.ite(v < 0, 0x4000, 0), v == 0), 'wrong sign')
	sx.check(dscale == 0, 'wrong display scale')
	a = 0
	got = _struct.unpack('!%dh' % ((len(data) - 8) // 2,), data[8:])
	for i, g in enumerate(got):
		sx.check(sx.all(g >= 0, g <= 9999), 'digit out of range')
		if weight >= i:
			a = a + g * 10000 ** (weight - i)
		else:
			sx.check(g == 0, 'an integer was sent with a fraction')
	sx.check(a == sx.ite(v < 0, -v, v), 'wrong integer sent')
	sx.reach('integer')


def unpack(sx, n, weight, dscale):
	from postgresql.types.io import stdlib_decimal as m
	sign = sx.int('sign', 0, 1)
	ds = [sx.int('d%d' % i, 0, 9999) for i in range(n)]
	want = {}
	for i, d in enumerate(ds):
		q = d
		for k in range(4):
			e = 4 * (weight - i) + k
			q, x = divmod(q, 10)
			if e < -dscale:
				# a server never sends digits beyond the scale
				sx.assume(x == 0)
			want[e] = x
	data = _struct.pack('!hh', n, weight) + _struct.pack('!H', sign * 0x4000) + _struct.pack('!h', dscale) + b''.join(
		[_struct.pack('!h', d) for d in ds])
	x = m.numeric_unpack(data)
	sx.observe('x', x)
	t = x.as_tuple()
	sx.check(t[2] == -dscale, 'wrong number of fractional digits')
	got = decimals_of(t[1], t[2])
	zero = sx.all(*[d == 0 for d in ds])
	sx.check(sx.all(*[got.get(e, 0) == want.get(e, 0) for e in set(want) | set(got)]), 'received numeric misread')
	sx.check(sx.any(t[0] == sign, zero), 'wrong sign read')
	sx.reach('unpack')
	if n > 1:
		sx.reach('leading zeros')


def special(sx):
	from postgresql.types.io import stdlib_decimal as m
	nan = _struct.pack('!hhHh', 0, 0, 0xC000, 0)
	text = sx.choose('text', ['NaN', '-NaN', 'sNaN', 'NaN42'])
	try:
		data = m.numeric_pack(_Decimal(text))
	except ValueError:
		sx.check(text != 'NaN', 'NaN refused')
	else:
		sx.check(data == nan, 'NaN sent as something else')
	x = m.numeric_unpack(nan)
	sx.check(isinstance(x, _Decimal) and x.is_nan(), 'NaN read as something else')
	sx.reach('nan')


def infinity(sx):
	from postgresql.types.io import stdlib_decimal as m
	neg = sx.choose('neg', 2)
	want = _struct.pack('!hhHh', 0, 0, 0xF000 if neg else 0xD000, 0)
	try:
		data = m.numeric_pack(_Decimal('-Infinity' if neg else 'Infinity'))
	except ValueError:
		pass
	else:
		sx.check(data == want, 'infinity sent as something else')
	try:
		x = m.numeric_unpack(want)
	except ValueError:
		pass
	else:
		sx.check(x == _Decimal('-Infinity' if neg else 'Infinity'), 'infinity read as something else')
	sx.reach('infinity')


def tasks(tier):
	big = tier != 'quick'
	r = [dict(fn='special', params={}), dict(fn='infinity', params={})]
	if big:
		shapes = [(nd, e) for nd in range(1, 13) for e in range(-20, 21)]
	else:
		shapes = [(nd, e) for nd in range(1, 6) for e in range(-10, 9)] + [(6, e) for e in (-9, -6, -5, -3, 0, 3)] + [(8, -5), (8, 2), (9, -6)]
	for nd, e in shapes:
		r.append(dict(fn='pack', params=dict(nd=nd, exponent=e), weight=nd, validate=3))
	for nd in (1, 3, 6):
		for e in (-16383, -16381, -1000, -999, -103, 100, 101, 102, 999, 131060, 131061):
			r.append(dict(fn='pack', params=dict(nd=nd, exponent=e), validate=3))
	for lo, hi in ((-12, 12), (-20005, -9990), (9990, 10010), (99999990, 100000010), (0, 10 ** 5)):
		r.append(dict(fn='integer', params=dict(lo=lo, hi=hi), validate=6, weight=9))
	for n in range(0, 4 if not big else 5):
		for weight in range(-4, 5):
			if n == 0 and weight:
				continue
			if n == 3 and not big and weight not in (-3, -1, 0, 1, 3):
				continue
			need = max(0, (n - weight - 1) * 4) if n else 0
			lo = max(0, need - 3)
			for dscale in range(lo, need + 5) if n < 3 or big else sorted({lo, lo + 1, need + 1}):
				r.append(dict(fn='unpack', params=dict(n=n, weight=weight, dscale=dscale), weight=4 ** n, validate=4))
	return r

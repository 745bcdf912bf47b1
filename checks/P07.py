"""P07: integer, boolean and floating point conversions."""
import struct as _struct
BOUNDS = ('2, 4 and 8 byte integers, signed and unsigned: every integer of magnitude up to 2**72; data of 0 to 10 bytes, every '
	'value; each combined layout of the type I/O library with every field symbolic; every bit pattern of float4 and float8')
OUTSIDE = 'integers beyond 2**72; arguments that are not integers'
REACH = ('packed', 'refused', 'unpacked', 'too short', 'floats', 'combined', 'typed', 'boolean')
INTS = {'short': (2, True), 'ushort': (2, False), 'long': (4, True), 'ulong': (4, False), 'longlong': (8, True),
	'ulonglong': (8, False)}
ERRORS = (ValueError, OverflowError, _struct.error, TypeError)


def be(v, size):
	"""big endian two's complement of v"""
	if v < 0:
		v = v + (1 << (8 * size))
	return bytes([(v >> (8 * (size - 1 - i))) & 0xFF for i in range(size)])


def value(b, signed):
	v = 0
	for x in b:
		v = v * 256 + x
	if signed and b[0] >= 128:
		v = v - (1 << (8 * len(b)))
	return v


def one_pack(sx, pack, unpack, size, signed, v):
	lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
	try:
		d = pack(v)
	except ERRORS:
		sx.check(sx.any(v < lo, v > hi), 'an integer in range was refused')
		sx.reach('refused')
		return
	sx.check(sx.all(lo <= v, v <= hi), 'an integer out of range was accepted')
	sx.observe('d', d)
	sx.check(sx.same(bytes(d), be(v, size)), 'not the big-endian representation')
	sx.check(sx.same(unpack(d), v), 'does not decode to itself')
	sx.reach('packed')


def pack(sx, name):
	from postgresql.python import structlib as L
	size, signed = INTS[name]
	v = sx.int('v', -(1 << 72), 1 << 72)
	one_pack(sx, getattr(L, name + '_pack'), getattr(L, name + '_unpack'), size, signed, v)


def one_unpack(sx, unpack, size, signed, b):
	try:
		v = unpack(b)
	except ERRORS:
		sx.check(len(b) < size, 'data of sufficient length refused')
		sx.reach('too short')
		return
	sx.check(len(b) >= size, 'short data accepted')
	sx.observe('v', v)
	sx.check(sx.same(v, value(b[:size], signed)), 'decodes to another integer')
	sx.reach('unpacked')


def unpack(sx, name, n, kind):
	from postgresql.python import structlib as L
	size, signed = INTS[name]
	b = sx.bytes('b', n)
	if kind == 'memoryview':
		one_unpack(sx, lambda x: getattr(L, name + '_unpack')(memoryview(x)), size, signed, b)
	else:
		one_unpack(sx, getattr(L, name + '_unpack'), size, signed, b)


CNAMES = {'short': 'int2', 'ushort': 'uint2', 'long': 'int4', 'ulong': 'uint4', 'longlong': 'int8', 'ulonglong': 'uint8'}


def c_routines(sx, name, swap):
	m = sx.optimized()
	n = ('swap_' if swap else '') + CNAMES[name]
	return getattr(m, n + '_pack'), getattr(m, n + '_unpack')


def c_pack(sx, name, swap, impl):
	p, u = c_routines(sx, name, swap)
	size, signed = INTS[name]
	v = sx.int('v', -(1 << 72), 1 << 72)
	if not swap:
		# the byte order of the machine
		p1, u1 = p, u
		p, u = (lambda x: p1(x)[::-1]), (lambda d: u1(d[::-1]))
	one_pack(sx, p, u, size, signed, v)


def c_unpack(sx, name, swap, n, kind, impl):
	u1 = c_routines(sx, name, swap)[1]
	size, signed = INTS[name]
	b = sx.bytes('b', n)

	def u(d):
		if not swap:
			d = d[:size][::-1] + d[size:]
		return u1(memoryview(d) if kind == 'memoryview' else d)
	one_unpack(sx, u, size, signed, b)


def c_other(sx, name, what, impl):
	"""arguments that are no integers, or no data"""
	p, u = c_routines(sx, name, True)
	for f, bad in ((p, (None, 'x', 1.5, b'12', ())), (u, (None, 'x', 7, ()))):
		try:
			f(bad[what])
		except TypeError:
			sx.reach('refused')
			continue
		except IndexError:
			continue
		sx.fail('accepted')


def typed(sx, oid, n):
	"""the routines the driver uses for int2, int4, int8, oid"""
	from postgresql.types.io import builtins, pg_system
	import postgresql.types as T
	tab = dict(builtins.oid_to_io)
	size, signed = {'INT2OID': (2, True), 'INT4OID': (4, True), 'INT8OID': (8, True)}[oid]
	p, u, t = tab[getattr(T, oid)]
	sx.check(t is int, 'not an int')
	if n is None:
		one_pack(sx, p, u, size, signed, sx.int('v', -(1 << 66), 1 << 66))
	else:
		one_unpack(sx, u, size, signed, sx.bytes('b', n))
	sx.reach('typed')


def boolean(sx, n):
	from postgresql.types.io import builtins
	import postgresql.types as T
	p, u, t = builtins.oid_to_io[T.BOOLOID]
	v = sx.bool('v')
	d = p(v)
	sx.check(sx.same(d, b'\x01') if v else sx.same(d, b'\x00'), 'boolean encoded wrongly')
	sx.check(u(d) is (True if v else False), 'boolean does not decode to itself')
	b = sx.bytes('b', n)
	try:
		r = u(b)
	except (KeyError, ValueError):
		sx.check(sx.neg(sx.any(b == b'\x00', b == b'\x01')), 'valid boolean refused')
		return
	sx.check(sx.same(b, b'\x01' if r else b'\x00'), 'invalid boolean accepted')
	sx.reach('boolean')


def floats(sx, name, n, extra):
	from postgresql.python import structlib as L
	b = sx.bytes('b', n + extra)
	w = {'float': 4, 'double': 8, 'dd': 16, 'ddd': 24, 'dddd': 32}[name]
	p, u = getattr(L, name + '_pack'), getattr(L, name + '_unpack')
	try:
		v = u(b)
	except ERRORS:
		sx.check(len(b) < w, 'data of sufficient length refused')
		return
	sx.check(len(b) >= w, 'short data accepted')
	if name == 'float':
		# NaN payloads may change in the conversion to double
		sx.assume(sx.neg(sx.all((b[0] & 0x7F) == 0x7F, b[1] >= 0x80)))
	sx.check(sx.same(bytes(p(v)), b[:w]), 'floating point bits changed')
	sx.reach('floats')


LAYOUTS = {'LH': 'LH', 'lH': 'lH', 'llL': 'llL', 'qll': 'qll', 'ql': 'ql', 'hhhh': 'hhhh', 'dll': 'dll', 'dl': 'dl'}
SIZES = {'L': (4, False), 'l': (4, True), 'H': (2, False), 'h': (2, True), 'q': (8, True)}


def combined(sx, name, slack):
	from postgresql.python import structlib as L
	p, u = getattr(L, name + '_pack'), getattr(L, name + '_unpack')
	vals, want, ok = [], b'', True
	for i, c in enumerate(LAYOUTS[name]):
		if c == 'd':
			raw = sx.bytes('f%d' % i, 8)
			vals.append(L.double_unpack(raw))
			want = want + raw
			continue
		size, signed = SIZES[c]
		lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
		v = sx.int('v%d' % i, lo - slack, hi + slack)
		vals.append(v)
		if lo <= v and v <= hi:
			want = want + be(v, size)
		else:
			ok = False
	try:
		d = p(tuple(vals))
	except ERRORS:
		sx.check(not ok, 'values in range were refused')
		sx.reach('refused')
		return
	sx.check(ok, 'a value out of range was accepted')
	sx.check(sx.same(bytes(d), want), 'not the defined layout')
	sx.check(sx.same(list(u(d)), vals) if 'd' not in name else sx.same(bytes(p(u(d))), want), 'does not decode to itself')
	sx.reach('combined')


def aliases(sx, name, c, n):
	"""the names the type I/O modules import"""
	from postgresql.types.io import lib as L
	size, signed = SIZES[c]
	if n is None:
		one_pack(sx, getattr(L, name + '_pack'), getattr(L, name + '_unpack'), size, signed, sx.int('v', -(1 << 66), 1 << 66))
	else:
		one_unpack(sx, getattr(L, name + '_unpack'), size, signed, sx.bytes('b', n))


def tasks(tier):
	r = []
	for name, (size, s) in INTS.items():
		r.append(dict(fn='pack', params=dict(name=name), weight=9))
		for n in range(0, size + 3):
			r.append(dict(fn='unpack', params=dict(name=name, n=n, kind='bytes'), validate=6))
		for n in (size - 1, size, size + 1):
			r.append(dict(fn='unpack', params=dict(name=name, n=n, kind='memoryview'), validate=6))
		for swap in (1, 0):
			r.append(dict(fn='c_pack', params=dict(name=name, swap=swap, impl='c'), weight=9))
			for n in range(0, size + 3):
				r.append(dict(fn='c_unpack', params=dict(name=name, swap=swap, n=n, kind='bytes', impl='c'), validate=6))
			for n in (size - 1, size, size + 1):
				r.append(dict(fn='c_unpack', params=dict(name=name, swap=swap, n=n, kind='memoryview', impl='c'), validate=6))
		for what in range(4):
			r.append(dict(fn='c_other', params=dict(name=name, what=what, impl='c')))
	for oid, size in (('INT2OID', 2), ('INT4OID', 4), ('INT8OID', 8)):
		for n in (None, size - 1, size):
			r.append(dict(fn='typed', params=dict(oid=oid, n=n), weight=5))
	for n in (0, 1, 2):
		r.append(dict(fn='boolean', params=dict(n=n)))
	for name, w in (('float', 4), ('double', 8), ('dd', 16), ('ddd', 24), ('dddd', 32)):
		for n in (w, w - 1, w // 2):
			r.append(dict(fn='floats', params=dict(name=name, n=n, extra=0)))
		r.append(dict(fn='floats', params=dict(name=name, n=w, extra=3)))
	for name in LAYOUTS:
		for slack in (0, 1, 1 << 33):
			r.append(dict(fn='combined', params=dict(name=name, slack=slack), weight=4))
	for name, c in (('oid', 'L'), ('cid', 'L'), ('xid', 'L'), ('date', 'l')):
		for n in (None, 3, 4, 5):
			r.append(dict(fn='aliases', params=dict(name=name, c=c, n=n)))
	return r

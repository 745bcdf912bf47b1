"""struct.pack / unpack on symbolic values."""
import struct
from . import core, reals
from .values import (SymInt, SymBytes, SymFloat, SymBool, is_sym, intlike, int_to_bytes_be,
	bytes_to_int_be, sand, SymSeq)

__sx_transformed__ = True

INT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
	'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), 'n': (8, True), 'N': (8, False)}
NATIVE = dict(INT, l=(8, True), L=(8, False))

_cache = {}


def parse(fmt):
	if is_sym(fmt):
		fmt = fmt_concrete(fmt)
	if isinstance(fmt, bytes):
		fmt = fmt.decode('ascii')
	r = _cache.get(fmt)
	if r is not None:
		return r
	order = '@'
	s = fmt
	if s[:1] in '@=<>!':
		order = s[0] if s else '@'
		s = s[1:]
	big = order in '>!'
	native = order == '@'
	tab = NATIVE if native else INT
	out = []
	i = 0
	while i < len(s):
		if s[i].isspace():
			i += 1
			continue
		j = i
		while j < len(s) and s[j].isdigit():
			j += 1
		cnt = int(s[i:j]) if j > i else None
		if j >= len(s):
			raise struct.error('repeat count given without format specifier')
		c = s[j]
		i = j + 1
		if c in 's':
			out.append(('s', 1 if cnt is None else cnt))
		elif c == 'p':
			core.E.unsupported('struct p')
		elif c == 'x':
			out.append(('x', 1 if cnt is None else cnt))
		elif c == 'c':
			out.extend([('c', 1)] * (1 if cnt is None else cnt))
		elif c == '?':
			out.extend([('?', 1)] * (1 if cnt is None else cnt))
		elif c in 'fd':
			out.extend([(c, 4 if c == 'f' else 8)] * (1 if cnt is None else cnt))
		elif c in tab:
			out.extend([(c,) + tab[c]] * (1 if cnt is None else cnt))
		else:
			raise struct.error('bad char in struct format')
	if native and len(set(x[1] for x in out)) > 1:
		if struct.calcsize(fmt) != sum(x[1] for x in out):
			core.E.unsupported('native struct alignment')
	r = _cache[fmt] = (big, out, struct.calcsize(fmt))
	return r


def fmt_concrete(f):
	if isinstance(f, SymSeq):
		if f.is_concrete():
			return f.native()
	core.E.unsupported('symbolic struct format')


def pack(fmt, *args):
	big, items, size = parse(fmt)
	need = sum(1 for x in items if x[0] != 'x')
	if need != len(args):
		raise struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
	out = []
	ai = 0
	for it in items:
		c = it[0]
		if c == 'x':
			out.extend([0] * it[1])
			continue
		a = args[ai]
		ai += 1
		if c == 's':
			if not isinstance(a, (bytes, bytearray)):
				raise struct.error("argument for 's' must be a bytes object")
			b = list(SymBytes._coerce(a))[:it[1]]
			out.extend(b + [0] * (it[1] - len(b)))
		elif c == 'c':
			if not isinstance(a, (bytes, bytearray)) or len(a) != 1:
				raise struct.error('char format requires a bytes object of length 1')
			out.extend(SymBytes._coerce(a))
		elif c == '?':
			if type(a) is SymBool:
				out.append(a._i())
			else:
				out.append(1 if a else 0)
		elif c in 'fd':
			if type(a) is SymFloat:
				if a.fmt != c:
					core.E.unsupported('float width conversion')
				b = list(a.items)
				out.extend(b if big else b[::-1])
			elif type(a) is reals.SymReal or (core.E.mode == 'int' and c == 'd' and type(a) is SymInt):
				if c != 'd':
					core.E.unsupported('float width conversion')
				b = reals.to_bytes(reals.SymReal.of(a))
				out.extend(b if big else b[::-1])
			elif is_sym(a):
				if isinstance(a, int):
					a = int(a)
					b = struct.pack('>' + c, a)
					out.extend(b if big else b[::-1])
				else:
					raise struct.error('required argument is not a float')
			else:
				b = struct.pack('>' + c, a)
				out.extend(b if big else b[::-1])
		else:
			n, signed = it[1], it[2]
			if isinstance(a, float):
				raise struct.error('required argument is not an integer')
			v = intlike(a)
			if v is None:
				if hasattr(a, '__index__') and not is_sym(a):
					v = a.__index__()
				else:
					raise struct.error('required argument is not an integer')
			lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
			if not sand(v >= lo, v <= hi):
				raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
			if type(v) is SymInt:
				v = SymInt.make(v.e, max(v.lo, lo), min(v.hi, hi))
			b = int_to_bytes_be(v, n)
			out.extend(b if big else b[::-1])
	return SymBytes(out)


def unpack_items(fmt, data):
	big, items, size = parse(fmt)
	if len(data) != size:
		raise struct.error('unpack requires a buffer of %d bytes' % size)
	out = []
	i = 0
	for it in items:
		c = it[0]
		n = it[1]
		b = data[i:i + n]
		i += n
		if c == 'x':
			continue
		if c in 'sc':
			out.append(SymBytes(b))
		elif c == '?':
			out.append(b[0] != 0)
		elif c in 'fd':
			bb = b if big else b[::-1]
			if all(type(x) is int for x in bb):
				out.append(struct.unpack('>' + c, bytes(bb))[0])
			else:
				v = reals.from_bytes(bb) if c == 'd' else None
				out.append(SymFloat(bb, c) if v is None else v)
		else:
			out.append(bytes_to_int_be(b if big else b[::-1], it[2]))
	return tuple(out)


def unpack(fmt, data):
	b = SymBytes._coerce(data)
	if b is None:
		raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
	return unpack_items(fmt, b)


def unpack_from(fmt, data, offset=0):
	b = SymBytes._coerce(data)
	size = parse(fmt)[2]
	offset = int(offset)
	if offset < 0:
		offset += len(b)
	if len(b) - offset < size:
		raise struct.error('unpack_from requires a buffer of at least %d bytes' % size)
	return unpack_items(fmt, b[offset:offset + size])


def iter_unpack(fmt, data):
	b = SymBytes._coerce(data)
	size = parse(fmt)[2]
	if not size or len(b) % size:
		raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
	for i in range(0, len(b), size):
		yield unpack_items(fmt, b[i:i + size])

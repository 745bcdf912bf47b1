"""Symbolic proxies: SymBool, SymInt, SymFloat, SymBytes, SymStr."""
import sys
import unicodedata
import z3
from . import core
from .core import SxUnsupported

__sx_transformed__ = True


class Sym:
	__slots__ = ()
	__hash__ = None

	def __hash__(self):
		core.E.unsupported('hash of a symbolic %s' % self.__class__.__name__)

	def __reduce_ex__(self, proto):
		core.E.unsupported('pickling/copying a symbolic value')


def is_sym(x):
	return isinstance(type(x), type) and issubclass(type(x), Sym)


# ---------------------------------------------------------------- booleans

def as_zbool(x):
	"""z3 Bool of a bool-like value (no fork)."""
	t = type(x)
	if t is SymBool:
		return x.e
	if t is bool:
		return z3.BoolVal(x)
	if t is SymInt:
		return x.e != x._k(0)
	return z3.BoolVal(bool(x))


def mkbool(e):
	e = z3.simplify(e)
	if z3.is_true(e):
		return True
	if z3.is_false(e):
		return False
	return SymBool(e)


class SymBool(Sym):
	__slots__ = ('e',)

	def __init__(self, e):
		self.e = e

	@property
	def __class__(self):
		return bool

	def __bool__(self):
		return core.E.branch(self.e)

	def _i(self):
		return SymInt.ite(self.e, 1, 0)

	def __and__(self, o):
		if isinstance(o, bool):
			return mkbool(z3.And(self.e, as_zbool(o)))
		return self._i() & o
	__rand__ = __and__

	def __or__(self, o):
		if isinstance(o, bool):
			return mkbool(z3.Or(self.e, as_zbool(o)))
		return self._i() | o
	__ror__ = __or__

	def __xor__(self, o):
		if isinstance(o, bool):
			return mkbool(z3.Xor(self.e, as_zbool(o)))
		return self._i() ^ o
	__rxor__ = __xor__

	def __eq__(self, o):
		if isinstance(o, bool):
			return mkbool(self.e == as_zbool(o))
		if isinstance(o, int):
			return self._i() == o
		return NotImplemented

	def __ne__(self, o):
		r = self.__eq__(o)
		if r is NotImplemented:
			return r
		return snot(r)

	__hash__ = Sym.__hash__

	def __int__(self):
		return int(bool(self))
	__index__ = __int__

	def __add__(self, o):
		return self._i() + o
	__radd__ = __add__

	def __sub__(self, o):
		return self._i() - o

	def __rsub__(self, o):
		return o - self._i()

	def __mul__(self, o):
		return self._i() * o
	__rmul__ = __mul__

	def __neg__(self):
		return -self._i()

	def __invert__(self):
		return ~self._i()

	def __lt__(self, o):
		return self._i() < o

	def __le__(self, o):
		return self._i() <= o

	def __gt__(self, o):
		return self._i() > o

	def __ge__(self, o):
		return self._i() >= o

	def __repr__(self):
		return '<SymBool>'


def snot(x):
	if type(x) is SymBool:
		return mkbool(z3.Not(x.e))
	return not x


def sand(*xs):
	"""Conjunction without forking."""
	es = []
	for x in xs:
		if type(x) is SymBool:
			es.append(x.e)
		elif not x:
			return False
	if not es:
		return True
	return mkbool(z3.And(*es))


def sor(*xs):
	es = []
	for x in xs:
		if type(x) is SymBool:
			es.append(x.e)
		elif x:
			return True
	if not es:
		return False
	return mkbool(z3.Or(*es))


# ---------------------------------------------------------------- integers

def width_for(lo, hi):
	"""bits of a two's complement number holding lo..hi"""
	a = lo.bit_length() if lo >= 0 else (-lo - 1).bit_length()
	b = hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()
	return max(a, b) + 1


def _bvfit(e, w):
	s = e.size()
	if s == w:
		return e
	if s < w:
		return z3.SignExt(w - s, e)
	return z3.Extract(w - 1, 0, e)


class SymInt(Sym):
	__slots__ = ('e', 'lo', 'hi')

	def __init__(self, e, lo, hi):
		self.e = e
		self.lo = lo
		self.hi = hi

	@property
	def __class__(self):
		return int

	# construction -----------------------------------------------------
	@staticmethod
	def make(e, lo, hi):
		if lo == hi:
			return lo
		if z3.is_bv(e):
			e = _bvfit(e, width_for(lo, hi))
		return SymInt(e, lo, hi)

	@staticmethod
	def var(name, lo, hi):
		"""A fresh variable in lo..hi (assumed)."""
		if lo == hi:
			return lo
		E = core.E
		if E.mode == 'bv':
			w = width_for(lo, hi)
			if lo >= 0:
				e0 = z3.BitVec(name, w - 1)
				e = z3.ZeroExt(1, e0)
				r = SymInt(e, lo, hi)
				if lo != 0:
					E.assume(z3.UGE(e0, lo))
				if hi != (1 << (w - 1)) - 1:
					E.assume(z3.ULE(e0, hi))
			else:
				e = z3.BitVec(name, w)
				r = SymInt(e, lo, hi)
				if lo != -(1 << (w - 1)):
					E.assume(e >= lo)
				if hi != (1 << (w - 1)) - 1:
					E.assume(e <= hi)
			return r
		e = z3.Int(name)
		E.assume(z3.And(e >= lo, e <= hi))
		return SymInt(e, lo, hi)

	@staticmethod
	def ite(c, a, b):
		"""c: z3 Bool; a, b int-like"""
		al, ah = bounds(a)
		bl, bh = bounds(b)
		lo, hi = min(al, bl), max(ah, bh)
		if core.E.mode == 'bv':
			w = width_for(lo, hi)
			return SymInt.make(z3.If(c, tobv(a, w), tobv(b, w)), lo, hi)
		return SymInt.make(z3.If(c, tozi(a), tozi(b)), lo, hi)

	def _k(self, v):
		if z3.is_bv(self.e):
			return z3.BitVecVal(v, self.e.size())
		return z3.IntVal(v)

	# concretization ---------------------------------------------------
	def concrete(self):
		bv = z3.is_bv(self.e)
		return core.E.concretize(self.e, (lambda v: v.as_signed_long()) if bv else (lambda v: v.as_long()))

	def __index__(self):
		return self.concrete()

	def __int__(self):
		return self.concrete()

	def __bool__(self):
		return core.E.branch(self.e != self._k(0))

	def __float__(self):
		core.E.unsupported('float() of a symbolic int')

	# arithmetic -------------------------------------------------------
	def _bin(self, o, f, lo, hi):
		if lo == hi:
			return lo
		if core.E.mode == 'bv':
			w = width_for(lo, hi)
			al, ah = self.lo, self.hi
			ol, oh = bounds(o)
			w = max(w, width_for(al, ah), width_for(ol, oh))
			if w > 1024:
				core.E.unsupported('integer wider than 1024 bits')
			return SymInt.make(f(tobv(self, w), tobv(o, w)), lo, hi)
		return SymInt.make(f(self.e, tozi(o)), lo, hi)

	def __add__(self, o):
		if type(o) is float:
			return sym_float_op('add', self, o)
		o = intlike(o)
		if o is None:
			return NotImplemented
		l, h = bounds(o)
		return self._bin(o, lambda a, b: a + b, self.lo + l, self.hi + h)
	__radd__ = __add__

	def __sub__(self, o):
		if type(o) is float:
			return sym_float_op('sub', self, o)
		o = intlike(o)
		if o is None:
			return NotImplemented
		l, h = bounds(o)
		return self._bin(o, lambda a, b: a - b, self.lo - h, self.hi - l)

	def __rsub__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		l, h = bounds(o)
		return self._bin(o, lambda a, b: b - a, l - self.hi, h - self.lo)

	def __mul__(self, o):
		t = type(o)
		if isinstance(o, (str, bytes, list, tuple, bytearray)):
			return seq_repeat(o, self)
		if isinstance(o, float):
			return sym_float_op('mul', self, o)
		o = intlike(o)
		if o is None:
			return NotImplemented
		l, h = bounds(o)
		c = [self.lo * l, self.lo * h, self.hi * l, self.hi * h]
		return self._bin(o, lambda a, b: a * b, min(c), max(c))
	__rmul__ = __mul__

	def __neg__(self):
		return 0 - self

	def __pos__(self):
		return self

	def __abs__(self):
		if self.lo >= 0:
			return self
		neg = -self
		hi = max(abs(self.lo), abs(self.hi))
		r = SymInt.ite((self < 0).e if type(self < 0) is SymBool else z3.BoolVal(self < 0), neg, self)
		if type(r) is SymInt:
			return SymInt.make(r.e, 0, hi)
		return r

	def __floordiv__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return int_divmod(self, o)[0]

	def __mod__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return int_divmod(self, o)[1]

	def __divmod__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return int_divmod(self, o)

	def __rfloordiv__(self, o):
		return int_divmod(o, self)[0]

	def __rmod__(self, o):
		if isinstance(o, (str, bytes)):
			return NotImplemented
		return int_divmod(o, self)[1]

	def __rdivmod__(self, o):
		return int_divmod(o, self)

	def __truediv__(self, o):
		return sym_float_op('truediv', self, o)

	def __rtruediv__(self, o):
		return sym_float_op('truediv', o, self)

	def __pow__(self, o, m=None):
		if type(o) is int and m is None and 0 <= o <= 8:
			r = 1
			for _ in range(o):
				r = self * r
			return r
		return int(self).__pow__(int(o))

	def __rpow__(self, o):
		return o ** self.concrete()

	# bits -------------------------------------------------------------
	def __lshift__(self, o):
		if is_sym(o):
			o = int(o)
		if o < 0:
			raise ValueError('negative shift count')
		return self * (1 << o)

	def __rlshift__(self, o):
		return o << self.concrete()

	def __rshift__(self, o):
		if is_sym(o):
			o = int(o)
		if o < 0:
			raise ValueError('negative shift count')
		if core.E.mode == 'bv':
			lo, hi = self.lo >> o, self.hi >> o
			w = self.e.size()
			if o >= w:
				o = w - 1
			return SymInt.make(self.e >> o, lo, hi)
		return int_divmod(self, 1 << o)[0]

	def __rrshift__(self, o):
		return o >> self.concrete()

	def _bits(self, o, f, kind):
		ol, oh = bounds(o)
		if core.E.mode != 'bv':
			r = self._bits_int(o, kind)
			if r is not None:
				return r
			return bits_via_bv(self, o, f, kind)
		w = max(width_for(self.lo, self.hi), width_for(ol, oh))
		e = f(tobv(self, w), tobv(o, w))
		lo, hi = bit_bounds(kind, self.lo, self.hi, ol, oh, w)
		return SymInt.make(e, lo, hi)

	def _bits_int(self, o, kind):
		if kind == 'and' and type(o) is int and o >= 0:
			if o == 0:
				return 0
			s = (o & -o).bit_length() - 1
			m = o >> s
			if m & (m + 1) == 0:
				# contiguous mask
				x = int_divmod(self, 1 << s)[0] if s else self
				x = int_divmod(x, m + 1)[1]
				return x * (1 << s) if s else x
		return None

	def __and__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return self._bits(o, lambda a, b: a & b, 'and')
	__rand__ = __and__

	def __or__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return self._bits(o, lambda a, b: a | b, 'or')
	__ror__ = __or__

	def __xor__(self, o):
		o = intlike(o)
		if o is None:
			return NotImplemented
		return self._bits(o, lambda a, b: a ^ b, 'xor')
	__rxor__ = __xor__

	def __invert__(self):
		return -1 - self

	# comparison -------------------------------------------------------
	def _cmp(self, o, name):
		if isinstance(o, float):
			if type(o) is float:
				import math
				if o == math.inf:
					return name in ('lt', 'le', 'ne')
				if o == -math.inf:
					return name in ('gt', 'ge', 'ne')
				if o.is_integer():
					o = int(o)
		o2 = intlike(o)
		if o2 is None:
			return NotImplemented
		o = o2
		ol, oh = bounds(o)
		# decide by bounds when possible
		if name == 'eq' and (self.hi < ol or oh < self.lo):
			return False
		if name == 'ne' and (self.hi < ol or oh < self.lo):
			return True
		if name == 'lt':
			if self.hi < ol:
				return True
			if self.lo >= oh:
				return False
		if name == 'le':
			if self.hi <= ol:
				return True
			if self.lo > oh:
				return False
		if name == 'gt':
			if self.lo > oh:
				return True
			if self.hi <= ol:
				return False
		if name == 'ge':
			if self.lo >= oh:
				return True
			if self.hi < ol:
				return False
		if core.E.mode == 'bv':
			w = max(width_for(self.lo, self.hi), width_for(ol, oh))
			a, b = tobv(self, w), tobv(o, w)
		else:
			a, b = self.e, tozi(o)
		if name == 'eq':
			e = a == b
		elif name == 'ne':
			e = a != b
		elif name == 'lt':
			e = a < b
		elif name == 'le':
			e = a <= b
		elif name == 'gt':
			e = a > b
		else:
			e = a >= b
		return mkbool(e)

	def __eq__(self, o):
		return self._cmp(o, 'eq')

	def __ne__(self, o):
		return self._cmp(o, 'ne')

	__hash__ = Sym.__hash__

	def __lt__(self, o):
		return self._cmp(o, 'lt')

	def __le__(self, o):
		return self._cmp(o, 'le')

	def __gt__(self, o):
		return self._cmp(o, 'gt')

	def __ge__(self, o):
		return self._cmp(o, 'ge')

	# misc -------------------------------------------------------------
	def bit_length(self):
		x = abs(self)
		n = 0
		while x != 0:
			x = x >> 1
			n += 1
		return n

	def to_bytes(self, length=1, byteorder='big', *, signed=False):
		length = int(length)
		if signed:
			ok = sand(self >= -(1 << (8 * length - 1)), self < (1 << (8 * length - 1))) if length else self == 0
		else:
			if self < 0:
				raise OverflowError("can't convert negative int to unsigned")
			ok = self < (1 << (8 * length))
		if not ok:
			raise OverflowError('int too big to convert')
		items = int_to_bytes_be(self, length)
		if byteorder == 'little':
			items.reverse()
		return SymBytes(items)

	def __round__(self, n=None):
		return self

	def __trunc__(self):
		return self

	def __floor__(self):
		return self

	def __ceil__(self):
		return self

	def conjugate(self):
		return self

	def is_integer(self):
		return True

	@property
	def real(self):
		return self

	@property
	def imag(self):
		return 0

	@property
	def numerator(self):
		return self

	@property
	def denominator(self):
		return 1

	def __repr__(self):
		return '<SymInt>'

	def __str__(self):
		return '<SymInt>'

	def __format__(self, spec):
		return '<SymInt>'


def intlike(o):
	t = type(o)
	if t is int or t is SymInt:
		return o
	if t is bool:
		return int(o)
	if t is SymBool:
		return o._i()
	if isinstance(o, int) and not is_sym(o):
		return int(o)
	return None


def bounds(o):
	if type(o) is SymInt:
		return o.lo, o.hi
	return o, o


def tobv(o, w):
	if type(o) is SymInt:
		return _bvfit(o.e, w)
	return z3.BitVecVal(o, w)


def tozi(o):
	if type(o) is SymInt:
		return o.e
	return z3.IntVal(o)


def bit_bounds(kind, al, ah, bl, bh, w):
	if kind == 'and':
		if al >= 0 and bl >= 0:
			return 0, min(ah, bh)
		if al >= 0:
			return 0, ah
		if bl >= 0:
			return 0, bh
	elif al >= 0 and bl >= 0:
		return 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1
	return -(1 << (w - 1)), (1 << (w - 1)) - 1


def bits_via_bv(a, o, f, kind):
	"""Int mode: general bit operation through bounded bit decomposition."""
	al, ah = bounds(a)
	bl, bh = bounds(o)
	w = max(width_for(al, ah), width_for(bl, bh))
	if w > 70:
		core.E.unsupported('bit operation on wide integers in int mode')
	x = z3.Int2BV(tozi(a), w)
	y = z3.Int2BV(tozi(o), w)
	r = f(x, y)
	lo, hi = bit_bounds(kind, al, ah, bl, bh, w)
	return SymInt.make(z3.BV2Int(r, is_signed=lo < 0), lo, hi)


def int_divmod(a, b):
	"""Python floor division and remainder."""
	if type(b) is SymInt:
		if b == 0:
			raise ZeroDivisionError('integer division or modulo by zero')
		if b.hi - b.lo > 4096 and not core.E.few(b.e, 64):
			core.E.unsupported('division by a symbolic integer')
		b = int(b)
	b = intlike(b)
	if b == 0:
		raise ZeroDivisionError('integer division or modulo by zero')
	a = intlike(a)
	if type(a) is int:
		return divmod(a, b)
	if b < 0:
		q, r = int_divmod(-a, -b)
		return q, -r
	if b == 1:
		return a, 0
	qlo, qhi = a.lo // b, a.hi // b
	if qlo == qhi:
		return qlo, a - qlo * b
	if qhi - qlo <= 3:
		q = qlo
		for j in range(qlo + 1, qhi + 1):
			q = SymInt.ite(as_zbool(a >= j * b), j, q)
		r = a - q * b
		return q, SymInt.make(r.e, 0, b - 1) if type(r) is SymInt else r
	if core.E.mode == 'bv':
		w = max(width_for(a.lo, a.hi), width_for(0, b)) + 1
		x = tobv(a, w)
		k = z3.BitVecVal(b, w)
		if b & (b - 1) == 0:
			s = b.bit_length() - 1
			q = x >> s
			r = x & z3.BitVecVal(b - 1, w)
		elif a.lo >= 0:
			q = z3.UDiv(x, k)
			r = z3.URem(x, k)
		else:
			r0 = z3.SRem(x, k)
			r = z3.If(r0 < 0, r0 + k, r0)
			q = (x - r) / k
	else:
		E = core.E
		key = (str(a.e), b)
		qr = E.divs.get(key)
		if qr is None:
			q, r = z3.Int(E.fresh_name('quo')), z3.Int(E.fresh_name('rem'))
			E.divs[key] = q, r
			E.assume(z3.And(a.e == q * b + r, r >= 0, r < b))
		else:
			q, r = qr
	rlo, rhi = 0, b - 1
	return SymInt.make(q, qlo, qhi), SymInt.make(r, rlo, rhi)


def int_to_bytes_be(v, n):
	"""n big-endian byte items of v modulo 2**(8n)."""
	v = intlike(v)
	if type(v) is int:
		return list((v % (1 << (8 * n))).to_bytes(n, 'big'))
	if core.E.mode == 'bv':
		x = tobv(v, max(8 * n, 1))
		out = []
		for i in range(n - 1, -1, -1):
			out.append(byte_item(z3.Extract(8 * i + 7, 8 * i, x)))
		return out
	# the value modulo 2**(8n), written as a sum of fresh bytes: linear
	E = core.E
	bs = []
	for i in range(n):
		b = SymInt.var(E.fresh_name('pb'), 0, 255)
		E.byte_of[str(b.e)] = (v, i, n)
		bs.append(b)
	tot = 0
	for b in bs:
		tot = tot * 256 + b
	if v.lo >= 0 and v.hi < (1 << (8 * n)):
		E.assume(tozi(tot) == v.e)
	elif v.lo >= -(1 << (8 * n)) and v.hi < (1 << (8 * n)):
		E.assume(tozi(tot) == z3.If(v.e < 0, v.e + (1 << (8 * n)), v.e))
	else:
		E.assume(tozi(tot) == v.e % (1 << (8 * n)))
	return bs


def byte_item(bv8):
	bv8 = z3.simplify(bv8)
	if z3.is_bv_value(bv8):
		return bv8.as_long()
	return SymInt(z3.ZeroExt(1, bv8), 0, 255)


def whole_value(items, n):
	"""the integer all of whose bytes these are, if they are the bytes of one"""
	v = None
	for i, b in enumerate(items):
		r = core.E.byte_of.get(str(b.e)) if type(b) is SymInt else None
		if r is None or r[1] != i or r[2] != n or (v is not None and r[0] is not v):
			return None
		v = r[0]
	return v


def bytes_to_int_be(items, signed):
	n = len(items)
	if n == 0:
		return 0
	if all(type(x) is int for x in items):
		return int.from_bytes(bytes(items), 'big', signed=signed)
	if core.E.mode == 'bv':
		parts = [tobv(x, 9) for x in items]
		parts = [z3.Extract(7, 0, p) for p in parts]
		e = z3.Concat(*parts) if n > 1 else parts[0]
		e = z3.simplify(e)
		if signed:
			return SymInt(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
		return SymInt(z3.ZeroExt(1, e), 0, (1 << (8 * n)) - 1)
	v = whole_value(items, n)
	if v is not None:
		if not signed and v.lo >= 0 and v.hi < 1 << (8 * n):
			return v
		if signed and v.lo >= -(1 << (8 * n - 1)) and v.hi < 1 << (8 * n - 1):
			return v
	tot = 0
	for b in items:
		tot = tot * 256 + b
	if not signed:
		return tot
	half = 1 << (8 * n - 1)
	if type(tot) is int:
		return tot - (1 << (8 * n)) if tot >= half else tot
	return SymInt.make(z3.If(tot.e >= half, tot.e - (1 << (8 * n)), tot.e), -half, half - 1)


# ---------------------------------------------------------------- floats

class SymFloat(Sym):
	"""A float known only by its bits (64 bit pattern as byte items)."""
	__slots__ = ('items', 'fmt')

	def __init__(self, items, fmt):
		self.items = tuple(items)
		self.fmt = fmt

	@property
	def __class__(self):
		return float

	__hash__ = Sym.__hash__

	def key(self):
		"""(an integer ordered as the numbers are, is it a number)"""
		n = 63 if self.fmt == 'd' else 31
		b = bytes_to_int_be(self.items, False)
		inf = 0x7ff << 52 if self.fmt == 'd' else 0xff << 23
		neg = self.items[0] >= 128
		mag = b % (1 << n)
		k = SymInt.ite(as_zbool(neg), -mag, mag) if type(neg) is SymBool else (-mag if neg else mag)
		return k, mag <= inf

	def _cmp(self, o, f):
		if type(o) is not SymFloat:
			if isinstance(o, (int, float)) and not is_sym(o) and abs(o) < 1 << 53:
				import struct
				o = SymFloat(struct.pack('>' + self.fmt, o), self.fmt)
			else:
				core.E.unsupported('comparison of a symbolic float')
		if o.fmt != self.fmt:
			core.E.unsupported('comparison of floats of different widths')
		(a, x), (b, y) = self.key(), o.key()
		return sand(x, y, f(a, b))

	def __eq__(self, o):
		if not isinstance(o, (int, float)):
			return NotImplemented
		return self._cmp(o, lambda a, b: a == b)

	def __ne__(self, o):
		r = self.__eq__(o)
		return r if r is NotImplemented else snot(r)

	def __lt__(self, o):
		return self._cmp(o, lambda a, b: a < b)

	def __le__(self, o):
		return self._cmp(o, lambda a, b: a <= b)

	def __gt__(self, o):
		return self._cmp(o, lambda a, b: a > b)

	def __ge__(self, o):
		return self._cmp(o, lambda a, b: a >= b)

	def bits(self):
		return SymBytes(self.items)

	def __bool__(self):
		return bool(self.__ne__(0))

	def __repr__(self):
		return '<SymFloat>'


def sym_float_op(op, a, b):
	if core.E.mode == 'int':
		from .reals import SymReal
		import operator
		r = getattr(operator, op)
		return r(SymReal.of(a), b)
	core.E.unsupported('floating point arithmetic on symbolic integers')


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod neg abs int round').split():
	def _mk(n):
		def f(self, *a):
			core.E.unsupported('float operation ' + n)
		return f
	setattr(SymFloat, '__%s__' % _n, _mk(_n))


# ---------------------------------------------------------------- sequences

def fork_index(i, n, clamp=None):
	"""Concrete value of a sequence index; forks only over the values that
	matter for a sequence of length n."""
	if type(i) is not SymInt:
		if type(i) is SymBool:
			return int(bool(i))
		return i
	if i >= n:
		return n
	if i < -n:
		return -n - 1
	return int(i)


def norm_slice(s, n):
	if type(s.start) is SymInt or type(s.stop) is SymInt or type(s.step) is SymInt:
		step = int(s.step) if type(s.step) is SymInt else s.step
		return slice(fork_index(s.start, n), fork_index(s.stop, n), step)
	return s


def seq_repeat(o, n):
	if type(n) is SymInt:
		if n <= 0:
			n = 0
		else:
			if n.hi > 4096:
				if n > 4096:
					raise core.SxBound('repeat count over 4096')
			n = int(n)
	return o * n


def elem_eq(a, b):
	"""equality of two items (ints or SymInts), unforked"""
	if type(a) is int and type(b) is int:
		return a == b
	return a == b if type(a) is SymInt else b == a


class SymSeq(Sym):
	__slots__ = ('items',)

	def __init__(self, items=()):
		self.items = tuple(items)

	__hash__ = Sym.__hash__

	# subclasses: _wrap(items), _coerce(other) -> items or None
	def __len__(self):
		return len(self.items)

	def __bool__(self):
		return len(self.items) > 0

	def __add__(self, o):
		b = self._coerce(o)
		if b is None:
			return NotImplemented
		return self._wrap(self.items + b)

	def __radd__(self, o):
		b = self._coerce(o)
		if b is None:
			return NotImplemented
		return self._wrap(b + self.items)

	def __mul__(self, n):
		if type(n) is SymInt:
			return seq_repeat(self, n)
		return self._wrap(self.items * n)
	__rmul__ = __mul__

	def _eqz(self, o):
		b = self._coerce(o)
		if b is None:
			return None
		a = self.items
		if len(a) != len(b):
			return False
		cs = []
		for x, y in zip(a, b):
			c = elem_eq(x, y)
			if c is False:
				return False
			if c is not True:
				cs.append(c)
		return sand(*cs)

	def __eq__(self, o):
		r = self._eqz(o)
		return NotImplemented if r is None else r

	def __ne__(self, o):
		r = self._eqz(o)
		return NotImplemented if r is None else snot(r)

	def _lex(self, o, strict):
		b = self._coerce(o)
		if b is None:
			return NotImplemented
		a = self.items
		r = len(a) < len(b) if strict else len(a) <= len(b)
		for x, y in reversed(list(zip(a, b))):
			r = sor(x < y, sand(elem_eq(x, y), r))
		return r

	def __lt__(self, o):
		return self._lex(o, True)

	def __le__(self, o):
		return self._lex(o, False)

	def __gt__(self, o):
		r = self._lex(o, False)
		return r if r is NotImplemented else snot(r)

	def __ge__(self, o):
		r = self._lex(o, True)
		return r if r is NotImplemented else snot(r)

	# search -----------------------------------------------------------
	def _match_at(self, sub, i):
		cs = []
		for k, y in enumerate(sub):
			c = elem_eq(self.items[i + k], y)
			if c is False:
				return False
			if c is not True:
				cs.append(c)
		return sand(*cs)

	def _range(self, start, end):
		n = len(self.items)
		start = 0 if start is None else fork_index(start, n)
		end = n if end is None else fork_index(end, n)
		if start < 0:
			start = max(0, start + n)
		if end < 0:
			end = max(0, end + n)
		return start, min(end, n)

	def _sub(self, sub):
		s = self._coerce(sub, True)
		if s is None:
			raise TypeError('must be %s, not %s' % (self._cls.__name__, type(sub).__name__))
		return s

	def find(self, sub, start=None, end=None):
		s = self._sub(sub)
		lo, hi = self._range(start, end)
		if start is not None and lo > len(self.items):
			return -1
		for i in range(lo, hi - len(s) + 1):
			if self._match_at(s, i):
				return i
		return -1

	def rfind(self, sub, start=None, end=None):
		s = self._sub(sub)
		lo, hi = self._range(start, end)
		for i in range(hi - len(s), lo - 1, -1):
			if self._match_at(s, i):
				return i
		return -1

	def index(self, sub, start=None, end=None):
		r = self.find(sub, start, end)
		if r < 0:
			raise ValueError('substring not found' if self._cls is str else 'subsection not found')
		return r

	def rindex(self, sub, start=None, end=None):
		r = self.rfind(sub, start, end)
		if r < 0:
			raise ValueError('substring not found' if self._cls is str else 'subsection not found')
		return r

	def __contains__(self, sub):
		return self.find(sub) >= 0

	def count(self, sub, start=None, end=None):
		s = self._sub(sub)
		lo, hi = self._range(start, end)
		if not s:
			return max(0, hi - lo + 1)
		n = 0
		i = lo
		while i + len(s) <= hi:
			if self._match_at(s, i):
				n += 1
				i += len(s)
			else:
				i += 1
		return n

	def startswith(self, p, start=None, end=None):
		lo, hi = self._range(start, end)
		ps = p if isinstance(p, tuple) else (p,)
		for q in ps:
			s = self._sub(q)
			if lo + len(s) <= hi and self._match_at(s, lo):
				return True
		return False

	def endswith(self, p, start=None, end=None):
		lo, hi = self._range(start, end)
		ps = p if isinstance(p, tuple) else (p,)
		for q in ps:
			s = self._sub(q)
			if hi - len(s) >= lo and self._match_at(s, hi - len(s)):
				return True
		return False

	def removeprefix(self, p):
		if self.startswith(p):
			return self._wrap(self.items[len(p):])
		return self

	def removesuffix(self, p):
		if len(p) and self.endswith(p):
			return self._wrap(self.items[:-len(p)])
		return self

	# splitting ---------------------------------------------------------
	def split(self, sep=None, maxsplit=-1):
		if type(maxsplit) is SymInt:
			maxsplit = int(maxsplit)
		if sep is None:
			return self._split_ws(maxsplit)
		s = self._sub(sep)
		if not s:
			raise ValueError('empty separator')
		out = []
		a = self.items
		i = last = 0
		while i + len(s) <= len(a) and (maxsplit < 0 or len(out) < maxsplit):
			if self._match_at(s, i):
				out.append(self._wrap(a[last:i]))
				i += len(s)
				last = i
			else:
				i += 1
		out.append(self._wrap(a[last:]))
		return out

	def rsplit(self, sep=None, maxsplit=-1):
		if maxsplit < 0:
			return self.split(sep, maxsplit)
		if sep is None:
			r = self._rev()._split_ws(maxsplit)
			return [x._rev() for x in reversed(r)]
		s = self._sub(sep)
		if not s:
			raise ValueError('empty separator')
		out = []
		a = self.items
		end = len(a)
		i = end - len(s)
		while i >= 0 and len(out) < maxsplit:
			if self._match_at(s, i):
				out.append(self._wrap(a[i + len(s):end]))
				end = i
				i -= len(s)
			else:
				i -= 1
		out.append(self._wrap(a[:end]))
		out.reverse()
		return out

	def _rev(self):
		return self._wrap(self.items[::-1])

	def _split_ws(self, maxsplit):
		out = []
		a = self.items
		i = 0
		n = len(a)
		while True:
			while i < n and self._isspace(a[i]):
				i += 1
			if i >= n:
				break
			if maxsplit >= 0 and len(out) >= maxsplit:
				rest = self._wrap(a[i:]).rstrip()
				out.append(rest)
				break
			j = i
			while j < n and not self._isspace(a[j]):
				j += 1
			out.append(self._wrap(a[i:j]))
			i = j
		return out

	def partition(self, sep):
		i = self.find(sep)
		if i < 0:
			return (self, self._wrap(()), self._wrap(()))
		return (self._wrap(self.items[:i]), sep, self._wrap(self.items[i + len(sep):]))

	def rpartition(self, sep):
		i = self.rfind(sep)
		if i < 0:
			return (self._wrap(()), self._wrap(()), self)
		return (self._wrap(self.items[:i]), sep, self._wrap(self.items[i + len(sep):]))

	def splitlines(self, keepends=False):
		out = []
		a = self.items
		i = last = 0
		n = len(a)
		while i < n:
			if self._isline(a[i]):
				j = i + 1
				if elem_eq(a[i], 13) and j < n and elem_eq(a[j], 10):
					j += 1
				out.append(self._wrap(a[last:j] if keepends else a[last:i]))
				i = last = j
			else:
				i += 1
		if last < n:
			out.append(self._wrap(a[last:]))
		return out

	def replace(self, old, new, count=-1):
		s = self._sub(old)
		r = self._sub(new)
		a = self.items
		out = []
		if not s:
			for k, x in enumerate(a):
				if count < 0 or k < count:
					out.extend(r)
				out.append(x)
			if count < 0 or len(a) < count:
				out.extend(r)
			return self._wrap(out)
		i = 0
		n = 0
		while i < len(a):
			if (count < 0 or n < count) and i + len(s) <= len(a) and self._match_at(s, i):
				out.extend(r)
				i += len(s)
				n += 1
			else:
				out.append(a[i])
				i += 1
		return self._wrap(out)

	def _strip_pred(self, chars):
		if chars is None:
			return self._isspace
		cs = self._sub(chars)
		return lambda x: sor(*[elem_eq(x, c) for c in cs])

	def lstrip(self, chars=None):
		p = self._strip_pred(chars)
		a = self.items
		i = 0
		while i < len(a) and p(a[i]):
			i += 1
		return self._wrap(a[i:])

	def rstrip(self, chars=None):
		p = self._strip_pred(chars)
		a = self.items
		j = len(a)
		while j > 0 and p(a[j - 1]):
			j -= 1
		return self._wrap(a[:j])

	def strip(self, chars=None):
		return self.lstrip(chars).rstrip(chars)

	def join(self, it):
		return join_seq(self, it)

	def ljust(self, w, fill=None):
		f = self._sub(self._fill if fill is None else fill)
		return self._wrap(self.items + f * max(0, int(w) - len(self.items)))

	def rjust(self, w, fill=None):
		f = self._sub(self._fill if fill is None else fill)
		return self._wrap(f * max(0, int(w) - len(self.items)) + self.items)

	def center(self, w, fill=None):
		f = self._sub(self._fill if fill is None else fill)
		pad = max(0, int(w) - len(self.items))
		left = pad // 2 + (pad & int(w) & 1)
		return self._wrap(f * left + self.items + f * (pad - left))

	def zfill(self, w):
		w = int(w)
		a = self.items
		if len(a) >= w:
			return self
		z = (48,) * (w - len(a))
		if a and sor(elem_eq(a[0], 43), elem_eq(a[0], 45)):
			return self._wrap(a[:1] + z + a[1:])
		return self._wrap(z + a)

	def _all(self, p):
		if not self.items:
			return False
		for x in self.items:
			if not p(x):
				return False
		return True

	def isspace(self):
		return self._all(self._isspace)

	def isdigit(self):
		return self._all(lambda x: char_in_class(x, 'isdigit', self._cls))

	def isalpha(self):
		return self._all(lambda x: char_in_class(x, 'isalpha', self._cls))

	def isalnum(self):
		return self._all(lambda x: char_in_class(x, 'isalnum', self._cls))

	def isascii(self):
		return sand(*[x < 128 for x in self.items])

	def _cased(self, good, bad):
		seen = False
		for x in self.items:
			if char_in_class(x, bad, self._cls):
				return False
			if not seen and char_in_class(x, good, self._cls):
				seen = True
		return seen

	def isupper(self):
		return self._cased('isupper', 'islower')

	def islower(self):
		return self._cased('islower', 'isupper')

	def lower(self):
		return self._map('lower')

	def upper(self):
		return self._map('upper')

	def casefold(self):
		return self._map('casefold')

	def swapcase(self):
		return self._map('swapcase')

	def _map(self, name):
		out = []
		for x in self.items:
			out.extend(map_char(x, name, self._cls))
		return self._wrap(out)

	def title(self):
		core.E.unsupported('title()')

	def capitalize(self):
		if not self.items:
			return self
		return self._wrap(self.items[:1])._map('upper') + self._wrap(self.items[1:])._map('lower')

	def __getitem__(self, i):
		n = len(self.items)
		if isinstance(i, slice):
			return self._wrap(self.items[norm_slice(i, n)])
		j = fork_index(i, n)
		if not -n <= j < n:
			raise IndexError('string index out of range' if self._cls is str else 'index out of range')
		return self._one(self.items[j])

	def __repr__(self):
		return '<%s len=%d>' % (type(self).__name__, len(self.items))

	def __str__(self):
		return '<%s len=%d>' % (type(self).__name__, len(self.items))

	def is_concrete(self):
		return all(type(x) is int for x in self.items)


def simplify_seq(s):
	"""Return a native value when all items are concrete."""
	if s.is_concrete():
		return s.native()
	return s


class SymBytes(SymSeq):
	__slots__ = ()
	_cls = bytes
	_fill = b' '

	@property
	def __class__(self):
		return bytes

	@staticmethod
	def _wrap(items):
		return SymBytes(items)

	@staticmethod
	def _one(x):
		return x

	@staticmethod
	def _coerce(o, search=False):
		t = type(o)
		if t is SymBytes:
			return o.items
		if t is bytes or t is bytearray:
			return tuple(o)
		if t is memoryview:
			return tuple(bytes(o))
		if search and (t is int or t is SymInt):
			if not 0 <= o <= 255:
				raise ValueError('byte must be in range(0, 256)')
			return (o,)
		if t.__name__ in ('SxBytearray', 'SxMemoryView'):
			return tuple(o.items)
		return None

	@staticmethod
	def _isspace(x):
		return sor(*[elem_eq(x, c) for c in b' \t\n\r\x0b\x0c'])

	@staticmethod
	def _isline(x):
		return sor(elem_eq(x, 10), elem_eq(x, 13))

	def __iter__(self):
		return iter(self.items)

	def native(self):
		return bytes(self.items)

	def decode(self, encoding='utf-8', errors='strict'):
		from . import codecs_
		return codecs_.decode(self, encoding, errors)

	def hex(self, *a):
		if a:
			core.E.unsupported('hex() with separator')
		out = []
		for x in self.items:
			for d in (x >> 4, x & 15):
				out.append(SymInt.ite(as_zbool(d < 10), d + 48, d + 87) if type(d) is SymInt else ord('%x' % d))
		return SymStr(out)

	def tobytes(self):
		return self

	def translate(self, table, delete=b''):
		out = []
		for x in self.items:
			if sor(*[elem_eq(x, d) for d in delete]):
				continue
			if table is None:
				out.append(x)
			elif type(x) is int:
				out.append(table[x])
			else:
				out.append(table[int(x)])
		return SymBytes(out)


class SymStr(SymSeq):
	__slots__ = ()
	_cls = str
	_fill = ' '

	@property
	def __class__(self):
		return str

	@staticmethod
	def _wrap(items):
		return SymStr(items)

	@staticmethod
	def _one(x):
		return SymStr((x,))

	@staticmethod
	def _coerce(o, search=False):
		t = type(o)
		if t is SymStr:
			return o.items
		if t is str or issubclass(t, str):
			return tuple(map(ord, o))
		return None

	@staticmethod
	def _isspace(x):
		return char_in_class(x, 'isspace', str)

	@staticmethod
	def _isline(x):
		return sor(*[elem_eq(x, c) for c in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)])

	def __iter__(self):
		for x in self.items:
			yield SymStr((x,))

	def native(self):
		return ''.join(map(chr, self.items))

	def encode(self, encoding='utf-8', errors='strict'):
		from . import codecs_
		return codecs_.encode(self, encoding, errors)

	def isdecimal(self):
		return self._all(lambda x: char_in_class(x, 'isdecimal', str))

	def isnumeric(self):
		return self._all(lambda x: char_in_class(x, 'isnumeric', str))

	def isprintable(self):
		for x in self.items:
			if not char_in_class(x, 'isprintable', str):
				return False
		return True

	def isidentifier(self):
		if not self.items:
			return False
		if not sor(char_in_class(self.items[0], 'isidentifier', str)):
			return False
		for x in self.items[1:]:
			if not char_in_class(x, '_idcont', str):
				return False
		return True

	def translate(self, table):
		out = []
		for x in self.items:
			if type(x) is SymInt:
				hit = None
				for k in list(table.keys()) if hasattr(table, 'keys') else range(len(table)):
					if elem_eq(x, k):
						hit = (table[k],)
						break
				if hit is None:
					out.append(x)
					continue
				v = hit[0]
			else:
				try:
					v = table[x]
				except LookupError:
					out.append(x)
					continue
			if v is None:
				continue
			if isinstance(v, int):
				out.append(v)
			else:
				out.extend(SymStr._coerce(v))
		return SymStr(out)

	def __mod__(self, args):
		from . import fmt
		return fmt.percent(self, args)

	def format(self, *a, **k):
		from . import fmt
		return fmt.str_format(self, a, k)

	def __format__(self, spec):
		core.E.unsupported('format() of symbolic text')

	def expandtabs(self, n=8):
		core.E.unsupported('expandtabs')


def join_seq(sep, it):
	cls = SymStr if isinstance(sep, str) else SymBytes
	s = cls._coerce(sep)
	out = []
	first = True
	for i, x in enumerate(it):
		b = cls._coerce(x)
		if b is None:
			raise TypeError('sequence item %d: expected %s instance, %s found' % (
				i, 'str' if cls is SymStr else 'a bytes-like object', type(x).__name__))
		if not first:
			out.extend(s)
		first = False
		out.extend(b)
	return cls(out)


# ---------------------------------------------------------------- characters

_class_cache = {}


def _ranges(pred, lo, hi):
	out = []
	start = None
	for c in range(lo, hi + 1):
		if pred(c):
			if start is None:
				start = c
		elif start is not None:
			out.append((start, c - 1))
			start = None
	if start is not None:
		out.append((start, hi))
	return out


def char_in_class(x, name, cls):
	if cls is bytes:
		pred = lambda c: getattr(bytes((c,)), name)()
	elif name == '_idcont':
		pred = lambda c: ('a' + chr(c)).isidentifier()
	else:
		pred = lambda c: getattr(chr(c), name)()
	if type(x) is int:
		return pred(x)
	key = (name, cls, x.lo, x.hi)
	rs = _class_cache.get(key)
	if rs is None:
		rs = _class_cache[key] = _ranges(pred, x.lo, x.hi)
	return sor(*[elem_eq(x, a) if a == b else sand(x >= a, x <= b) for a, b in rs])


def map_char(x, name, cls):
	"""items of the mapped character(s)"""
	if cls is bytes:
		f = lambda c: tuple(getattr(bytes((c,)), name)())
	else:
		f = lambda c: tuple(map(ord, getattr(chr(c), name)()))
	if type(x) is int:
		return f(x)
	key = ('map', name, cls, x.lo, x.hi)
	ent = _class_cache.get(key)
	if ent is None:
		groups = {}
		special = []
		for c in range(x.lo, x.hi + 1):
			r = f(c)
			if len(r) == 1:
				if r[0] != c:
					groups.setdefault(r[0] - c, []).append(c)
			else:
				special.append((c, r))
		g2 = []
		for d, cs in groups.items():
			s = set(cs)
			g2.append((d, _ranges(lambda c: c in s, x.lo, x.hi)))
		ent = _class_cache[key] = (g2, special)
	g2, special = ent
	for c, r in special:
		if elem_eq(x, c):
			return r
	res = x
	for d, rs in g2:
		cond = sor(*[elem_eq(x, a) if a == b else sand(x >= a, x <= b) for a, b in rs])
		res = SymInt.ite(as_zbool(cond), x + d, res)
	return (res,)

"""Double arithmetic as real arithmetic with a bounded rounding error per operation (mode 'int').

Every operation returns the exact real result plus a fresh error of at most half a unit in the last place of the
largest magnitude the operands allow.  What is proved for all such errors holds for the actual rounding; a counterexample
may be one that no actual rounding shows, so it only counts once the real code reproduces it.
"""
import math
import z3
from fractions import Fraction as F
from . import core
from .values import Sym, SymInt, SymBool, mkbool, intlike, bounds, tozi

__sx_transformed__ = True


def half_ulp(lo, hi):
	m = max(abs(lo), abs(hi))
	if m == 0:
		return F(0)
	e = math.floor(math.log2(m))
	return F(2) ** (e - 53)


def rv(f):
	return z3.RealVal('%d/%d' % (F(f).numerator, F(f).denominator))


class SymReal(Sym):
	__slots__ = ('e', 'lo', 'hi')

	def __init__(self, e, lo, hi):
		self.e, self.lo, self.hi = e, F(lo), F(hi)

	@property
	def __class__(self):
		return float

	@staticmethod
	def rounded(e, lo, hi):
		E = core.E
		if max(abs(lo), abs(hi)) > 4:
			# differences cancel: is the result always small?
			if E._check(z3.Or(e < -1, e > 1)) == z3.unsat:
				lo, hi = max(F(lo), F(-1)), min(F(hi), F(1))
		h = half_ulp(lo, hi)
		if h == 0:
			return SymReal(e, lo, hi)
		d = z3.Real(E.fresh_name('err'))
		E.assume(z3.And(d >= rv(-h), d <= rv(h)))
		return SymReal(e + d, lo - h, hi + h)

	@staticmethod
	def of(x):
		if isinstance(type(x), type) and issubclass(type(x), SymReal):
			return x
		if isinstance(x, bool) or isinstance(x, int):
			lo, hi = bounds(intlike(x))
			if max(abs(lo), abs(hi)) > 1 << 53:
				return SymReal.rounded(z3.ToReal(tozi(intlike(x))), lo, hi)
			return SymReal(z3.ToReal(tozi(intlike(x))), lo, hi)
		if type(x) is float:
			if x != x or x in (math.inf, -math.inf):
				core.E.unsupported('infinite value in real arithmetic')
			return SymReal(rv(F(x)), F(x), F(x))
		return None

	def _add(self, o, s, rev=False):
		o = SymReal.of(o)
		if o is None:
			return NotImplemented
		a, b = (o, self) if rev else (self, o)
		if s > 0:
			return SymReal.rounded(a.e + b.e, a.lo + b.lo, a.hi + b.hi)
		return SymReal.rounded(a.e - b.e, a.lo - b.hi, a.hi - b.lo)

	def __add__(self, o):
		return self._add(o, 1)
	__radd__ = __add__

	def __sub__(self, o):
		return self._add(o, -1)

	def __rsub__(self, o):
		return self._add(o, -1, True)

	def __mul__(self, o):
		o = SymReal.of(o)
		if o is None:
			return NotImplemented
		a, b = self, o
		if a.lo == a.hi:
			a, b = b, a
		if b.lo != b.hi:
			core.E.unsupported('product of two symbolic floats')
		c = sorted((a.lo * b.lo, a.hi * b.lo))
		return SymReal.rounded(a.e * b.e, c[0], c[1])
	__rmul__ = __mul__

	def __truediv__(self, o):
		o = SymReal.of(o)
		if o is None:
			return NotImplemented
		if o.lo != o.hi:
			core.E.unsupported('division by a symbolic float')
		if o.lo == 0:
			raise ZeroDivisionError('float division by zero')
		c = sorted((self.lo / o.lo, self.hi / o.lo))
		return SymReal.rounded(self.e / rv(o.lo), c[0], c[1])

	def __rtruediv__(self, o):
		core.E.unsupported('division by a symbolic float')

	def exact(self):
		return Exact(self.e, self.lo, self.hi)

	def __neg__(self):
		return SymReal(-self.e, -self.hi, -self.lo)

	def __pos__(self):
		return self

	def __abs__(self):
		return SymReal(z3.If(self.e < 0, -self.e, self.e), 0, max(abs(self.lo), abs(self.hi)))

	def _cmp(self, o, f):
		o = SymReal.of(o)
		if o is None:
			return NotImplemented
		return mkbool(f(self.e, o.e))

	def __lt__(self, o):
		return self._cmp(o, lambda a, b: a < b)

	def __le__(self, o):
		return self._cmp(o, lambda a, b: a <= b)

	def __gt__(self, o):
		return self._cmp(o, lambda a, b: a > b)

	def __ge__(self, o):
		return self._cmp(o, lambda a, b: a >= b)

	def __eq__(self, o):
		return self._cmp(o, lambda a, b: a == b)

	def __ne__(self, o):
		return self._cmp(o, lambda a, b: a != b)

	def __bool__(self):
		return core.E.branch(self.e != 0)

	def __floor__(self):
		lo, hi = math.floor(self.lo), math.floor(self.hi)
		if lo == hi:
			return lo
		E = core.E
		f = z3.Int(E.fresh_name('floor'))
		E.assume(z3.And(z3.ToReal(f) <= self.e, self.e < z3.ToReal(f) + 1, f >= lo, f <= hi))
		return SymInt.make(f, lo, hi)

	def __ceil__(self):
		return SymInt.make(-z3.ToInt(-self.e), math.ceil(self.lo), math.ceil(self.hi))

	def __trunc__(self):
		if self.lo >= 0:
			return self.__floor__()
		return SymInt.make(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), math.trunc(self.lo), math.trunc(self.hi))

	def __round__(self, n=None):
		if n is not None and n != 0:
			core.E.unsupported('round() of a symbolic float to digits')
		# half to even; ties are rounded either way here
		E = core.E
		lo, hi = math.floor(self.lo - F(1, 2)), math.ceil(self.hi + F(1, 2))
		r = z3.Int(E.fresh_name('rnd'))
		E.assume(z3.And(2 * (z3.ToReal(r) - self.e) <= 1, 2 * (z3.ToReal(r) - self.e) >= -1))
		i = SymInt.make(r, lo, hi)
		return i if n is None else SymReal.of(i)

	def __floordiv__(self, o):
		if o == 1:
			return SymReal.of(self.__floor__())
		core.E.unsupported('floor division of a symbolic float')

	def __mod__(self, o):
		if o == 1:
			return self - self.__floor__()
		core.E.unsupported('remainder of a symbolic float')

	def __divmod__(self, o):
		return self // o, self % o

	def __int__(self):
		core.E.unsupported('int() of a symbolic float in native code')
	__float__ = __int__

	def is_integer(self):
		return mkbool(z3.IsInt(self.e))

	def __repr__(self):
		return '<SymReal>'
	__hash__ = Sym.__hash__


class Exact(SymReal):
	"""for harnesses: arithmetic without rounding"""
	__slots__ = ()

	def _add(self, o, s, rev=False):
		o = SymReal.of(o)
		a, b = (o, self) if rev else (self, o)
		return Exact(a.e + b.e if s > 0 else a.e - b.e, -1, 1)

	def __mul__(self, o):
		return Exact(self.e * SymReal.of(o).e, -1, 1)


def modf(x):
	t = x.__trunc__()
	return x - t, SymReal.of(t)


def to_bytes(x):
	"""eight big-endian byte items standing for the double"""
	E = core.E
	reg = E.__dict__.setdefault('real_bytes', {})
	out = []
	for i in range(8):
		b = SymInt.var(E.fresh_name('fb'), 0, 255)
		if i == 0:
			# not infinite and not NaN
			E.assume(z3.And(b.e != 127, b.e != 255))
		reg[str(b.e)] = (x, i)
		out.append(b)
	return out


def from_bytes(items):
	reg = core.E.__dict__.get('real_bytes')
	if not reg:
		return None
	v = None
	for i, b in enumerate(items):
		if type(b) is not SymInt:
			return None
		r = reg.get(str(b.e))
		if r is None or r[1] != i or (v is not None and r[0] is not v):
			return None
		v = r[0]
	return v

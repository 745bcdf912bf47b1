"""decimal.Decimal with symbolic digits."""
import decimal
from . import core
from .values import Sym, SymInt, SymStr, is_sym, as_zbool, sand
from . import values

__sx_transformed__ = True


class SymDecimal(Sym):
	"""a finite decimal: sign, digits (no leading zeros unless it is (0,)) and exponent"""
	__slots__ = ('sign', 'digits', 'exponent')

	def __init__(self, sign, digits, exponent):
		self.sign = sign
		self.digits = digits
		self.exponent = exponent

	@property
	def __class__(self):
		return decimal.Decimal

	def as_tuple(self):
		return decimal.DecimalTuple(self.sign, self.digits, self.exponent)

	def is_nan(self):
		return False
	is_snan = is_qnan = is_infinite = is_nan

	def is_finite(self):
		return True

	def is_signed(self):
		return self.sign == 1

	def is_zero(self):
		return self.digits == (0,)

	def __bool__(self):
		if len(self.digits) > 1:
			return True
		return bool(self.digits[0] != 0)

	def adjusted(self):
		return self.exponent + len(self.digits) - 1

	def __neg__(self):
		core.E.unsupported('arithmetic on a symbolic Decimal')
	__abs__ = __add__ = __sub__ = __mul__ = __radd__ = __rsub__ = __rmul__ = __lt__ = __gt__ = __le__ = __ge__ = __str__ = __neg__

	def _bad(self, *a):
		core.E.unsupported('operation on a symbolic Decimal')
	__eq__ = __ne__ = __int__ = __float__ = __format__ = __divmod__ = __floordiv__ = __mod__ = _bad
	scaleb = quantize = normalize = to_integral_value = to_integral = copy_abs = copy_negate = number_class = to_eng_string = same_quantum = _bad

	def __getattr__(self, n):
		if n.startswith('__'):
			raise AttributeError(n)
		core.E.unsupported('Decimal.' + n)

	def __repr__(self):
		return 'SymDecimal(%r, %r, %r)' % (self.sign, self.digits, self.exponent)
	__hash__ = Sym.__hash__


def make(x='0', context=None):
	if type(x) is SymDecimal or type(x) is decimal.Decimal:
		return x
	if isinstance(x, (tuple, list)):
		if len(x) != 3:
			raise ValueError('Invalid tuple size in creation of Decimal from list or tuple.')
		sign, digits, exp = x
		if isinstance(exp, str):
			return decimal.Decimal((int(sign), tuple(int(d) for d in digits), exp))
		if not sand(sign >= 0, sign <= 1):
			raise ValueError('sign must be an integer with the value 0 or 1')
		if type(sign) is SymInt:
			sign = SymInt.make(sign.e, 0, 1)
		out = []
		for d in digits:
			if not isinstance(d, int):
				raise ValueError('coefficient must be a tuple of digits')
			if not sand(d >= 0, d <= 9):
				raise ValueError('coefficient must be a tuple of digits')
			if type(d) is SymInt:
				d = SymInt.make(d.e, max(d.lo, 0), min(d.hi, 9))
			if out or d != 0:
				out.append(d)
		if not out:
			out = [0]
		return SymDecimal(sign, tuple(out), exp)
	if isinstance(x, int):
		# the digits of the text
		from . import fmt
		s = fmt.sx_str(x)
		items = list(s.items) if is_sym(s) else [ord(c) for c in s]
		sign = 0
		if items[0] == 45:
			sign = 1
			items = items[1:]
		return SymDecimal(sign, tuple(c - 48 for c in items), 0)
	core.E.unsupported('Decimal from a symbolic %s' % x.__class__.__name__)


def canon(m, x, mval):
	return ['D', mval(m, x.sign), [mval(m, d) for d in x.digits], mval(m, x.exponent)]

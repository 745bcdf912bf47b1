"""The context object a harness is written against (symbolic side)."""
import decimal
from fractions import Fraction
import z3
from . import core, decimals, dt, conc
from .core import SxViolation, SxAbort, SxBound, SxInconclusive
from .values import (SymInt, SymBool, SymBytes, SymStr, SymFloat, SymSeq, Sym, is_sym, as_zbool, sand, sor, snot, mkbool)
from .containers import SxDict, SxSet, SxBytearray, SxMemoryView, SxBytesIO

__sx_transformed__ = True


def mval(m, x):
	"""Evaluate a (partly) symbolic value under a model; canonical JSON form."""
	t = type(x)
	if t is SymInt:
		v = m.eval(x.e, model_completion=True)
		return v.as_signed_long() if z3.is_bv(v) else v.as_long()
	if t is SymBool:
		return z3.is_true(m.eval(x.e, model_completion=True))
	if t is SymBytes or t is SxBytearray or t is SxMemoryView:
		return 'b:' + bytes([i if type(i) is int else mval(m, i) & 255 for i in x.items]).hex()
	if t is SymStr:
		return 's:' + ''.join(chr(i if type(i) is int else mval(m, i)) for i in x.items)
	if t is SymFloat:
		import struct
		b = bytes([i if type(i) is int else mval(m, i) for i in x.items])
		return 'f:' + repr(struct.unpack('>' + x.fmt, b)[0])
	if t is decimals.SymDecimal:
		return decimals.canon(m, x, mval)
	if issubclass(t, (dt.SymTimedelta, dt.SymDate, dt.SymTime, dt.SymDatetime)):
		return dt.canon(m, x, mval)
	if issubclass(t, dt.NATIVE):
		return conc.canon_dt(x)
	if t is decimal.Decimal:
		t = x.as_tuple()
		return ['D', t.sign, list(t.digits), t.exponent]
	if t is bool or x is None or t is int:
		return x
	if t is float:
		return 'f:' + repr(x)
	if t in (bytes, bytearray, memoryview):
		return 'b:' + bytes(x).hex()
	if issubclass(t, str):
		return 's:' + x
	if issubclass(t, dict):
		return ['d'] + sorted(([mval(m, k), mval(m, v)] for k, v in x.items()), key=repr)
	if issubclass(t, (set, frozenset)):
		return ['S'] + sorted((mval(m, k) for k in x), key=repr)
	if issubclass(t, (list, tuple)):
		return [mval(m, y) for y in x]
	if isinstance(x, type):
		return 'type:' + x.__name__
	if isinstance(x, BaseException):
		return 'exc:' + type(x).__name__
	return 'obj:' + t.__name__


class SymCtx:
	symbolic = True

	def __init__(self, engine, task):
		self.E = engine
		self.task = task
		self.reached = {}
		self.known_keys = task.get('known', ())
		self.path_reset()

	def path_reset(self):
		self.inputs = {}
		self.obs = []
		self._ext = None

	# inputs ------------------------------------------------------------
	def _new(self, name, v):
		if name in self.inputs:
			raise RuntimeError('harness: input %r declared twice' % name)
		self.inputs[name] = v
		return v

	def int(self, name, lo, hi):
		return self._new(name, SymInt.var(name, lo, hi))

	def bool(self, name):
		return self._new(name, mkbool(z3.Bool(name)))

	def bytes(self, name, n):
		return self._new(name, SymBytes([SymInt.var('%s[%d]' % (name, i), 0, 255) for i in range(n)]))

	def str(self, name, n, lo=1, hi=0xFF, alphabet=None):
		if alphabet is not None:
			lo, hi = min(map(ord, alphabet)), max(map(ord, alphabet))
		its = []
		for i in range(n):
			x = SymInt.var('%s[%d]' % (name, i), lo, hi)
			if alphabet is not None and type(x) is SymInt:
				self.E.assume(as_zbool(sor(*[x == ord(c) for c in alphabet])))
			its.append(x)
			if hi > 0xD7FF and type(x) is SymInt:
				self.E.assume(as_zbool(sor(x < 0xD800, x > 0xDFFF)))
		return self._new(name, SymStr(its))

	def float_bits(self, name, fmt='d'):
		n = 8 if fmt == 'd' else 4
		return self._new(name, SymFloat([SymInt.var('%s[%d]' % (name, i), 0, 255) for i in range(n)], fmt))

	def choose(self, name, options):
		"""A symbolic selection; forks."""
		n = options if isinstance(options, int) else len(options)
		if n == 1:
			i = 0
			self._new(name, 0)
		else:
			v = self._new(name, SymInt.var(name, 0, n - 1))
			i = int(v)
		return i if isinstance(options, int) else options[i]

	# obligations -------------------------------------------------------
	def assume(self, c):
		if type(c) is SymBool:
			self.E.assume(c.e)
		elif not c:
			raise SxAbort('assumption false')

	def check(self, c, label):
		if type(c) is not SymBool:
			c = bool(c)
			self.E.stats['obligations'] += 1
			if c:
				# decided by the path condition alone
				self.E.stats['discharged'] += 1
				self.E.stats['by_path'] = self.E.stats.get('by_path', 0) + 1
				return
			m = self.E.get_model()
		else:
			m = self.E.obligation(c.e, label)
			if m is None:
				return
		self.violation(label, m, c.e if type(c) is SymBool else None)

	def fail(self, label):
		self.check(False, label)

	def confirm(self, e, cond):
		"""the encoding over-approximates: look for a counterexample that the real code reproduces"""
		import random
		rnd = random.Random(1)
		s = self.E.solver
		for i in range(60):
			if self.ask(e.values, e.label):
				return
			s.push()
			if cond is not None:
				s.add(z3.Not(cond))
			for k, v in self.inputs.items():
				if type(v) is SymInt and v.hi - v.lo > 1000 and z3.is_int(v.e):
					p = rnd.choice((7, 97, 997))
					s.add(v.e % p == rnd.randrange(p))
			r = self.E._check()
			m = s.model() if r == z3.sat else None
			s.pop()
			if m is not None:
				e.values = self.values(m)
		raise SxInconclusive('counterexample of the abstraction not reproduced by the code: %s %r' % (e.label, e.values))

	def violation(self, label, m, cond=None):
		if self.E.poison is not None:
			raise self.E.poison
		e = SxViolation(label)
		e.label = label
		e.values = self.values(m)
		if self.task.get('abstract'):
			self.confirm(e, cond)
		raise e

	def values(self, m):
		return {k: mval(m, v) for k, v in self.inputs.items()}

	def reach(self, label):
		self.reached[label] = self.reached.get(label, 0) + 1

	def observe(self, key, v):
		self.obs.append((key, v))

	def pin(self, x):
		"""enumerate the values of an integer"""
		return int(x) if type(x) is SymInt else x

	def known(self, key):
		return key in self.known_keys

	# helpers ------------------------------------------------------------
	def bound(self, why='bound'):
		raise SxBound(why)

	def same(self, a, b):
		return same(a, b)

	def all(self, *cs):
		return sand(*cs)

	def any(self, *cs):
		return sor(*cs)

	def neg(self, c):
		return snot(c)

	def implies(self, a, b):
		return sor(snot(a), b)

	def ite(self, c, a, b):
		if type(c) is SymBool:
			if isinstance(a, int) and isinstance(b, int):
				return SymInt.ite(c.e, a, b)
			return a if c else b
		return a if c else b

	def exact(self, x):
		"""a float for exact arithmetic"""
		return x.exact() if is_sym(x) else Fraction(x)

	def is_symbolic(self, x):
		return is_sym(x)

	def optimized(self):
		"""the extension: the IR of the current C source, interpreted"""
		if self._ext is None:
			from . import cmod
			self._ext = cmod.module(self)
		return self._ext

	def c_functions(self):
		import sys
		m = sys.modules.get('sx.cmod')
		if m is None or m._vm is None:
			return []
		return ['postgresql/port/_optimized:' + n for n in sorted(m._vm.called)]

	def extended(self, *names):
		"""the named modules, using the extension"""
		from . import variant
		return variant.load(self, names)

	def leakfree(self, f):
		"""f uses the extension; afterwards everything it needed is released"""
		r = f()
		from . import cmod
		cmod._vm.balance()
		return r

	def release(self, o):
		"""drop the last reference to the objects of a list"""
		while o:
			o.pop(0)._release()


def same(a, b):
	"""structural equality without forking"""
	if is_sym(a) or is_sym(b):
		if type(a) is SymFloat or type(b) is SymFloat:
			import struct
			def bits(x, fmt):
				return x.bits() if type(x) is SymFloat else struct.pack('>' + fmt, x)
			fmt = a.fmt if type(a) is SymFloat else b.fmt
			if not (isinstance(a, float) and isinstance(b, float)):
				return False
			if type(a) is type(b) and a.fmt != b.fmt:
				return False
			return bits(a, fmt) == bits(b, fmt)
		if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
			if a.__class__ is not b.__class__ and not (isinstance(a, bytes) and isinstance(b, (bytearray, memoryview))):
				return False
		if isinstance(a, bool) != isinstance(b, bool):
			return False
		r = a == b
		return False if r is NotImplemented else r
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		if len(a) != len(b):
			return False
		return sand(*[same(x, y) for x, y in zip(a, b)])
	if isinstance(a, dict) and isinstance(b, dict):
		return a == b
	if type(a) is bool or type(b) is bool:
		return a is b
	return a == b

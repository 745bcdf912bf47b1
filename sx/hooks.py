"""What transformed code calls instead of the plain Python operation."""
import sys
import types
import struct
import re
import io
import functools
import operator
import itertools
import hashlib
import builtins
import binascii
import decimal
from . import core
from . import fmt as _fmt
from . import structm
from . import regex
from . import decimals, reals, dt
import math
import datetime
from .values import (Sym, is_sym, SymInt, SymBool, SymFloat, SymSeq, SymBytes, SymStr, sand, sor, snot, seq_repeat,
	bytes_to_int_be, norm_slice, fork_index, join_seq, as_zbool, elem_eq, intlike)
from .containers import (SxDict, SxSet, SxBytearray, SxMemoryView, SxBytesIO, SxStringIO, lookup, contains,
	deep_sym, native_key, SxKeys)

__sx_transformed__ = True

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
BuiltinMethod2 = type(re.compile('a').match)
MethodDescr = type(str.join)
WrapperDescr = type(str.__add__)
MethodWrapper = type('a'.__add__)
Pattern = re.Pattern
Struct = struct.Struct
SLOT_PROXIES = (Sym,)


def any_sym(args, kw=None):
	for a in args:
		t = type(a)
		if issubclass(t, Sym):
			return True
		if t is tuple or t is list:
			for b in a:
				if issubclass(type(b), Sym):
					return True
	if kw:
		for a in kw.values():
			if issubclass(type(a), Sym):
				return True
	return False


def deep_any(x, depth=4):
	t = type(x)
	if issubclass(t, Sym):
		return True
	if depth:
		if issubclass(t, (tuple, list, set, frozenset)):
			return any(deep_any(y, depth - 1) for y in x)
		if issubclass(t, dict):
			return any(deep_any(y, depth - 1) or deep_any(k, depth - 1) for k, y in x.items())
	return False


# ------------------------------------------------------------ concretization

def concretize(x, depth=6):
	"""Fork over all values of every symbolic part of x; returns native data."""
	t = type(x)
	if t is SymInt:
		return int(x)
	if t is SymBool:
		return bool(x)
	if t is SymBytes or t is SymStr:
		return t([i if type(i) is int else int(i) for i in x.items]).native()
	if t is SxBytearray:
		return bytearray([i if type(i) is int else int(i) for i in x.items])
	if t is SxMemoryView:
		return memoryview(bytes([i if type(i) is int else int(i) for i in x.items]))
	if t is SymFloat:
		b = bytes([i if type(i) is int else int(i) for i in x.items])
		return struct.unpack('>' + x.fmt, b)[0]
	if depth:
		if t is tuple:
			return tuple(concretize(y, depth - 1) for y in x)
		if t is list:
			return [concretize(y, depth - 1) for y in x]
		if t in (dict, SxDict):
			return {concretize(k, depth - 1): concretize(v, depth - 1) for k, v in x.items()}
		if t in (set, SxSet):
			return {concretize(k, depth - 1) for k in x}
	return x


def fallback(f, a, k):
	core.E.labels['concretized:%s' % getattr(f, '__qualname__', f)] = 1
	return f(*concretize(list(a)), **concretize(k))


# ------------------------------------------------------------ builtin models

def m_isinstance(o, cls):
	return isinstance(o, cls)


def m_ord(x):
	if isinstance(x, (str, bytes)) and is_sym(x):
		if len(x) != 1:
			raise TypeError('ord() expected a character, but string of length %d found' % len(x))
		return x.items[0]
	if is_sym(x):
		raise TypeError('ord() expected string of length 1, but %s found' % x.__class__.__name__)
	return ord(x)


def m_chr(x):
	if type(x) is SymInt:
		if not sand(x >= 0, x <= 0x10FFFF):
			raise ValueError('chr() arg not in range(0x110000)')
		return SymStr((SymInt.make(x.e, max(x.lo, 0), min(x.hi, 0x10FFFF)),))
	return chr(x)


def m_bytes(*a, **k):
	if not a:
		return bytes(*a, **k)
	x = a[0]
	if isinstance(x, str):
		if not is_sym(x):
			return bytes(*a, **k)
		if len(a) < 2 and 'encoding' not in k:
			raise TypeError('string argument without an encoding')
		return x.encode(*a[1:], **k)
	c = SymBytes._coerce(x)
	if c is not None:
		return _nb(c)
	if type(x) is SymInt:
		if x < 0:
			raise ValueError('negative count')
		return seq_repeat(b'\x00', x)
	if isinstance(x, int):
		return bytes(x)
	if not is_sym(x) and hasattr(x, '__bytes__'):
		return call(x.__bytes__)
	out = []
	for b in x:
		b = intlike(b)
		if b is None:
			raise TypeError('cannot be interpreted as an integer')
		if not sand(b >= 0, b <= 255):
			raise ValueError('bytes must be in range(0, 256)')
		out.append(b if type(b) is int else SymInt.make(b.e, max(b.lo, 0), min(b.hi, 255)))
	return _nb(out)


def _nb(items):
	s = SymBytes(items)
	return s.native() if s.is_concrete() else s


def _ns(items):
	s = SymStr(items)
	return s.native() if s.is_concrete() else s


def m_str(*a, **k):
	if not a:
		return str(*a, **k)
	x = a[0]
	if len(a) == 1 and not k:
		if not is_sym(x) and type(x) not in (tuple, list) and hasattr(type(x), '__str__') \
				and isinstance(type(x).__str__, FunctionType):
			return type(x).__str__(x)
		return _fmt.sx_str(x)
	if is_sym(x):
		return x.decode(*a[1:], **k)
	return str(*a, **k)


def m_int(*a, **k):
	if k:
		a = a + tuple(k.values())
	return _fmt.sx_int(*a)


def m_bool(x=False):
	return bool(x)


def m_float(x=0.0):
	if type(x) is SymFloat:
		return x
	if type(x) is reals.SymReal:
		return x
	if type(x) is SymInt and core.E.mode == 'int':
		return reals.SymReal.of(x)
	if is_sym(x):
		return fallback(float, (x,), {})
	return float(x)


def m_len(x):
	return len(x)


def m_hash(x):
	return hash(x)


def m_type(*a):
	if len(a) == 1:
		x = a[0]
		t = type(x)
		if issubclass(t, Sym) or t is SxDict or t is SxSet:
			return x.__class__
		return t
	return type(*a)


def m_decimal(*a, **k):
	if a and deep_any(a[0]):
		return decimals.make(*a, **k)
	return decimal.Decimal(*a, **k)


class SymRange:
	def __init__(self, a, b, s):
		self.start, self.stop, self.step = a, b, s

	def __iter__(self):
		i = self.start
		n = 0
		s = self.step
		while (i < self.stop) if s > 0 else (i > self.stop):
			yield i
			i = i + s
			n += 1
			if n > 4096:
				raise core.SxBound('range over 4096 steps')

	def __len__(self):
		n = (self.stop - self.start + self.step - 1) // self.step if self.step > 0 \
			else (self.start - self.stop - self.step - 1) // -self.step
		return max(0, int(n))

	def __contains__(self, x):
		s = self.step
		if s == 1:
			return bool(sand(x >= self.start, x < self.stop))
		return any(x == y for y in self)

	def __reversed__(self):
		return reversed(list(self))

	def __getitem__(self, i):
		return list(self)[i]


def m_range(*a):
	if not any(is_sym(x) for x in a):
		return range(*a)
	a = [intlike(x) for x in a]
	if len(a) == 1:
		return SymRange(0, a[0], 1)
	if len(a) == 2:
		return SymRange(a[0], a[1], 1)
	st = a[2]
	if is_sym(st):
		st = int(st)
	if st == 0:
		raise ValueError('range() arg 3 must not be zero')
	return SymRange(a[0], a[1], st)


def _wrapf(f):
	if f is None or type(f) in (FunctionType, MethodType):
		return f
	return lambda *a, **k: call(f, *a, **k)


def m_map(f, *its):
	return map(_wrapf(f), *its)


def m_filter(f, it):
	return filter(_wrapf(f), it)


def m_reduce(f, *a):
	return functools.reduce(_wrapf(f), *a)


def m_sum(it, start=0):
	r = start
	for x in it:
		r = r + x
	return r


def _minmax(name, a, k):
	key = k.get('key')
	if key is not None:
		key = _wrapf(key)
	seq = list(a[0]) if len(a) == 1 else list(a)
	if not seq:
		if 'default' in k:
			return k['default']
		raise ValueError('%s() arg is an empty sequence' % name)
	best = seq[0]
	bk = key(best) if key else best
	for x in seq[1:]:
		xk = key(x) if key else x
		if type(xk) in (int, SymInt) and type(bk) in (int, SymInt) and not key:
			c = xk < bk if name == 'min' else xk > bk
			if type(c) is SymBool:
				best = bk = SymInt.ite(c.e, xk, bk)
				continue
			if c:
				best = bk = xk
			continue
		if (xk < bk) if name == 'min' else (xk > bk):
			best, bk = x, xk
	return best


def m_min(*a, **k):
	return _minmax('min', a, k)


def m_max(*a, **k):
	return _minmax('max', a, k)


def m_sorted(it, *, key=None, reverse=False):
	return sorted(it, key=_wrapf(key), reverse=reverse)


def m_divmod(a, b):
	return divmod(a, b)


def m_abs(x):
	return abs(x)


def m_pow(a, b, m=None):
	if m is None:
		return a ** b
	return fallback(pow, (a, b, m), {})


def m_round(x, n=None):
	if type(x) is SymInt:
		return x
	return fallback(round, (x,) if n is None else (x, n), {})


def m_repr(x):
	return _fmt.sx_repr(x)


def m_format(v, spec=''):
	return _fmt.sx_format(v, spec)


def m_hex(x):
	if type(x) is SymInt:
		return _ns([48, 120] + _fmt.int_items(x, 16)) if not x < 0 else _ns([45, 48, 120] + _fmt.int_items(-x, 16))
	return hex(x)


def m_bin(x):
	if type(x) is SymInt:
		return _ns([48, 98] + _fmt.int_items(x, 2)) if not x < 0 else _ns([45, 48, 98] + _fmt.int_items(-x, 2))
	return bin(x)


def m_oct(x):
	if type(x) is SymInt:
		return _ns([48, 111] + _fmt.int_items(x, 8)) if not x < 0 else _ns([45, 48, 111] + _fmt.int_items(-x, 8))
	return oct(x)


def m_getattr(o, name, *d):
	if is_sym(name):
		name = concretize(name)
	if is_sym(o):
		try:
			return getattr(o, name)
		except AttributeError:
			# does the real type have it?
			if hasattr(o.__class__, name):
				core.E.unsupported('%s.%s' % (o.__class__.__name__, name))
			if d:
				return d[0]
			raise
	return getattr(o, name, *d)


def m_hasattr(o, name):
	if is_sym(name):
		name = concretize(name)
	if is_sym(o):
		return hasattr(o.__class__, name)
	return hasattr(o, name)


def m_setattr(o, name, v):
	if is_sym(name):
		name = concretize(name)
	return setattr(o, name, v)


def m_dict(*a, **k):
	return SxDict(*a, **k)


def m_set(*a):
	return SxSet(*a)


def m_frozenset(*a):
	if a:
		it = list(a[0])
		if any(deep_sym(x) for x in it):
			return SxSet(it)
		return frozenset(it)
	return frozenset()


def m_bytearray(*a, **k):
	return SxBytearray(*a, **k)


def m_memoryview(x):
	if is_sym(x):
		return SxMemoryView(x)
	return memoryview(x)


def m_slice(*a):
	return slice(*a)


def m_tuple(it=()):
	return tuple(it)


def m_list(it=()):
	return list(it)


def m_enumerate(it, start=0):
	return enumerate(it, int(start))


def m_zip(*its, **k):
	return zip(*its, **k)


def m_all(it):
	return all(it)


def m_any(it):
	return any(it)


def m_callable(x):
	return callable(x) and not is_sym(x)


def m_next(it, *d):
	return next(it, *d)


def m_iter(x, *s):
	if s:
		return iter(_wrapf(x), *s)
	return iter(x)


def m_reversed(x):
	if is_sym(x):
		return iter(list(x)[::-1])
	return reversed(x)


def m_id(x):
	return id(x)


def m_print(*a, **k):
	return None


def m_int_from_bytes(b, byteorder='big', *, signed=False):
	if is_sym(b) or isinstance(b, (bytes, bytearray, memoryview)):
		items = list(SymBytes._coerce(b))
	else:
		items = list(b)
	if byteorder == 'little':
		items.reverse()
	return bytes_to_int_be(items, signed)


def m_bytes_fromhex(s):
	if not is_sym(s):
		return bytes.fromhex(s)
	out = []
	it = list(SymStr._coerce(s))
	i = 0
	while i < len(it):
		if SymBytes._isspace(it[i]):
			i += 1
			continue
		if i + 1 >= len(it):
			raise ValueError('non-hexadecimal number found in fromhex() arg')
		out.append(hexd(it[i]) * 16 + hexd(it[i + 1]))
		i += 2
	return _nb(out)


def hexd(c, err=ValueError):
	if sand(c >= 48, c <= 57):
		return c - 48
	if sand(c >= 97, c <= 102):
		return c - 87
	if sand(c >= 65, c <= 70):
		return c - 55
	raise err('non-hexadecimal number found')


def m_hexlify(b, *a):
	if a:
		core.E.unsupported('hexlify separator')
	s = SymBytes(SymBytes._coerce(b)).hex()
	return SymBytes(s.items)


def m_unhexlify(b):
	cls = SymBytes if isinstance(b, bytes) else SymStr
	it = cls._coerce(b)
	if len(it) % 2:
		raise binascii.Error('Odd-length string')
	return _nb([hexd(it[i], binascii.Error) * 16 + hexd(it[i + 1], binascii.Error) for i in range(0, len(it), 2)])


def m_itemgetter(*keys):
	if len(keys) == 1:
		return lambda o: getitem(o, keys[0])
	return lambda o: tuple(getitem(o, k) for k in keys)


# md5 as an uninterpreted function: equal inputs give equal digests, and on
# this path different inputs (decided by the solver) give unrelated digests.
class SymHash:
	def __init__(self, name, data=b''):
		self.name = name
		self.data = SymBytes(SymBytes._coerce(data) or ())
		self.digest_size = {'md5': 16, 'sha1': 20, 'sha256': 32}.get(name, 32)

	def update(self, d):
		c = SymBytes._coerce(d)
		if c is None:
			raise TypeError('object supporting the buffer API required')
		self.data = self.data + SymBytes(c)

	def digest(self):
		if self.data.is_concrete():
			return getattr(hashlib, self.name)(self.data.native()).digest()
		E = core.E
		tab = E.inputs.setdefault('__hashes__', [])
		for nm, d, r in tab:
			if nm == self.name and len(d) == len(self.data) and d == self.data:
				return r
		r = SymBytes([SymInt.var(E.fresh_name(self.name), 0, 255) for _ in range(self.digest_size)])
		# recorded relation: E.hash_checks are re-validated by the concrete replay
		tab.append((self.name, self.data, r))
		return r

	def hexdigest(self):
		d = self.digest()
		return SymBytes(SymBytes._coerce(d)).hex() if is_sym(d) else d.hex()

	def copy(self):
		return SymHash(self.name, self.data)


def _mk_hash(name):
	def f(data=b'', **k):
		return SymHash(name, data)
	return f


def m_partial(f, *a, **k):
	return functools.partial(f, *a, **k)


# functions applied only when some argument is symbolic
SYM_MODELS = {
	ord: m_ord, chr: m_chr, bytes: m_bytes, str: m_str, int: m_int, float: m_float, type: m_type,
	range: m_range, sum: m_sum, divmod: m_divmod, abs: m_abs, pow: m_pow, round: m_round,
	repr: m_repr, ascii: m_repr, format: m_format, hex: m_hex, bin: m_bin, oct: m_oct, getattr: m_getattr, hasattr: m_hasattr,
	setattr: m_setattr, memoryview: m_memoryview, slice: m_slice, tuple: m_tuple, list: m_list,
	bool: m_bool, len: m_len, hash: m_hash, isinstance: m_isinstance, enumerate: m_enumerate,
	callable: m_callable, iter: m_iter, reversed: m_reversed, id: m_id, print: m_print,
	issubclass: issubclass, object: object, zip: m_zip, all: m_all, any: m_any, next: m_next,
	frozenset: m_frozenset,
	binascii.hexlify: m_hexlify, binascii.unhexlify: m_unhexlify, binascii.b2a_hex: m_hexlify, binascii.a2b_hex: m_unhexlify,
	struct.pack: structm.pack, struct.unpack: structm.unpack, struct.unpack_from: structm.unpack_from,
	struct.iter_unpack: structm.iter_unpack,
	operator.getitem: lambda o, i: getitem(o, i), operator.contains: lambda o, i: contains(o, i),
	math.floor: lambda x: x.__floor__(), math.ceil: lambda x: x.__ceil__(), math.trunc: lambda x: x.__trunc__(),
	math.modf: reals.modf,
	operator.index: lambda x: x, operator.not_: lambda x: not x,
	operator.mod: lambda a, b: mod(a, b),
	# native functions that only use the proxies' own methods
	itertools.chain: itertools.chain, itertools.count: itertools.count, itertools.repeat: itertools.repeat,
	itertools.cycle: itertools.cycle, itertools.islice: itertools.islice,
	property: property, classmethod: classmethod, staticmethod: staticmethod, functools.partial: functools.partial,
	itertools.zip_longest: itertools.zip_longest, itertools.tee: itertools.tee,
	functools.cmp_to_key: functools.cmp_to_key, super: super,
	ValueError: ValueError, TypeError: TypeError, KeyError: KeyError, IndexError: IndexError, OverflowError: OverflowError,
	RuntimeError: RuntimeError, StopIteration: StopIteration, AttributeError: AttributeError, Exception: Exception,
	OSError: OSError, EOFError: EOFError, LookupError: LookupError, NotImplementedError: NotImplementedError,
	AssertionError: AssertionError, ArithmeticError: ArithmeticError, ImportError: ImportError,
}
for _n in ('add sub mul floordiv neg pos and_ or_ xor invert lshift rshift eq ne lt le gt ge truth concat iadd is_ is_not').split():
	SYM_MODELS[getattr(operator, _n)] = getattr(operator, _n)
SYM_MODELS[operator.is_] = lambda a, b: is_(a, b)
SYM_MODELS[operator.is_not] = lambda a, b: not is_(a, b)

# always replaced
ALWAYS = {
	dict: m_dict, set: m_set, bytearray: m_bytearray, map: m_map, filter: m_filter,
	functools.reduce: m_reduce, min: m_min, max: m_max, sorted: m_sorted, type: m_type,
	io.BytesIO: SxBytesIO, int.from_bytes: None,
	hashlib.md5: _mk_hash('md5'), hashlib.sha256: _mk_hash('sha256'), hashlib.sha1: _mk_hash('sha1'),
	operator.itemgetter: m_itemgetter, io.StringIO: SxStringIO,
	str: m_str, getattr: m_getattr,
	decimal.Decimal: m_decimal,
	datetime.datetime: dt.m_datetime, datetime.date: dt.m_date, datetime.time: dt.m_time, datetime.timedelta: dt.m_timedelta,
}
del ALWAYS[int.from_bytes]

# natively fine with proxies because they only use Python-level protocol
DEQUE_OK = {'append', 'appendleft', 'pop', 'popleft', 'extend', 'extendleft', 'clear', 'rotate', 'remove', 'count',
	'index', 'insert', 'reverse', 'copy', 'sort', 'send', 'throw', 'close', '__next__', '__iter__', '__len__',
	'__init__', '__new__', '__init_subclass__', '__setattr__', '__getattribute__', '__enter__', '__exit__', '__eq__',
	'with_traceback', '__or__', 'setter', 'getter', 'deleter', '__class__', 'add_note'}

EXTRA_FUNCS = {}


def _codec_models():
	from . import codecs_
	import _codecs

	def mk(name, enc, old):
		def f(x, errors='strict', *a):
			if not is_sym(x):
				return old(x, errors, *a)
			x2 = x
			if type(x) is SxMemoryView or type(x) is SxBytearray:
				x2 = SymBytes(x.items)
			return (x2.encode if enc else x2.decode)(name, errors), len(x)
		return f
	import encodings.utf_8
	for name, cn in (('utf_8', 'utf-8'), ('ascii', 'ascii'), ('latin_1', 'latin-1')):
		for enc in (True, False):
			old = getattr(_codecs, name + ('_encode' if enc else '_decode'))
			SYM_MODELS[old] = mk(cn, enc, old)
	EXTRA_FUNCS[encodings.utf_8.decode] = mk('utf-8', False, encodings.utf_8.decode)


_codec_models()


def tick():
	E = core.E
	if E is not None:
		E.ticks += 1
		if E.ticks > E.max_ticks:
			raise core.SxHang()


def call(f, *a, **k):
	t = type(f)
	if t is FunctionType:
		m = EXTRA_FUNCS.get(f)
		if m is not None:
			return m(*a, **k)
		g = f.__globals__
		if '__sx_transformed__' not in g and (any_sym(a, k) or deep_any(a)):
			return foreign(f, a, k)
		return f(*a, **k)
	if t is MethodType:
		fn = f.__func__
		if type(fn) is FunctionType:
			if '__sx_transformed__' not in fn.__globals__ and (any_sym(a, k) or deep_any(a)):
				return foreign(f, a, k)
			return f(*a, **k)
		return f(*a, **k)
	if t is functools.partial:
		kk = dict(f.keywords)
		kk.update(k)
		return call(f.func, *(f.args + a), **kk)
	if isinstance(f, type):
		m = ALWAYS.get(f)
		if m is not None:
			return m(*a, **k)
		if any_sym(a, k):
			m = SYM_MODELS.get(f)
			if m is not None:
				return m(*a, **k)
			if f in (bytes, str):
				return m(*a, **k)
			return call_class(f, a, k)
		if f is bytes and a and deep_any(a):
			return m_bytes(*a, **k)
		if (f is int or f is bool) and len(a) == 1 and not k and type(a[0]).__module__ != 'builtins':
			g = getattr(type(a[0]), '__int__' if f is int else '__bool__', None)
			if isinstance(g, FunctionType):
				r = g(a[0])
				if is_sym(r):
					return r
				return f(r)
		return f(*a, **k)
	if t is BuiltinType or t is BuiltinMethod2:
		s = f.__self__
		ts = type(s)
		if s is None or ts is types.ModuleType:
			m = ALWAYS.get(f)
			if m is not None:
				return m(*a, **k)
			if any_sym(a, k) or deep_any(a, 2):
				m = SYM_MODELS.get(f)
				if m is not None:
					return m(*a, **k)
				if f.__name__ in ('setattr', 'vars', 'dir'):
					return f(*a, **k)
				return fallback(f, a, k)
			return f(*a, **k)
		return builtin_method(f, s, ts, f.__name__, a, k)
	if t is MethodDescr or t is WrapperDescr:
		if a and is_sym(a[0]):
			if not issubclass(a[0].__class__, f.__objclass__):
				raise TypeError("descriptor '%s' requires a '%s' object" % (f.__name__, f.__objclass__.__name__))
			return getattr(a[0], f.__name__)(*a[1:], **k)
		if a:
			oc = f.__objclass__
			if oc in (str, bytes, int, dict, set, bytearray) and (any_sym(a[1:], k) or f.__name__ == 'join'):
				if isinstance(a[0], oc):
					return builtin_method(f.__get__(a[0]), a[0], oc, f.__name__, a[1:], k)
		return f(*a, **k)
	if t is MethodWrapper:
		s = f.__self__
		if any_sym(a, k):
			return builtin_method(f, s, type(s), f.__name__, a, k)
		return f(*a, **k)
	if t.__name__ in ('method_descriptor', 'classmethod_descriptor'):
		return f(*a, **k)
	m = None
	try:
		m = ALWAYS.get(f)
	except TypeError:
		pass
	if m is not None:
		return m(*a, **k)
	if t is operator.itemgetter and a:
		return m_itemgetter(*f.__reduce__()[1])(*a)
	return f(*a, **k)


def builtin_method(f, s, ts, name, a, k):
	if ts is str:
		if name == 'join':
			it = list(a[0])
			if any(is_sym(x) for x in it):
				return _ns(join_seq(s, it).items)
			return s.join(it)
		if name == 'format' or name == 'format_map':
			kw = k if name == 'format' else a[0]
			if deep_any(a) or deep_any(kw):
				return _fmt.str_format(s, a if name == 'format' else (), kw)
			return f(*a, **k)
		if name == '__mod__':
			return mod(s, a[0])
		if name == '__contains__' and is_sym(a[0]):
			return SymStr(tuple(map(ord, s))).__contains__(a[0])
		if any_sym(a, k):
			r = getattr(SymStr(tuple(map(ord, s))), name)(*a, **k)
			return r
		return f(*a, **k)
	if ts is bytes:
		if name == 'join':
			it = list(a[0])
			if any(is_sym(x) for x in it):
				return _nb(join_seq(s, it).items)
			return s.join(it)
		if any_sym(a, k):
			return getattr(SymBytes(tuple(s)), name)(*a, **k)
		return f(*a, **k)
	if ts is Struct:
		if any_sym(a, k) or deep_any(a):
			if name == 'pack':
				return structm.pack(s.format, *a)
			if name == 'unpack':
				return structm.unpack(s.format, *a, **k)
			if name == 'unpack_from':
				return structm.unpack_from(s.format, *a, **k)
			if name == 'iter_unpack':
				return structm.iter_unpack(s.format, *a, **k)
			core.E.unsupported('Struct.' + name)
		return f(*a, **k)
	if ts is Pattern:
		if any_sym(a, k):
			return regex.call(s, name, a, k)
		if name in ('sub', 'subn') and a and callable(a[0]) and not isinstance(a[0], type):
			# the replacement function may return symbolic text
			return regex.call(s, name, a, k)
		return f(*a, **k)
	if ts is SxDict or ts is SxSet or ts is SxKeys:
		return f(*a, **k)
	if issubclass(ts, dict):
		if a and deep_sym(a[0]) and name in ('get', '__getitem__', '__contains__', 'setdefault', 'pop', '__setitem__'):
			if name == 'get':
				return lookup(s, a[0], a[1] if len(a) > 1 else None)
			if name == '__getitem__':
				return lookup(s, a[0])
			if name == '__contains__':
				return contains(s, a[0])
			key = native_key(a[0])
			if not deep_sym(key):
				return f(key, *a[1:], **k)
			core.E.unsupported('dict.%s with a symbolic key' % name)
		return f(*a, **k)
	if issubclass(ts, (set, frozenset)):
		if a and deep_any(a[0], 1):
			if name == '__contains__':
				return contains(s, a[0])
			if name in ('union', 'difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint'):
				return getattr(SxSet(s), name)(*a)
			core.E.unsupported('set.%s with a symbolic element' % name)
		return f(*a, **k)
	if ts is type or isinstance(s, type):
		# class methods of builtin types
		if s is int and name == 'from_bytes':
			if any_sym(a, k) or deep_any(a):
				return m_int_from_bytes(*a, **k)
		if s is bytes and name == 'fromhex' and any_sym(a, k):
			return m_bytes_fromhex(*a)
		if s is dict and name == 'fromkeys':
			return SxDict.fromkeys(*a)
		if s is str and name == 'maketrans':
			if any_sym(a, k):
				core.E.unsupported('maketrans on symbolic text')
			return f(*a, **k)
		if any_sym(a, k):
			if name in DEQUE_OK:
				return f(*a, **k)
			m = dt.CLASSMETHODS.get((s, name))
			if m is not None:
				return m(*a, **k)
			return fallback(f, a, k)
		return f(*a, **k)
	if any_sym(a, k) or (issubclass(ts, dt.NATIVE) and deep_any(a)):
		if issubclass(ts, dt.NATIVE):
			return dt.native_method(s, name, a, k)
		if ts is int:
			if name == 'to_bytes':
				return f(*concretize(list(a)), **k)
			if name.startswith('__'):
				r = getattr(operator, name.strip('_'), None)
				if r is not None:
					return r(s, *a)
		if issubclass(ts, (list, tuple)):
			if name in ('insert', 'pop') and a and type(a[0]) is SymInt:
				a = (fork_index(a[0], len(s)),) + tuple(a[1:])
			if name in DEQUE_OK or name in ('__contains__', '__getitem__', '__setitem__', '__delitem__'):
				if name == 'sort' and k.get('key') is not None:
					k['key'] = _wrapf(k['key'])
				return f(*a, **k)
		if name in DEQUE_OK:
			return f(*a, **k)
		return fallback(f, a, k)
	return f(*a, **k)


def call_class(f, a, k):
	"""f is a class, some argument symbolic"""
	mod = sys.modules.get(f.__module__)
	if f.__module__ in TRANSFORMED or getattr(mod, '__sx_transformed__', False):
		return f(*a, **k)
	if issubclass(f, BaseException):
		return f(*a, **k)
	if issubclass(f, (tuple, list)) and f.__module__ not in sys.stdlib_module_names:
		return f(*a, **k)
	if f.__module__ in ('collections', 'types', 'itertools', 'weakref', 'threading', '_thread'):
		return f(*a, **k)
	return fallback(f, a, k)


TRANSFORMED = set()
ALLOWED_FOREIGN = {'collections', 'contextlib', 'abc', 'functools', 'types', 'weakref', 'threading', 'copy', 'enum',
	'_collections_abc', 'collections.abc', 'warnings'}


def foreign(f, a, k):
	"""A Python function outside the rewritten modules is given symbolic data."""
	name = f.__module__ or '?'
	if name in ('re', 're.__init__') or f.__globals__ is re.__dict__:
		return re_function(f, a, k)
	if name in ALLOWED_FOREIGN:
		return f(*a, **k)
	if name in ('textwrap', 'operator'):
		pass
	return fallback(f, a, k)


def re_function(f, a, k):
	nm = f.__name__
	if nm == 'escape':
		s = a[0]
		if is_sym(s):
			out = []
			special = set(b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f')
			for x in s.items:
				if sor(*[elem_eq(x, y) for y in special]):
					out.append(92)
				out.append(x)
			return SymStr(out)
	if is_sym(a[0]):
		pat = concretize(a[0])
	else:
		pat = a[0]
	if nm in ('sub', 'subn'):
		cnt = a[3] if len(a) > 3 else k.get('count', 0)
		fl = a[4] if len(a) > 4 else k.get('flags', 0)
		return regex.call(re.compile(pat, fl), nm, (a[1], a[2], cnt), {})
	if nm == 'split':
		ms = a[2] if len(a) > 2 else k.get('maxsplit', 0)
		fl = a[3] if len(a) > 3 else k.get('flags', 0)
		return regex.call(re.compile(pat, fl), nm, (a[1], ms), {})
	if nm in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
		fl = a[2] if len(a) > 2 else k.get('flags', 0)
		return regex.call(re.compile(pat, fl), nm, (a[1],), {})
	core.E.unsupported('re.' + nm)


# ------------------------------------------------------------ operators

def getitem(o, i):
	to = type(o)
	if issubclass(to, Sym):
		return o[i]
	ti = type(i)
	if ti is slice:
		if issubclass(to, (list, tuple, str, bytes, bytearray)) and (
				is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
			i = norm_slice(i, len(o))
		return o[i]
	if ti is SymInt and issubclass(to, (list, tuple, str, bytes, bytearray, range)):
		if to is bytes or to is str or to is list or to is tuple:
			j = table_lookup(o, i)
			if j is not None:
				return j[0]
		return o[fork_index(i, len(o))]
	if issubclass(to, dict) and to is not SxDict and deep_sym(i):
		if to.__getitem__ is dict.__getitem__:
			return lookup(o, i)
		return o[i]
	return o[i]


def table_lookup(o, i):
	"""ite over a concrete table of ints (no fork)"""
	n = len(o)
	if n == 0 or n > 300 or i.lo < 0 or i.hi >= n:
		return None
	if all(type(x) is int for x in o):
		r = o[i.hi]
		for v in range(i.hi - 1, i.lo - 1, -1):
			if o[v] != r or type(r) is not int:
				r = SymInt.ite(as_zbool(i == v), o[v], r)
		return (r,)
	if type(o) is str:
		r = ord(o[i.hi])
		for v in range(i.hi - 1, i.lo - 1, -1):
			r = SymInt.ite(as_zbool(i == v), ord(o[v]), r)
		return (_ns((r,)),)
	if all(type(x) is bytes for x in o) and len(set(map(len, o))) == 1:
		L = len(o[0])
		out = []
		for p in range(L):
			tab = [x[p] for x in o]
			if all(tab[v] == v for v in range(i.lo, i.hi + 1)):
				out.append(i)
				continue
			r = tab[i.hi]
			for v in range(i.hi - 1, i.lo - 1, -1):
				r = SymInt.ite(as_zbool(i == v), tab[v], r)
			out.append(r)
		return (_nb(out),)
	return None


def in_(a, b):
	"""a in b"""
	tb = type(b)
	if issubclass(tb, Sym):
		return b.__contains__(a)
	if tb is SxDict or tb is SxSet:
		return b.__contains__(a)
	if is_sym(a):
		if tb is str:
			if not isinstance(a, str):
				raise TypeError("'in <string>' requires string as left operand")
			if len(a) == 1:
				return bool(sor(*[elem_eq(a.items[0], ord(c)) for c in b]))
			return SymStr(tuple(map(ord, b))).__contains__(a)
		if tb is bytes:
			if isinstance(a, int):
				return bool(sor(*[elem_eq(a, c) for c in b]))
			return SymBytes(tuple(b)).__contains__(a)
		if issubclass(tb, (dict, set, frozenset)):
			return contains(b, a)
		if tb is range:
			if type(a) is SymInt:
				if b.step == 1:
					return bool(sand(a >= b.start, a < b.stop))
				return bool(sor(*[a == x for x in b]))
		if tb in (list, tuple):
			cs = []
			for x in b:
				if x is a:
					return True
				c = a == x
				if c is True:
					return True
				cs.append(c)
			return bool(sor(*cs))
		return a in b
	if type(a) is tuple and issubclass(tb, (dict, set, frozenset)) and deep_sym(a):
		return contains(b, a)
	return a in b


def is_(a, b):
	ta = type(a)
	tb = type(b)
	if ta is SymBool or tb is SymBool:
		if ta is SymBool:
			if not isinstance(b, bool):
				return False
			a = bool(a)
		if type(b) is SymBool:
			if type(a) is not bool:
				return False
			b = bool(b)
		return a is b
	if ta is SymInt or tb is SymInt:
		if isinstance(a, int) and isinstance(b, int) and type(a) is not bool and type(b) is not bool:
			return a is b or bool(a == b)
		return False
	return a is b


def mod(a, b):
	if isinstance(a, (str, bytes)):
		if is_sym(a) or deep_any(b):
			r = _fmt.percent(a, b)
			return r.native() if is_sym(r) and r.is_concrete() else r
		if isinstance(a, str) and type(b) is SxDict:
			return a % b
	return a % b


def fstr(*parts):
	return _fmt.fstr(parts)


def mkdict(*pairs):
	d = SxDict()
	for p in pairs:
		if len(p) == 1:
			d.update(p[0])
		else:
			d[p[0]] = p[1]
	return d


def mkset(it):
	return SxSet(it)


def mkdict_iter(it):
	d = SxDict()
	for k, v in it:
		d[k] = v
	return d

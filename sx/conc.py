"""The same context on concrete values: replays and validates paths on the
unmodified code.  Runs under any Python; no solver here."""
import sys
import datetime
from fractions import Fraction
from decimal import Decimal


class AssumeFailed(BaseException):
	pass


class CheckFailed(BaseException):
	def __init__(self, label):
		self.label = label


class BoundHit(BaseException):
	pass


def dec(v, kind):
	if isinstance(v, str):
		if v.startswith('b:'):
			return bytes.fromhex(v[2:])
		if v.startswith('s:'):
			return v[2:]
		if v.startswith('f:'):
			return float(v[2:])
	return v


def canon_dt(x):
	if isinstance(x, datetime.timedelta):
		return ['td', x.days, x.seconds, x.microseconds]
	if isinstance(x, datetime.datetime):
		return ['dt', x.toordinal(), x.hour * 3600 + x.minute * 60 + x.second, x.microsecond]
	if isinstance(x, datetime.date):
		return ['date', x.toordinal()]
	return ['time', x.hour, x.minute, x.second, x.microsecond]


def canon(x):
	t = type(x)
	if t is bool or x is None or t is int:
		return x
	if isinstance(x, (datetime.date, datetime.time, datetime.timedelta)):
		return canon_dt(x)
	if t is Decimal:
		t = x.as_tuple()
		return ['D', t.sign, list(t.digits), t.exponent]
	if t is float:
		return 'f:' + repr(x)
	if isinstance(x, (bytes, bytearray, memoryview)):
		return 'b:' + bytes(x).hex()
	if isinstance(x, str):
		return 's:' + x
	if isinstance(x, dict):
		return ['d'] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
	if isinstance(x, (set, frozenset)):
		return ['S'] + sorted((canon(k) for k in x), key=repr)
	if isinstance(x, (list, tuple)):
		return [canon(y) for y in x]
	if isinstance(x, type):
		return 'type:' + x.__name__
	if isinstance(x, BaseException):
		return 'exc:' + t.__name__
	if isinstance(x, int):
		return int(x)
	return 'obj:' + t.__name__


class ConcCtx:
	symbolic = False

	def __init__(self, values, known=()):
		self.v = values
		self.obs = []
		self.reached = {}
		self.known_keys = known

	def _get(self, name):
		if name not in self.v:
			raise BoundHit('input %s not given' % name)
		return dec(self.v[name], None)

	def int(self, name, lo, hi):
		v = self._get(name)
		if not lo <= v <= hi:
			raise AssumeFailed(name)
		return v

	def bool(self, name):
		return self._get(name)

	def bytes(self, name, n):
		return self._get(name)

	def str(self, name, n, lo=1, hi=0xFF, alphabet=None):
		return self._get(name)

	def float_bits(self, name, fmt='d'):
		return self._get(name)

	def choose(self, name, options):
		i = self._get(name)
		return i if isinstance(options, int) else options[i]

	def assume(self, c):
		if not c:
			raise AssumeFailed('assume')

	def check(self, c, label):
		if not c:
			raise CheckFailed(label)

	def fail(self, label):
		raise CheckFailed(label)

	def reach(self, label):
		self.reached[label] = 1

	def observe(self, key, v):
		self.obs.append((key, v))

	def pin(self, x):
		return x

	def known(self, key):
		return key in self.known_keys

	def bound(self, why='bound'):
		raise BoundHit(why)

	def same(self, a, b):
		if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
			return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
		if isinstance(a, (bytes, bytearray, memoryview)) != isinstance(b, (bytes, bytearray, memoryview)):
			return False
		if isinstance(a, bool) != isinstance(b, bool):
			return False
		if isinstance(a, float) and isinstance(b, float):
			import struct
			return struct.pack('d', a) == struct.pack('d', b)
		return bool(a == b)

	def all(self, *cs):
		return all(cs)

	def any(self, *cs):
		return any(cs)

	def neg(self, c):
		return not c

	def implies(self, a, b):
		return (not a) or bool(b)

	def ite(self, c, a, b):
		return a if c else b

	def exact(self, x):
		return Fraction(x)

	def is_symbolic(self, x):
		return False

	def optimized(self):
		"""the extension built from the current C source"""
		return extension()

	def extended(self, *names):
		"""the named modules, using the extension"""
		from . import variant
		return variant.load(self, names)

	def leakfree(self, f):
		import ctypes
		import gc
		size = ctypes.CDLL(None)['__sanitizer_get_current_allocated_bytes']
		size.restype = ctypes.c_size_t

		def many(n):
			obs = list(self.obs)
			for i in range(n):
				f()
				self.obs[:] = obs
			gc.collect()
			return size()
		r = f()
		obs = list(self.obs)
		many(20)
		a = many(20)
		grown = min(many(200) - a, many(200) - a)
		self.obs[:] = obs
		if grown > 200 * 8:
			raise CheckFailed('memory: not released')
		return r

	def release(self, o):
		"""drop the last reference; the caller holds none other than in `o`"""
		o.clear()


_ext = None


def extension():
	global _ext
	if _ext is None:
		import os
		import importlib.util
		n = 'postgresql.port.optimized'
		import postgresql.port
		spec = importlib.util.spec_from_file_location(n, os.environ['VERIF_NATIVE'])
		_ext = importlib.util.module_from_spec(spec)
		spec.loader.exec_module(_ext)
	return _ext


class Hang(BaseException):
	pass


def limit_cpu(seconds):
	import signal

	def ring(*a):
		raise Hang
	try:
		signal.signal(signal.SIGPROF, ring)
		signal.setitimer(signal.ITIMER_PROF, seconds)
	except ValueError:
		# not the main thread
		pass


def run(fn, params, values, known=()):
	"""-> dict(status, label, obs)"""
	import traceback
	c = ConcCtx(values, known)
	limit_cpu(20)
	try:
		fn(c, **params)
	except Hang:
		return {'status': 'violation', 'label': 'does not end'}
	except CheckFailed as e:
		return {'status': 'violation', 'label': e.label}
	except AssumeFailed as e:
		return {'status': 'assume', 'label': str(e)}
	except BoundHit as e:
		return {'status': 'bound', 'label': str(e)}
	except Exception as e:
		return {'status': 'exception', 'label': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-3000:]}
	finally:
		limit_cpu(0)
	return {'status': 'ok', 'obs': [[k, canon(v)] for k, v in c.obs]}

"""dict / set / bytearray / BytesIO that accept symbolic keys and contents."""
from . import core
from .values import (is_sym, Sym, SymInt, SymBool, SymSeq, SymBytes, SymStr, sand, sor, as_zbool, elem_eq, norm_slice, fork_index)

__sx_transformed__ = True

_missing = object()


def deep_sym(k):
	if is_sym(k):
		return True
	if type(k) in (tuple, frozenset):
		return any(deep_sym(x) for x in k)
	if isinstance(k, tuple):
		return any(deep_sym(x) for x in k)
	return False


def native_key(k):
	"""Turn fully concrete proxies into native values."""
	if isinstance(k, SymSeq) and k.is_concrete():
		return k.native()
	if type(k) is SymBool:
		return bool(k)
	if type(k) is tuple:
		return tuple(native_key(x) for x in k)
	return k


def keys_eq(a, b):
	"""dict key equality (forks)"""
	if a is b:
		return True
	ta = a.__class__
	tb = b.__class__
	if ta is not tb and (ta in (str, bytes) or tb in (str, bytes)):
		return False
	return bool(a == b)


def lookup(d, k, default=_missing):
	k = native_key(k)
	if not deep_sym(k) and not (isinstance(d, SxDict) and d._assoc is not None):
		r = dict.get(d, k, _missing) if isinstance(d, dict) else d.get(k, _missing)
		if r is not _missing:
			return r
	else:
		ents = list(d.items())
		if len(ents) > 8:
			r = merged_lookup(ents, k)
			if r is not None:
				if r is not _missing:
					return r[0]
				ents = ()
		for x, v in ents:
			if keys_eq(x, k):
				return v
	if default is _missing:
		if isinstance(d, dict) and hasattr(type(d), '__missing__'):
			return type(d).__missing__(d, k)
		raise KeyError(k)
	return default


def merged_lookup(ents, k):
	"""big concrete tables: one fork per shape of the value, not one per entry.
	-> None not applicable, _missing no entry, (value,)"""
	tk = type(k)
	if tk is SymInt:
		kt = int
	elif tk is SymStr:
		kt = str
	elif tk is SymBytes:
		kt = bytes
	else:
		return None
	groups = {}
	for x, v in ents:
		if type(x) is bool or type(v) not in (int, str, bytes) or is_sym(x):
			return None
		if type(x) is not kt:
			continue
		if kt is not int and len(x) != len(k):
			continue
		groups.setdefault((type(v), -1 if type(v) is int else len(v)), []).append((x, v))
	for (tv, n), g in groups.items():
		conds = [(k == x, v) for x, v in g]
		hit = in_ints(k, [x for x, v in g]) if kt is int else sor(*[c for c, v in conds])
		if not hit:
			continue
		conds = [(c, v) for c, v in conds if c is not False]
		if tv is int:
			return (ite_table(conds, k, g),)
		out = [ite_table([(c, v[p] if tv is bytes else ord(v[p])) for c, v in conds], k,
			[(x, v[p] if tv is bytes else ord(v[p])) for x, v in g]) for p in range(n)]
		return (mkbytes(out) if tv is bytes else mkstr(out),)
	return _missing


def in_ints(k, xs):
	xs = sorted(xs)
	rs = []
	for x in xs:
		if rs and rs[-1][1] == x - 1:
			rs[-1][1] = x
		else:
			rs.append([x, x])
	return sor(*[sand(k >= a, k <= b) for a, b in rs])


def ite_table(conds, k, g):
	if type(k) is SymInt and all(x == v for x, v in g):
		vs = [v for x, v in g]
		return SymInt.make(k.e, max(k.lo, min(vs)), min(k.hi, max(vs)))
	r = conds[-1][1]
	for c, v in reversed(conds[:-1]):
		if v is r:
			continue
		r = SymInt.ite(as_zbool(c), v, r)
	return r


class SxDict(dict):
	"""A dict; switches to an association list once a symbolic key is stored."""
	_assoc = None

	@property
	def __class__(self):
		t = type(self)
		return dict if t is SxDict else t

	def __init__(self, *a, **kw):
		dict.__init__(self)
		if len(a) > 1:
			raise TypeError('dict expected at most 1 argument, got %d' % len(a))
		self.update(*a, **kw)

	def _go_assoc(self):
		if self._assoc is None:
			self._assoc = [[k, v] for k, v in dict.items(self)]
			dict.clear(self)

	def _find(self, k):
		for ent in self._assoc:
			if keys_eq(ent[0], k):
				return ent
		return None

	def __getitem__(self, k):
		k = native_key(k)
		if self._assoc is None and not deep_sym(k):
			return dict.__getitem__(self, k)
		return lookup(self, k)

	def __setitem__(self, k, v):
		k = native_key(k)
		if self._assoc is None:
			if not deep_sym(k):
				dict.__setitem__(self, k, v)
				return
			for x in dict.keys(self):
				if keys_eq(x, k):
					dict.__setitem__(self, x, v)
					return
			self._go_assoc()
			self._assoc.append([k, v])
			return
		ent = self._find(k)
		if ent is None:
			self._assoc.append([k, v])
		else:
			ent[1] = v

	def __delitem__(self, k):
		k = native_key(k)
		if self._assoc is None and not deep_sym(k):
			dict.__delitem__(self, k)
			return
		if self._assoc is None:
			for x in dict.keys(self):
				if keys_eq(x, k):
					dict.__delitem__(self, x)
					return
			raise KeyError(k)
		ent = self._find(k)
		if ent is None:
			raise KeyError(k)
		self._assoc = [x for x in self._assoc if x is not ent]

	def __contains__(self, k):
		k = native_key(k)
		if self._assoc is None and not deep_sym(k):
			return dict.__contains__(self, k)
		return lookup(self, k, None if False else _nokey) is not _nokey

	def get(self, k, default=None):
		k = native_key(k)
		if self._assoc is None and not deep_sym(k):
			return dict.get(self, k, default)
		return lookup(self, k, default)

	def setdefault(self, k, default=None):
		r = self.get(k, _nokey)
		if r is _nokey:
			self[k] = default
			return default
		return r

	def pop(self, k, *default):
		r = self.get(k, _nokey)
		if r is _nokey:
			if default:
				return default[0]
			raise KeyError(k)
		del self[k]
		return r

	def popitem(self):
		if self._assoc is None:
			return dict.popitem(self)
		if not self._assoc:
			raise KeyError('popitem(): dictionary is empty')
		k, v = self._assoc.pop()
		return (k, v)

	def clear(self):
		dict.clear(self)
		self._assoc = None

	def update(self, *a, **kw):
		if a:
			o = a[0]
			if hasattr(o, 'keys'):
				for k in list(o.keys()):
					self[k] = o[k]
			else:
				for k, v in o:
					self[k] = v
		for k, v in kw.items():
			self[k] = v

	def _pairs(self):
		if self._assoc is None:
			return list(dict.items(self))
		return [(k, v) for k, v in self._assoc]

	def keys(self):
		if self._assoc is None:
			return dict.keys(self)
		return SxKeys([k for k, v in self._assoc])

	def values(self):
		if self._assoc is None:
			return dict.values(self)
		return [v for k, v in self._assoc]

	def items(self):
		if self._assoc is None:
			return dict.items(self)
		return SxKeys([(k, v) for k, v in self._assoc])

	def __iter__(self):
		if self._assoc is None:
			return dict.__iter__(self)
		return iter([k for k, v in self._assoc])

	def __reversed__(self):
		return reversed(list(iter(self)))

	def __len__(self):
		return dict.__len__(self) if self._assoc is None else len(self._assoc)

	def __bool__(self):
		return len(self) > 0

	def copy(self):
		return SxDict(self._pairs())

	def __eq__(self, o):
		if not isinstance(o, dict):
			return NotImplemented
		if self._assoc is None and getattr(o, '_assoc', None) is None:
			# values may still be symbolic: compare piecewise
			if dict.__len__(self) != len(o):
				return False
			for k, v in dict.items(self):
				if not dict.__contains__(o, k):
					return False
				if not (v is dict.__getitem__(o, k) or v == dict.__getitem__(o, k)):
					return False
			return True
		if len(self) != len(o):
			return False
		for k, v in self._pairs():
			w = lookup(o, k, _nokey)
			if w is _nokey or not (v == w):
				return False
		return True

	def __ne__(self, o):
		r = self.__eq__(o)
		return r if r is NotImplemented else not r

	__hash__ = None

	def __or__(self, o):
		r = self.copy()
		r.update(o)
		return r

	def __ror__(self, o):
		r = SxDict(o)
		r.update(self)
		return r

	def __ior__(self, o):
		self.update(o)
		return self

	def __repr__(self):
		return '{' + ', '.join('%r: %r' % x for x in self._pairs()) + '}'

	@classmethod
	def fromkeys(cls, it, v=None):
		d = SxDict()
		for k in it:
			d[k] = v
		return d


_nokey = object()


class SxKeys(list):
	"""keys()/items() view of a dict with symbolic keys"""

	def _set(self):
		return SxSet(self)

	def __sub__(self, o):
		return self._set() - o

	def __and__(self, o):
		return self._set() & o

	def __or__(self, o):
		return self._set() | o

	def isdisjoint(self, o):
		return self._set().isdisjoint(o)


class SxSet(set):
	"""A set; an association list once a symbolic element is added."""
	_list = None

	def __init__(self, it=()):
		set.__init__(self)
		for x in it:
			self.add(x)

	@property
	def __class__(self):
		return set

	def _go(self):
		if self._list is None:
			self._list = list(set.__iter__(self))
			set.clear(self)

	def add(self, x):
		x = native_key(x)
		if self._list is None:
			if not deep_sym(x):
				set.add(self, x)
				return
			self._go()
		for y in self._list:
			if keys_eq(y, x):
				return
		self._list.append(x)

	def _has(self, x):
		x = native_key(x)
		if self._list is None:
			if not deep_sym(x):
				return set.__contains__(self, x)
			for y in set.__iter__(self):
				if keys_eq(y, x):
					return True
			return False
		for y in self._list:
			if keys_eq(y, x):
				return True
		return False

	def __contains__(self, x):
		return self._has(x)

	def __iter__(self):
		return set.__iter__(self) if self._list is None else iter(list(self._list))

	def __len__(self):
		return set.__len__(self) if self._list is None else len(self._list)

	def __bool__(self):
		return len(self) > 0

	def discard(self, x):
		x = native_key(x)
		if self._list is None and not deep_sym(x):
			set.discard(self, x)
			return
		self._go()
		for i, y in enumerate(self._list):
			if keys_eq(y, x):
				del self._list[i]
				return

	def remove(self, x):
		if not self._has(x):
			raise KeyError(x)
		self.discard(x)

	def pop(self):
		if self._list is None:
			return set.pop(self)
		if not self._list:
			raise KeyError('pop from an empty set')
		return self._list.pop()

	def clear(self):
		set.clear(self)
		self._list = None

	def update(self, *its):
		for it in its:
			for x in list(it):
				self.add(x)

	def difference_update(self, *its):
		for it in its:
			for x in list(it):
				self.discard(x)

	def intersection_update(self, *its):
		r = self.intersection(*its)
		self.clear()
		self.update(r)

	def union(self, *its):
		r = SxSet(self)
		r.update(*its)
		return r

	def difference(self, *its):
		r = SxSet(self)
		r.difference_update(*its)
		return r

	def intersection(self, *its):
		r = SxSet(self)
		for it in its:
			o = it if isinstance(it, (set, frozenset, dict)) else SxSet(it)
			r = SxSet([x for x in r if contains(o, x)])
		return r

	def symmetric_difference(self, o):
		o = SxSet(o)
		return self.difference(o).union(o.difference(self))

	def _sets(self, o):
		return isinstance(o, (set, frozenset)) or type(o).__name__ in ('SxKeys', 'dict_keys', 'dict_items')

	def __or__(self, o):
		return self.union(o) if self._sets(o) else NotImplemented
	__ror__ = __or__

	def __and__(self, o):
		return self.intersection(o) if self._sets(o) else NotImplemented
	__rand__ = __and__

	def __sub__(self, o):
		return self.difference(o) if self._sets(o) else NotImplemented

	def __rsub__(self, o):
		return SxSet(o).difference(self) if self._sets(o) else NotImplemented

	def __xor__(self, o):
		return self.symmetric_difference(o) if self._sets(o) else NotImplemented
	__rxor__ = __xor__

	def __ior__(self, o):
		self.update(o)
		return self

	def __isub__(self, o):
		self.difference_update(o)
		return self

	def __iand__(self, o):
		self.intersection_update(o)
		return self

	def issubset(self, o):
		o = o if isinstance(o, (set, frozenset, dict)) else SxSet(o)
		return all(contains(o, x) for x in self)

	def issuperset(self, o):
		return all(self._has(x) for x in o)

	def isdisjoint(self, o):
		return not any(self._has(x) for x in o)

	def __le__(self, o):
		return self.issubset(o)

	def __ge__(self, o):
		return self.issuperset(o)

	def __lt__(self, o):
		return len(self) < len(o) and self.issubset(o)

	def __gt__(self, o):
		return len(self) > len(o) and self.issuperset(o)

	def __eq__(self, o):
		if not isinstance(o, (set, frozenset)):
			return NotImplemented
		return len(self) == len(o) and self.issubset(o)

	def __ne__(self, o):
		r = self.__eq__(o)
		return r if r is NotImplemented else not r

	__hash__ = None

	def copy(self):
		return SxSet(self)


def contains(o, x):
	"""x in o for native and symbolic containers"""
	if isinstance(o, SxDict) or isinstance(o, SxSet):
		return o.__contains__(x)
	x = native_key(x)
	if isinstance(o, (dict, set, frozenset)) and deep_sym(x):
		for y in list(o):
			if keys_eq(y, x):
				return True
		return False
	return x in o


class SxBytearray(Sym):
	"""bytearray"""
	__slots__ = ('items',)

	def __init__(self, src=(), *a):
		if isinstance(src, str):
			src = src.encode(*a)
		if isinstance(src, int):
			self.items = [0] * int(src)
		else:
			b = SymBytes._coerce(src)
			if b is None:
				b = list(src)
				for x in b:
					if not sand(x >= 0, x <= 255):
						raise ValueError('byte must be in range(0, 256)')
			self.items = list(b)

	@property
	def __class__(self):
		return bytearray

	__hash__ = None

	def _b(self):
		return SymBytes(self.items)

	def __len__(self):
		return len(self.items)

	def __bool__(self):
		return len(self.items) > 0

	def __iter__(self):
		return iter(list(self.items))

	def __getitem__(self, i):
		n = len(self.items)
		if isinstance(i, slice):
			return SxBytearray(SymBytes(self.items[norm_slice(i, n)]))
		j = fork_index(i, n)
		if not -n <= j < n:
			raise IndexError('bytearray index out of range')
		return self.items[j]

	def __setitem__(self, i, v):
		n = len(self.items)
		if isinstance(i, slice):
			b = SymBytes._coerce(v)
			self.items[norm_slice(i, n)] = list(v) if b is None else list(b)
			return
		j = fork_index(i, n)
		if not -n <= j < n:
			raise IndexError('bytearray index out of range')
		self.items[j] = v

	def __delitem__(self, i):
		n = len(self.items)
		if isinstance(i, slice):
			del self.items[norm_slice(i, n)]
			return
		j = fork_index(i, n)
		if not -n <= j < n:
			raise IndexError('bytearray index out of range')
		del self.items[j]

	def append(self, x):
		self.items.append(x)

	def extend(self, o):
		b = SymBytes._coerce(o)
		self.items.extend(list(o) if b is None else b)

	def insert(self, i, x):
		self.items.insert(int(i), x)

	def pop(self, i=-1):
		return self.items.pop(int(i))

	def clear(self):
		self.items = []

	def reverse(self):
		self.items.reverse()

	def copy(self):
		return SxBytearray(self._b())

	def __iadd__(self, o):
		b = SymBytes._coerce(o)
		if b is None:
			raise TypeError("can't concat")
		self.items.extend(b)
		return self

	def __add__(self, o):
		b = SymBytes._coerce(o)
		if b is None:
			return NotImplemented
		return SxBytearray(SymBytes(tuple(self.items) + tuple(b)))

	def __radd__(self, o):
		b = SymBytes._coerce(o)
		if b is None:
			return NotImplemented
		return SymBytes(tuple(b) + tuple(self.items))

	def __mul__(self, n):
		return SxBytearray(self._b() * n)

	def __eq__(self, o):
		return self._b().__eq__(o)

	def __ne__(self, o):
		return self._b().__ne__(o)

	def __contains__(self, x):
		return x in self._b()

	def __getattr__(self, name):
		return getattr(SymBytes(self.items), name)


class SxMemoryView(Sym):
	"""memoryview over immutable bytes or a bytearray"""
	__slots__ = ('_items', 'obj', 'off', 'size')

	def __init__(self, src):
		if type(src) is SxMemoryView:
			self._items, self.obj, self.off, self.size = src._items, src.obj, src.off, src.size
		else:
			b = SymBytes._coerce(src)
			if b is None:
				raise TypeError('memoryview: a bytes-like object is required')
			self._items = tuple(b)
			self.obj = src
			self.off = 0
			self.size = len(self._items)

	@property
	def items(self):
		if type(self.obj) is SxBytearray:
			# what the array has by now
			return tuple(self.obj.items[self.off:self.off + self.size])
		return self._items

	@property
	def __class__(self):
		return memoryview

	__hash__ = None

	@property
	def nbytes(self):
		return len(self.items)

	def __len__(self):
		return len(self.items)

	def __bool__(self):
		return len(self.items) > 0

	def __iter__(self):
		return iter(self.items)

	def __getitem__(self, i):
		n = len(self.items)
		if isinstance(i, slice):
			s = norm_slice(i, n)
			m = SxMemoryView(self)
			m._items = self.items[s]
			a, z, st = s.indices(n)
			m.off = self.off + a
			m.size = len(m._items)
			if st != 1:
				m.obj = None
			return m
		j = fork_index(i, n)
		if not -n <= j < n:
			raise IndexError('index out of bounds')
		return self.items[j]

	def __setitem__(self, i, v):
		o = self.obj
		if type(o) is not SxBytearray:
			raise TypeError('cannot modify read-only memory')
		n = len(self.items)
		b = SymBytes._coerce(v)
		if isinstance(i, slice):
			a, z, st = norm_slice(i, n).indices(n)
			if z - a != len(b):
				raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
			o.items[self.off + a:self.off + z] = list(b)
		else:
			o.items[self.off + fork_index(i, n)] = v

	def tobytes(self):
		return SymBytes(self.items)

	def release(self):
		pass

	def __enter__(self):
		return self

	def __exit__(self, *a):
		pass

	def __eq__(self, o):
		return SymBytes(self.items).__eq__(o)

	def __ne__(self, o):
		return SymBytes(self.items).__ne__(o)

	def tolist(self):
		return list(self.items)


class SxBytesIO:
	"""io.BytesIO"""

	def __init__(self, initial=b''):
		self._d = list(SymBytes._coerce(initial) if initial is not None else ())
		self._p = 0
		self.closed = False

	def write(self, b):
		d = SymBytes._coerce(b)
		if d is None:
			raise TypeError('a bytes-like object is required')
		if type(self._p) is SymInt:
			self._p = int(self._p)
		if self._p > len(self._d):
			self._d.extend([0] * (self._p - len(self._d)))
		self._d[self._p:self._p + len(d)] = list(d)
		self._p += len(d)
		return len(d)

	def writelines(self, it):
		for x in it:
			self.write(x)

	def read(self, n=-1):
		if n is None:
			n = -1
		if type(self._p) is SymInt:
			if self._p >= len(self._d):
				return b''
			self._p = int(self._p)
		avail = max(0, len(self._d) - self._p)
		if type(n) is SymInt:
			if n < 0:
				n = -1
			elif n >= avail:
				n = avail
			else:
				n = int(n)
		if n < 0:
			n = avail
		r = self._d[self._p:self._p + n]
		self._p += len(r)
		return mkbytes(r)

	read1 = read

	def readinto(self, buf):
		r = self.read(len(buf))
		buf[0:len(r)] = r
		return len(r)

	def readline(self, n=-1):
		core.E.unsupported('BytesIO.readline')

	def getvalue(self):
		return mkbytes(self._d)

	def getbuffer(self):
		return SxMemoryView(mkbytes(self._d))

	def tell(self):
		return self._p

	def seek(self, off, whence=0):
		if whence == 0:
			if off < 0:
				raise ValueError('negative seek value')
		elif whence == 1:
			off = self._p + off
		else:
			off = len(self._d) + off
		if type(off) is SymInt:
			if off < 0:
				off = 0
			elif not off > len(self._d):
				off = int(off)
		self._p = off if type(off) is SymInt else max(0, off)
		return self._p

	def truncate(self, size=None):
		if size is None:
			size = self._p
		size = int(size)
		if size < 0:
			raise ValueError('negative size value')
		del self._d[size:]
		return size

	def close(self):
		self.closed = True

	def flush(self):
		pass

	def readable(self):
		return True
	writable = seekable = readable

	def __enter__(self):
		return self

	def __exit__(self, *a):
		self.close()


class SxStringIO:
	"""io.StringIO (no newline translation: newline='\\n')"""

	def __init__(self, initial='', newline='\n'):
		self._d = list(SymStr._coerce(initial)) if initial else []
		self._p = 0

	def write(self, s):
		d = SymStr._coerce(s)
		if d is None:
			raise TypeError('string argument expected')
		self._d[self._p:self._p + len(d)] = list(d)
		self._p += len(d)
		return len(d)

	def read(self, n=-1):
		if n is None or n < 0:
			n = len(self._d)
		r = self._d[self._p:self._p + int(n)]
		self._p += len(r)
		return mkstr(r)

	def getvalue(self):
		return mkstr(self._d)

	def readline(self, n=-1):
		i = self._p
		while i < len(self._d):
			i += 1
			if elem_eq(self._d[i - 1], 10):
				break
		r = self._d[self._p:i]
		self._p = i
		return mkstr(r)

	def __iter__(self):
		while True:
			l = self.readline()
			if not l:
				return
			yield l

	def readlines(self):
		return list(self)

	def seek(self, off, whence=0):
		self._p = int(off) if whence == 0 else len(self._d)
		return self._p

	def tell(self):
		return self._p

	def close(self):
		pass

	def __enter__(self):
		return self

	def __exit__(self, *a):
		pass


def mkbytes(items):
	s = SymBytes(items)
	return s.native() if s.is_concrete() else s


def mkstr(items):
	s = SymStr(items)
	return s.native() if s.is_concrete() else s

"""The C extension, interpreted symbolically: CPython's C API on top of sx.llvm.

module(ctx) gives an object with the functions and types of
postgresql.port.optimized; calling them runs the IR that clang makes of the
current C source with the real Python headers.
"""
import os
import subprocess
import sys
import sysconfig
import tempfile
import types
import z3
from . import core, hooks, llvm
from .core import SxControl
from .values import (SymInt, SymBool, SymBytes, SymStr, SymFloat, is_sym, tobv, byte_item, simplify_seq)
from .containers import SxMemoryView, SxBytearray
from .llvm import Ptr, NULL, Region, isint, signed, simp, mask

__sx_transformed__ = True
from .native import SRC, include_dir
IMMORTAL = 0xFFFFFFFF


def ir_text():
	"""the IR of the current source"""
	p = os.environ.get('VERIF_IR')
	if p and os.path.exists(p):
		with open(p) as f:
			return f.read()
	d = tempfile.mkdtemp(prefix='vir')
	try:
		return compile_ir(d)
	finally:
		for n in os.listdir(d):
			os.unlink(os.path.join(d, n))
		os.rmdir(d)


def compile_ir(d):
	a, b = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
	r = subprocess.run(['clang', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-fno-strict-aliasing',
		'-fwrapv', '-Wno-everything', '-I' + include_dir(), SRC, '-o', a], capture_output=True, text=True)
	if r.returncode:
		raise RuntimeError('clang: ' + r.stderr[-2000:])
	r = subprocess.run(['opt', '-S', '-passes=sroa', a, '-o', b], capture_output=True, text=True)
	with open(b if r.returncode == 0 else a) as f:
		return f.read()


# field numbers of PyTypeObject
TYPE_FIELDS = ('head', 'tp_name', 'tp_basicsize', 'tp_itemsize', 'tp_dealloc', 'tp_vectorcall_offset', 'tp_getattr', 'tp_setattr', 'tp_as_async',
	'tp_repr', 'tp_as_number', 'tp_as_sequence', 'tp_as_mapping', 'tp_hash', 'tp_call', 'tp_str', 'tp_getattro', 'tp_setattro', 'tp_as_buffer',
	'tp_flags', 'tp_doc', 'tp_traverse', 'tp_clear', 'tp_richcompare', 'tp_weaklistoffset', 'tp_iter', 'tp_iternext', 'tp_methods', 'tp_members',
	'tp_getset', 'tp_base', 'tp_dict', 'tp_descr_get', 'tp_descr_set', 'tp_dictoffset', 'tp_init', 'tp_alloc', 'tp_new', 'tp_free')
# after the PyVarObject head every field takes 8 bytes
FIELD = {n: 24 + 8 * (i - 1) for i, n in enumerate(TYPE_FIELDS) if i}
TYPE_SIZE = 408
FLAGS = ((int, 1 << 24), (list, 1 << 25), (tuple, 1 << 26), (bytes, 1 << 27), (str, 1 << 28), (dict, 1 << 29), (BaseException, 1 << 30), (type, 1 << 31))
P = llvm.PTR
I64, I32, I8 = ('i', 64), ('i', 32), ('i', 8)
C_NAMES = {'PyBytes_Type': bytes, 'PyTuple_Type': tuple, 'PyList_Type': list, 'PyLong_Type': int, 'PyUnicode_Type': str, 'PyDict_Type': dict,
	'PyType_Type': type, 'PyBaseObject_Type': object, 'PyBool_Type': bool, 'PyByteArray_Type': bytearray, 'PyMemoryView_Type': memoryview,
	'PyFloat_Type': float, 'PySet_Type': set, 'PyFrozenSet_Type': frozenset, 'PySlice_Type': slice}


class CError(Exception):
	"""the error indicator is set"""


class VM(llvm.Machine):
	def __init__(self, text):
		self.err = None
		self.ctx = None
		self.base = None
		self.created = []
		self.held = []
		self.path_regions = []
		self.called = set()
		self.cache = {}
		self.typereg = {}
		self.regtype = {}
		self.ctypes = {}
		self.module = None
		super().__init__(llvm.Module(text), API)
		for n, c in C_NAMES.items():
			self.typereg[c] = self._type_region(c, self.globals.get(n))
		for n, v in (('_Py_NoneStruct', None), ('_Py_TrueStruct', True), ('_Py_FalseStruct', False), ('_Py_EllipsisObject', Ellipsis),
				('_Py_NotImplementedStruct', NotImplemented)):
			p = self.globals.get(n) or self.alloc(16, 'opaque', n)
			p.r.kind = 'opaque'
			p.r.py = (v,)
			self.put(p, 0, I64, IMMORTAL)
			self.put(p, 8, P, self.type_of(type(v)))
			self.cache[id(v)] = (p, v)
		for n, p in list(self.globals.items()):
			if n.startswith('PyExc_'):
				name = n[6:]
				c = getattr(__import__('builtins'), name)
				self.put(p, 0, P, self.type_of(c))
		self.init_module()
		self.base = [(r, dict(r.cells), r.alive) for r in self.created] + [(p.r, dict(p.r.cells), True) for p in self.globals.values()]
		self.base_cache = dict(self.cache)
		self.base_types = dict(self.typereg), dict(self.regtype)

	def reset(self, ctx):
		self.ctx = ctx
		self.err = None
		self.undef = 0
		self.held = []
		self.path_regions = []
		self.depth = 0
		for r, cells, alive in self.base:
			r.cells = dict(cells)
			r.alive = alive
		self.cache = dict(self.base_cache)
		self.typereg, self.regtype = dict(self.base_types[0]), dict(self.base_types[1])
		for c in self.ctypes.values():
			c.region.py = (c,)

	def alloc(self, size, kind, name='', zero=False):
		p = super().alloc(size, kind, name, zero)
		(self.created if self.base is None else self.path_regions).append(p.r)
		return p

	def balance(self):
		"""every reference that was counted is held somewhere, and nothing else stays allocated"""
		refs = {}
		live = [r for r in self.path_regions if r.alive and r.kind != 'stack']
		for r in live:
			for o, c in r.cells.items():
				if type(c) is tuple and c[1] == 0 and c[0].r is not None and not (o == 8 and r.kind in ('object', 'opaque')):
					refs[c[0].r] = refs.get(c[0].r, 0) + 1
		for p in self.held:
			refs[p.r] = refs.get(p.r, 0) + 1
		for r in live:
			if r.kind == 'heap':
				if r not in refs:
					self.violation('memory: never released')
				continue
			if r.kind not in ('object', 'opaque'):
				continue
			n = self.get(Ptr(r, 0), 0, I64)
			if n & 0x80000000:
				continue
			want = refs.get(r, 0) + (r.owner is not None)
			if r.owner is None and r.py is not None and self.pytype(Ptr(r, 0)) in self.ctypes:
				want += 1
			if n != want:
				self.violation('memory: %d references to a %s, but %d are held' % (n, r.name, want))
		for r, cells, alive in self.base:
			if not r.alive or r.kind not in ('object', 'opaque'):
				continue
			n = self.get(Ptr(r, 0), 0, I64)
			if n & 0x80000000:
				continue
			was = int.from_bytes(bytes(cells[k] for k in range(8)), 'little')
			if n != was + refs.get(r, 0):
				self.violation('memory: %d references to a %s, but %d are held' % (n, r.name, was + refs.get(r, 0)))

	def violation(self, what, m=None):
		if core.E is None or self.ctx is None:
			raise RuntimeError('C: ' + what)
		self.ctx.violation(what, m if m is not None else core.E.get_model())

	# -- raw object access
	def put(self, p, off, t, v):
		self.store_at(p.r, off, t, v)

	def get(self, p, off, t):
		return self.load_at(p.r, off, t)

	def _type_region(self, c, p=None):
		if p is None:
			p = self.alloc(TYPE_SIZE, 'type', c.__name__)
		p.r.size = max(p.r.size, TYPE_SIZE) if isint(p.r.size) else p.r.size
		p.r.zero = True
		p.r.py = (c,)
		fl = 0
		for b, f in FLAGS:
			if issubclass(c, b):
				fl |= f
		self.put(p, 0, I64, IMMORTAL)
		self.put(p, 8, P, p if c is type else (self.typereg.get(type) or NULL))
		self.put(p, FIELD['tp_flags'], I64, fl)
		nm = self.alloc(len(c.__name__) + 1, 'string', c.__name__)
		for i, b in enumerate(c.__name__.encode() + b'\0'):
			nm.r.cells[i] = b
		self.put(p, FIELD['tp_name'], P, nm)
		self.typereg[c] = p
		self.regtype[p.r] = c
		return p

	def type_of(self, c):
		p = self.typereg.get(c)
		return p if p is not None else self._type_region(c)

	def ob_type(self, p):
		return self.load(Ptr(p.r, self.add64(p.off, 8)), P)

	def pytype(self, p):
		return self.regtype.get(self.ob_type(p).r)

	def new(self, c, size, kind='object'):
		p = self.alloc(size, kind, c.__name__)
		self.put(p, 0, I64, 1)
		self.put(p, 8, P, self.type_of(c))
		return p

	def live(self, p, what='use'):
		if type(p) is not Ptr or p.r is None:
			self.violation('memory: %s of a null object' % what)
		if not p.r.alive:
			self.violation('memory: %s of a released object (%s)' % (what, p.r.name))
		if p.r.kind == 'undefined':
			self.violation('memory: %s of an undefined object' % what)
		return p

	def incref(self, p):
		self.live(p)
		n = self.get(p, 0, I64)
		if n & 0x80000000:
			return p
		self.put(p, 0, I64, n + 1)
		return p

	def decref(self, p):
		self.live(p, 'release')
		n = self.get(p, 0, I64)
		if n & 0x80000000:
			return
		self.put(p, 0, I64, n - 1)
		if n == 1:
			self.dealloc(p)
		elif n == 0:
			self.violation('memory: object released too often')

	def dealloc(self, p):
		r = p.r
		if r.owner is not None:
			self.violation('memory: a %s that is still in use is released' % r.name)
		c = self.pytype(p)
		if c in self.ctypes_by_class():
			d = self.load(Ptr(self.ob_type(p).r, FIELD['tp_dealloc']), P)
			self.call(d.r.name, [p])
			return
		kids = []
		if c is tuple or (c is not None and r.kind == 'object' and issubclass(c, tuple)):
			n = self.get(p, 16, I64)
			kids = [self.get(p, o, P) for o in list(r.cells) if o >= 24 and not o & 7]
		elif c is list and r.kind == 'object':
			n = self.get(p, 16, I64)
			ip = self.get(p, 24, P)
			kids = [self.load(Ptr(ip.r, 8 * i), P) for i in range(n)]
			if ip.r is not None:
				ip.r.alive = False
		r.alive = False
		for k in kids:
			if k.r is not None:
				self.decref(k)

	def ctypes_by_class(self):
		return self.ctypes

	# -- conversion
	def to_c(self, x):
		"""a new reference"""
		t = type(x)
		h = self.cache.get(id(x))
		if h is not None and h[1] is x:
			return self.incref(h[0])
		if isinstance(x, CObject):
			return self.incref(x._p)
		if t in self.ctypes:
			return self.incref(Ptr(x.region, 0))
		if isinstance(x, type):
			p = self.type_of(x)
			return p
		if t is bytes or t is SymBytes:
			p = self.bytes_object([i for i in (x.items if t is SymBytes else x)])
		elif isinstance(x, tuple):
			items = [self.to_c(y) for y in x]
			p = self.new(t, 24 + 8 * len(items))
			self.put(p, 16, I64, len(items))
			for i, y in enumerate(items):
				self.put(p, 24 + 8 * i, P, y)
		elif t is list:
			p = self.list_object([self.to_c(y) for y in x])
			p.r.py = (x,)
			return p
		else:
			p = self.new(x.__class__ if is_sym(x) or t in (SxMemoryView, SxBytearray) else t, 16, 'opaque')
		p.r.py = (x,)
		p.r.owner = 'python'
		self.cache[id(x)] = (p, x)
		return self.incref(p)

	def item8(self, b):
		if type(b) is int:
			return b
		return simp(z3.Extract(7, 0, tobv(b, 9)))

	def bytes_object(self, items):
		n = len(items)
		p = self.new(bytes, 33 + n)
		self.put(p, 16, I64, n)
		self.put(p, 24, I64, mask(64))
		c = p.r.cells
		for i, b in enumerate(items):
			c[32 + i] = self.item8(b)
		c[32 + n] = 0
		return p

	def list_object(self, ptrs):
		p = self.new(list, 40)
		it = self.alloc(8 * len(ptrs), 'heap', 'items of a list')
		self.put(p, 16, I64, len(ptrs))
		self.put(p, 24, P, it)
		self.put(p, 32, I64, len(ptrs))
		for i, y in enumerate(ptrs):
			self.put(it, 8 * i, P, y)
		return p

	def from_c(self, p):
		self.live(p)
		r = p.r
		c = self.pytype(p)
		if r.py is not None and c is not list:
			return r.py[0]
		if c in self.ctypes:
			o = object.__new__(c)
			o._p = p
			o._vm = self
			r.py = (o,)
			self.incref(p)
			return o
		if c is bytes:
			n = self.pin(self.get(p, 16, I64))
			if n > r.size - 33:
				self.violation('memory: bytes object with a wrong size')
			its = [self.byte(r, 32 + i) for i in range(n)]
			return simplify_seq(SymBytes([x if isint(x) else byte_item(x) for x in its]))
		if c is tuple:
			n = self.pin(self.get(p, 16, I64))
			out = []
			for i in range(n):
				x = self.get(p, 24 + 8 * i, P)
				if x.r is None:
					self.violation('memory: a tuple with an empty slot was returned')
				out.append(self.from_c(x))
			return tuple(out)
		if c is list:
			n = self.get(p, 16, I64)
			ip = self.get(p, 24, P)
			out = []
			for i in range(n):
				x = self.load(Ptr(ip.r, 8 * i), P)
				if x.r is None:
					self.violation('memory: a list with an empty slot was returned')
				out.append(self.from_c(x))
			if r.py is not None:
				r.py[0][:] = out
				return r.py[0]
			return out
		self.unsupported('object of type %r' % (c,))

	def merged(self, r, off, t):
		# an item of a tuple, chosen by a symbolic index
		if t != P or r.kind != 'object' or not isint(r.size) or not issubclass(self.pytype(Ptr(r, 0)) or object, tuple):
			return None
		self.require(z3.And(z3.UGE(off, 24), z3.Extract(2, 0, off) == 0), 'memory: read outside of the items of a tuple')
		w = r.size.bit_length() + 2
		n = (r.size - 24) // 8
		x = SymInt.make(z3.ZeroExt(1, z3.LShR(off - 24, 3)), 0, n - 1)
		if any(self.get(Ptr(r, 0), 24 + 8 * i, P).r is None for i in range(n)):
			return None
		y = hooks.getitem(self.from_c(Ptr(r, 0)), x)
		p = self.to_c(y)
		# borrowed
		if p.r.owner is not None:
			self.decref(p)
		else:
			self.held.append(p)
		return p

	# -- errors
	def raise_(self, e):
		self.err = e
		return NULL

	def sint(self, v, w=64):
		return signed(v, w) if isint(v) else SymInt.make(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)

	def uint(self, v, w=64):
		return v if isint(v) else SymInt.make(z3.ZeroExt(1, v), 0, (1 << w) - 1)

	def bits(self, x, w):
		return x & mask(w) if type(x) is int else simp(tobv(x, w))

	def python(self, f, *a):
		"""run Python code for C; new reference or NULL"""
		try:
			r = f(*a)
		except SxControl:
			raise
		except BaseException as e:
			if core.E is not None and core.E.poison is not None:
				raise core.E.poison
			self.err = e
			return NULL
		return self.to_c(r)

	def invoke(self, fname, args):
		"""a call from Python: args are C values; -> Python value"""
		if self.err is not None:
			self.violation('an error was left pending')
		r = self.call(fname, args)
		return self.result(r)

	def result(self, r, null_ok=False):
		e, self.err = self.err, None
		if type(r) is Ptr and r.r is None:
			if e is None:
				if null_ok:
					raise StopIteration
				self.violation('fails without an error')
			raise e
		if e is not None:
			self.violation('succeeds with an error pending (%s)' % (e.__name__ if isinstance(e, type) else type(e).__name__))
		x = self.from_c(r)
		self.decref(r)
		return x

	def method(self, fp, flags, me, args, kw):
		cargs = [self.to_c(a) for a in args]
		flags &= ~0x70
		if kw and not flags & 2:
			raise TypeError('takes no keyword arguments')
		if flags == 4:
			if args:
				raise TypeError('takes no arguments (%d given)' % len(args))
			a = [me, NULL]
		elif flags == 8:
			if len(args) != 1:
				raise TypeError('takes exactly one argument (%d given)' % len(args))
			a = [me, cargs[0]]
		elif flags in (1, 3):
			t = self.new(tuple, 24 + 8 * len(cargs))
			self.put(t, 16, I64, len(cargs))
			for i, y in enumerate(cargs):
				self.put(t, 24 + 8 * i, P, y)
			cargs = [t]
			a = [me, t]
			if flags == 3:
				a.append(self.to_c(dict(kw)) if kw else NULL)
		elif flags == 0x80:
			v = self.alloc(8 * len(cargs), 'stack', 'arguments')
			for i, y in enumerate(cargs):
				self.put(v, 8 * i, P, y)
			a = [me, v, len(cargs)]
		else:
			self.unsupported('method flags %d' % flags)
		try:
			r = self.invoke(fp.r.name, a)
		except SxControl:
			raise
		except BaseException:
			for y in cargs:
				self.decref(y)
			raise
		for y in cargs:
			self.decref(y)
		return r

	# -- module
	def methods(self, p):
		out = []
		i = 0
		while p.r is not None:
			n = self.load(Ptr(p.r, self.add64(p.off, 32 * i)), P)
			if n.r is None:
				break
			f = self.load(Ptr(p.r, self.add64(p.off, 32 * i + 8)), P)
			fl = self.load(Ptr(p.r, self.add64(p.off, 32 * i + 16)), I32)
			out.append((self.cstr(n), f, fl))
			i += 1
		return out

	def init_module(self):
		inits = [n for n in self.mod.functions if n.startswith('PyInit_')]
		self.module = types.SimpleNamespace()
		self.pymods = []
		r = self.call(inits[0], [])
		if r.r is None or self.err is not None:
			raise RuntimeError('the extension does not initialize: %r' % (self.err,))

	def make_class(self, p):
		vm = self
		full = self.cstr(self.get(p, FIELD['tp_name'], P))
		name = full.rpartition('.')[2]
		ns = {'__module__': 'postgresql.port.optimized', 'region': p.r}
		f = lambda k: self.get(p, FIELD[k], P)
		for n, fp, fl in self.methods(f('tp_methods')):
			def m(self, *a, _f=fp, _l=fl, **k):
				return vm.method(_f, _l, self._p, a, k)
			ns[n] = m
		g = f('tp_getset')
		i = 0
		while g.r is not None:
			n = self.load(Ptr(g.r, 40 * i), P)
			if n.r is None:
				break
			gp = self.load(Ptr(g.r, 40 * i + 8), P)
			clo = self.load(Ptr(g.r, 40 * i + 32), P)
			ns[self.cstr(n)] = property(lambda self, _g=gp, _c=clo: vm.invoke(_g.r.name, [self._p, _c]))
			i += 1
		s = f('tp_as_sequence')
		if s.r is not None:
			l = self.load(Ptr(s.r, 0), P)
			if l.r is not None:
				def length(self, _l=l):
					r = vm.call(_l.r.name, [self._p])
					e, vm.err = vm.err, None
					r = vm.sint(r)
					if r == -1:
						if e is None:
							vm.violation('fails without an error')
						raise e
					if e is not None:
						vm.violation('succeeds with an error pending')
					return vm.ctx.pin(r) if is_sym(r) else r
				ns['__len__'] = length
		it = f('tp_iternext')
		if it.r is not None:
			def nxt(self):
				r = vm.call(it.r.name, [self._p])
				if r.r is None and isinstance(vm.err, type) and issubclass(vm.err, StopIteration):
					vm.err = None
				return vm.result(r, True)
			ns['__next__'] = nxt
		nw = f('tp_new')

		def new(cls, *a, **k):
			t = vm.to_c(tuple(a))
			kw = vm.to_c(dict(k)) if k else NULL
			try:
				r = vm.invoke(nw.r.name, [Ptr(cls.region, 0), t, kw])
			except SxControl:
				raise
			except BaseException:
				vm.decref(t)
				raise
			vm.decref(t)
			return r
		if nw.r is not None:
			ns['__new__'] = new
		c = type(name, (CObject,), ns)
		p.r.py = (c,)
		self.ctypes[c] = c
		self.typereg[c] = p
		self.regtype[p.r] = c
		if self.get(p, 8, P).r is None:
			self.put(p, 8, P, self.type_of(type))
		self.put(p, 0, I64, IMMORTAL)
		if self.get(p, FIELD['tp_alloc'], P).r is None:
			self.put(p, FIELD['tp_alloc'], P, self.function('PyType_GenericAlloc'))
		if self.get(p, FIELD['tp_free'], P).r is None:
			self.put(p, FIELD['tp_free'], P, self.function('PyObject_Free'))
		return c

	def function(self, name):
		if name not in self.funcs:
			self.funcs[name] = Ptr(Region(1, 'function', name), 0)
		return self.funcs[name]


class CObject:
	"""Python's side of an instance of a type the extension defines"""
	__slots__ = ('_p', '_vm')

	def _release(self):
		"""what happens when the last reference goes"""
		vm, p = self._vm, self._p
		p.r.py = None
		vm.decref(p)
		if p.r.alive:
			vm.violation('memory: the object is not released with its last reference')


_vm = None


def module(ctx):
	global _vm
	if _vm is None:
		_vm = VM(ir_text())
	_vm.reset(ctx)
	return _vm.module


# ------------------------------------------------------------ the C API

API = {}


def api(f):
	API[f.__name__] = f
	return f


def alias(name, f):
	API[name] = f


# memory

@api
def malloc(vm, n):
	return vm.alloc(n, 'heap', 'malloc')


for _n in ('PyMem_Malloc', 'PyObject_Malloc', 'PyMem_RawMalloc'):
	alias(_n, malloc)


@api
def calloc(vm, a, b):
	return vm.alloc(vm.binop('mul', 64, a, b), 'heap', 'calloc', True)


for _n in ('PyMem_Calloc', 'PyObject_Calloc'):
	alias(_n, calloc)


@api
def realloc(vm, p, n):
	q = vm.alloc(n, 'heap', 'realloc')
	if p.r is not None:
		if p.r.kind != 'heap' or not p.r.alive or p.off != 0:
			vm.violation('memory: bad realloc')
		q.r.cells = dict(p.r.cells)
		p.r.alive = False
	return q


for _n in ('PyMem_Realloc', 'PyObject_Realloc'):
	alias(_n, realloc)


@api
def free(vm, p):
	vm.free(p)


alias('PyMem_Free', free)
alias('PyMem_RawFree', free)


@api
def PyObject_Free(vm, p):
	vm.live(p, 'release')
	p.r.alive = False


def memcpy(vm, d, s, n, *a):
	if isint(n) and n and type(d) is Ptr and d.r is s.r and d.r is not None and isint(d.off) and isint(s.off) and abs(d.off - s.off) < n and d.off != s.off:
		vm.violation('memory: overlapping copy')
	vm.memcpy(d, s, n)
	return d


def memmove(vm, d, s, n, *a):
	vm.memcpy(d, s, n)
	return d


for _n in ('memcpy', '__memcpy_chk', 'llvm.memcpy.p0.p0.i64', 'llvm.memcpy.p0.p0.i32', 'llvm.memcpy.inline.p0.p0.i64'):
	alias(_n, memcpy)
for _n in ('memmove', 'llvm.memmove.p0.p0.i64'):
	alias(_n, memmove)


def memset(vm, d, v, n, *a):
	vm.memset(d, v, n)
	return d


for _n in ('memset', 'llvm.memset.p0.i64'):
	alias(_n, memset)


@api
def memcmp(vm, a, b, n):
	x, y = vm.bytes_at(a, n), vm.bytes_at(b, n)
	for i, j in zip(x, y):
		if isint(i) and isint(j):
			if i != j:
				return 1 if i > j else mask(32)
			continue
		i, j = llvm.bv(i, 8), llvm.bv(j, 8)
		if not core.E.branch(i == j):
			return 1 if core.E.branch(z3.UGT(i, j)) else mask(32)
	return 0


alias('bcmp', memcmp)


@api
def strlen(vm, p):
	return len(vm.cstr(p).encode('utf-8', 'surrogateescape'))


@api
def strcmp(vm, a, b):
	x, y = vm.cstr(a), vm.cstr(b)
	return 0 if x == y else 1 if x > y else mask(32)


def bswap(w):
	def f(vm, v):
		if isint(v):
			return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
		return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
	return f


for _w in (16, 32, 64):
	alias('llvm.bswap.i%d' % _w, bswap(_w))
for _n, _w in (('ntohl', 32), ('htonl', 32), ('ntohs', 16), ('htons', 16)):
	alias(_n, bswap(_w))


def minmax(cc):
	def f(vm, a, b):
		if isint(a) and isint(b):
			w = 64
		w = a.size() if not isint(a) else b.size() if not isint(b) else 64
		c = vm.icmp(cc, ('i', w), a, b)
		return a if vm.truth(c) else b
	return f


for _n, _c in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')):
	for _w in (32, 64):
		alias('llvm.%s.i%d' % (_n, _w), minmax(_c))
alias('llvm.expect.i64', lambda vm, a, b: a)
alias('llvm.expect.i1', lambda vm, a, b: a)
alias('llvm.expect.i32', lambda vm, a, b: a)


# references

@api
def _Py_Dealloc(vm, p):
	vm.live(p, 'release')
	vm.dealloc(p)


alias('Py_IncRef', lambda vm, p: vm.incref(p) and None if p.r is not None else None)
alias('Py_DecRef', lambda vm, p: vm.decref(p) if p.r is not None else None)
alias('_Py_IncRef', API['Py_IncRef'])
alias('_Py_DecRef', API['Py_DecRef'])
alias('_Py_NewRef', lambda vm, p: vm.incref(p))
alias('Py_NewRef', lambda vm, p: vm.incref(p))


# errors

def exc_of(vm, p):
	return vm.from_c(p)


@api
def PyErr_SetString(vm, e, s):
	vm.err = exc_of(vm, e)(vm.cstr(s))


@api
def PyErr_Format(vm, e, s, *a):
	vm.err = exc_of(vm, e)(vm.cstr(s))
	return NULL


@api
def PyErr_SetObject(vm, e, o):
	c = exc_of(vm, e)
	o = vm.from_c(o)
	vm.err = o if isinstance(o, c) else c(o)


@api
def PyErr_SetNone(vm, e):
	vm.err = exc_of(vm, e)()


@api
def PyErr_NoMemory(vm):
	vm.err = MemoryError()
	return NULL


@api
def PyErr_BadArgument(vm):
	vm.err = TypeError('bad argument type for built-in operation')
	return 0


@api
def PyErr_BadInternalCall(vm):
	vm.err = SystemError('bad internal call')


alias('_PyErr_BadInternalCall', lambda vm, *a: PyErr_BadInternalCall(vm))


@api
def PyErr_Occurred(vm):
	if vm.err is None:
		return NULL
	return vm.type_of(vm.err if isinstance(vm.err, type) else type(vm.err))


@api
def PyErr_Clear(vm):
	vm.err = None


@api
def PyErr_ExceptionMatches(vm, e):
	c = exc_of(vm, e)
	if vm.err is None:
		vm.violation('memory: PyErr_ExceptionMatches without an error')
	return int(issubclass(vm.err if isinstance(vm.err, type) else type(vm.err), c))


@api
def PyErr_GivenExceptionMatches(vm, a, e):
	if a.r is None:
		return 0
	a = vm.from_c(a)
	return int(issubclass(a if isinstance(a, type) else type(a), vm.from_c(e)))


@api
def PyErr_Fetch(vm, t, v, tb):
	e, vm.err = vm.err, None
	if e is None:
		for p in (t, v, tb):
			vm.store(p, P, NULL)
		return
	if isinstance(e, type):
		e = e()
	vm.store(t, P, vm.to_c(type(e)))
	vm.store(v, P, vm.to_c(e))
	vm.store(tb, P, NULL)


@api
def PyErr_Restore(vm, t, v, tb):
	if t.r is None:
		vm.err = None
	elif v.r is None:
		vm.err = vm.from_c(t)
	else:
		e = vm.from_c(v)
		vm.err = e if isinstance(e, BaseException) else vm.from_c(t)(e)
	for p in (t, v, tb):
		if p.r is not None:
			vm.decref(p)


@api
def PyErr_NormalizeException(vm, t, v, tb):
	return None


@api
def PyErr_GetRaisedException(vm):
	e, vm.err = vm.err, None
	if e is None:
		return NULL
	return vm.to_c(e() if isinstance(e, type) else e)


@api
def PyErr_SetRaisedException(vm, e):
	vm.err = vm.from_c(e)
	vm.decref(e)


alias('PyException_SetCause', lambda vm, e, c: vm.decref(c) if c.r is not None else None)
alias('PyException_SetContext', lambda vm, e, c: vm.decref(c) if c.r is not None else None)
alias('PyException_SetTraceback', lambda vm, e, c: 0)


# bytes

@api
def PyBytes_FromStringAndSize(vm, p, n):
	sn = vm.sint(n)
	if sn < 0:
		return vm.raise_(SystemError('Negative size passed to PyBytes_FromStringAndSize'))
	n = vm.pin(n)
	if n > 1 << 24:
		raise core.SxBound('bytes of %d bytes' % n)
	o = vm.new(bytes, 33 + n)
	vm.put(o, 16, I64, n)
	vm.put(o, 24, I64, mask(64))
	if n and p.r is not None:
		vm.memcpy(Ptr(o.r, 32), p, n)
	o.r.cells[32 + n] = 0
	return o


@api
def PyBytes_FromString(vm, p):
	return vm.bytes_object(vm.cstr(p).encode('utf-8', 'surrogateescape'))


def is_bytes(vm, p):
	c = vm.pytype(p)
	return c is not None and issubclass(c, bytes)


@api
def PyBytes_AsString(vm, p):
	if not is_bytes(vm, p):
		vm.err = TypeError('expected bytes')
		return NULL
	return Ptr(p.r, 32)


@api
def PyBytes_Size(vm, p):
	if not is_bytes(vm, p):
		vm.err = TypeError('expected bytes')
		return mask(64)
	return vm.load(Ptr(p.r, 16), I64)


@api
def PyBytes_AsStringAndSize(vm, p, s, n):
	if not is_bytes(vm, p):
		vm.err = TypeError('expected bytes')
		return mask(32)
	vm.store(s, P, Ptr(p.r, 32))
	vm.store(n, I64, vm.load(Ptr(p.r, 16), I64))
	return 0


@api
def PyBytes_Concat(vm, pp, w):
	a = vm.load(pp, P)
	if a.r is None:
		return
	if w.r is None:
		vm.decref(a)
		vm.store(pp, P, NULL)
		return
	x, y = vm.from_c(a), vm.from_c(w)
	if not isinstance(y, (bytes, bytearray, memoryview)):
		vm.err = TypeError("can't concat")
		r = NULL
	else:
		r = vm.bytes_object(list(hooks.call(bytes, x + y) if not is_sym(x + y) else (x + y).items))
	vm.store(pp, P, r)
	vm.decref(a)


@api
def PyBytes_ConcatAndDel(vm, pp, w):
	PyBytes_Concat(vm, pp, w)
	if w.r is not None:
		vm.decref(w)


@api
def _PyBytes_Resize(vm, pp, n):
	a = vm.load(pp, P)
	n = vm.pin(n)
	its = [vm.byte(a.r, 32 + i) for i in range(min(n, a.r.size - 33))]
	o = vm.new(bytes, 33 + n)
	vm.put(o, 16, I64, n)
	vm.put(o, 24, I64, mask(64))
	for i, b in enumerate(its):
		o.r.cells[32 + i] = b
	o.r.cells[32 + n] = 0
	vm.decref(a)
	vm.store(pp, P, o)
	return 0


# tuples and lists

@api
def PyTuple_New(vm, n):
	if vm.sint(n) < 0:
		return vm.raise_(SystemError('bad argument to internal function'))
	if not isint(n):
		s = vm.sint(n)
		if s > 1 << 20:
			raise core.SxBound('tuple of more than 2**20 items')
		# the slots come into being as they are written
		if s <= 8:
			n = vm.pin(n)
	elif n > 1 << 20:
		raise core.SxBound('tuple of %d items' % n)
	p = vm.new(tuple, 24 + 8 * n if isint(n) else simp(n * 8 + 24))
	p.r.zero = True
	vm.put(p, 16, I64, n)
	return p


def seq_items(vm, p):
	"""region and offset of the items, count"""
	c = vm.pytype(vm.live(p))
	if c is not None and issubclass(c, tuple):
		return p.r, 24, vm.get(p, 16, I64)
	if c is not None and issubclass(c, list):
		return vm.get(p, 24, P).r, 0, vm.get(p, 16, I64)
	return None


def _size(kind):
	def f(vm, p):
		c = vm.pytype(vm.live(p))
		if c is None or not issubclass(c, kind):
			vm.err = SystemError('bad argument to internal function')
			return mask(64)
		return seq_items(vm, p)[2]
	return f


alias('PyTuple_Size', _size(tuple))
alias('PyList_Size', _size(list))


def _getitem(kind):
	def f(vm, p, i):
		c = vm.pytype(vm.live(p))
		if c is None or not issubclass(c, kind):
			return vm.raise_(SystemError('bad argument to internal function'))
		r, o, n = seq_items(vm, p)
		x = vm.sint(i)
		if x < 0 or x >= n:
			return vm.raise_(IndexError('index out of range'))
		if isint(i):
			return vm.load(Ptr(r, o + 8 * i), P)
		return vm.load(Ptr(r, vm.add64(o, simp(i * 8))), P)
	return f


alias('PyTuple_GetItem', _getitem(tuple))
alias('PyList_GetItem', _getitem(list))


def _setitem(kind):
	def f(vm, p, i, v):
		r, o, n = seq_items(vm, p)
		i = vm.pin(i)
		if not 0 <= signed(i, 64) < n:
			if v.r is not None:
				vm.decref(v)
			vm.err = IndexError('assignment index out of range')
			return mask(32)
		old = vm.load(Ptr(r, o + 8 * i), P)
		vm.store(Ptr(r, o + 8 * i), P, v)
		if old.r is not None:
			vm.decref(old)
		return 0
	return f


alias('PyTuple_SetItem', _setitem(tuple))
alias('PyList_SetItem', _setitem(list))


@api
def PyTuple_Pack(vm, n, *a):
	p = PyTuple_New(vm, n)
	for i, x in enumerate(a):
		vm.put(p, 24 + 8 * i, P, vm.incref(x))
	return p


@api
def PyList_New(vm, n):
	if vm.sint(n) < 0:
		return vm.raise_(SystemError('bad argument to internal function'))
	n = vm.pin(n)
	if n > 1 << 20:
		raise core.SxBound('list of %d items' % n)
	return vm.list_object([NULL] * n)


@api
def PyList_Append(vm, p, v):
	r, o, n = seq_items(vm, p)
	q = vm.alloc(8 * (n + 1), 'heap', 'items of a list')
	q.r.cells = dict(r.cells)
	r.alive = False
	vm.put(q, 8 * n, P, vm.incref(v))
	vm.put(p, 24, P, q)
	vm.put(p, 16, I64, n + 1)
	vm.put(p, 32, I64, n + 1)
	return 0


def _slice(kind):
	def f(vm, p, a, b):
		r, o, n = seq_items(vm, p)
		a, b = max(0, signed(vm.pin(a), 64)), min(n, signed(vm.pin(b), 64))
		xs = []
		for i in range(a, b):
			x = vm.load(Ptr(r, o + 8 * i), P)
			if x.r is None:
				vm.violation('memory: a slice of a list with empty slots')
			xs.append(vm.incref(x))
		if kind is list:
			return vm.list_object(xs)
		t = PyTuple_New(vm, len(xs))
		for i, x in enumerate(xs):
			vm.put(t, 24 + 8 * i, P, x)
		return t
	return f


alias('PyList_GetSlice', _slice(list))
alias('PyTuple_GetSlice', _slice(tuple))
alias('PyList_AsTuple', lambda vm, p: vm.python(tuple, vm.from_c(p)))


# numbers

def longs(name, w, sgn):
	def f(vm, v):
		return vm.to_c(vm.sint(v, w) if sgn else vm.uint(v, w))
	alias(name, f)


for _a, _w, _s in (('PyLong_FromLong', 64, 1), ('PyLong_FromLongLong', 64, 1), ('PyLong_FromSsize_t', 64, 1), ('PyLong_FromUnsignedLong', 64, 0),
		('PyLong_FromUnsignedLongLong', 64, 0), ('PyLong_FromSize_t', 64, 0)):
	longs(_a, _w, _s)
alias('PyBool_FromLong', lambda vm, v: vm.to_c(v != 0 if isint(v) else bool(core.E.branch(v != 0))))


def integer(vm, p, index=True):
	"""-> int-like or None with an error set"""
	x = vm.from_c(p)
	if isinstance(x, int):
		return x._i() if type(x) is SymBool else int(x) if not is_sym(x) else x
	f = getattr(type(x), '__index__', None) if index else None
	if f is None:
		vm.err = TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
		return None
	q = vm.python(f, x)
	return None if q.r is None else value(vm, q)


def as_long(name, w, sgn, index=True):
	def f(vm, p):
		if p.r is None:
			vm.err = SystemError('bad argument to internal function')
			return mask(w)
		x = integer(vm, p, index)
		if x is None:
			return mask(w)
		lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sgn else (0, (1 << w) - 1)
		if x < lo or x > hi:
			vm.err = OverflowError('Python int too large to convert to C')
			return mask(w)
		return vm.bits(x, w)
	alias(name, f)


for _a, _w, _s, _i in (('PyLong_AsLong', 64, 1, True), ('PyLong_AsLongLong', 64, 1, True), ('PyLong_AsSsize_t', 64, 1, False),
		('PyLong_AsUnsignedLong', 64, 0, False), ('PyLong_AsUnsignedLongLong', 64, 0, False), ('PyLong_AsSize_t', 64, 0, False),
		('PyNumber_AsSsize_t', 64, 1, True), ('_PyLong_AsInt', 32, 1, True), ('PyLong_AsInt', 32, 1, True)):
	as_long(_a, _w, _s, _i)


def as_long_overflow(vm, p, o):
	x = integer(vm, p)
	vm.store(o, I32, 0)
	if x is None:
		return mask(64)
	if x < -(1 << 63) or x > (1 << 63) - 1:
		vm.store(o, I32, 1 if x > 0 else mask(32))
		return mask(64)
	return vm.bits(x, 64)


alias('PyLong_AsLongAndOverflow', as_long_overflow)
alias('PyLong_AsLongLongAndOverflow', as_long_overflow)
alias('PyNumber_Index', lambda vm, p: (lambda x: NULL if x is None else vm.to_c(x))(integer(vm, p)))


# text

alias('PyUnicode_FromString', lambda vm, p: vm.to_c(vm.cstr(p)))
alias('PyUnicode_InternFromString', lambda vm, p: vm.to_c(vm.cstr(p)))


# calls and attributes

def args_of(vm, a):
	out = []
	for p in a:
		if p.r is None:
			break
		out.append(vm.from_c(p))
	return out


alias('PyObject_CallFunctionObjArgs', lambda vm, f, *a: vm.python(hooks.call, vm.from_c(f), *args_of(vm, a)))
alias('PyObject_CallOneArg', lambda vm, f, a: vm.python(hooks.call, vm.from_c(f), vm.from_c(a)))
alias('PyObject_CallNoArgs', lambda vm, f: vm.python(hooks.call, vm.from_c(f)))


@api
def PyObject_CallObject(vm, f, a):
	return vm.python(lambda g, t: hooks.call(g, *t), vm.from_c(f), vm.from_c(a) if a.r is not None else ())


@api
def PyObject_Call(vm, f, a, k):
	return vm.python(lambda g, t, d: hooks.call(g, *t, **d), vm.from_c(f), vm.from_c(a), vm.from_c(k) if k.r is not None else {})


def call_method(vm, o, n, *a):
	def go(x, name, *aa):
		return hooks.call(getattr(x, name), *aa)
	return vm.python(go, vm.from_c(o), vm.from_c(n), *args_of(vm, a))


alias('PyObject_CallMethodObjArgs', call_method)
alias('PyObject_CallMethodNoArgs', call_method)
alias('PyObject_CallMethodOneArg', lambda vm, o, n, a: call_method(vm, o, n, a))


def vectorcall(vm, f, args, nf, kw):
	n = nf & mask(63)
	if kw.r is not None:
		vm.unsupported('vectorcall with keywords')
	return vm.python(hooks.call, vm.from_c(f), *[vm.from_c(vm.load(Ptr(args.r, args.off + 8 * i), P)) for i in range(n)])


alias('PyObject_Vectorcall', vectorcall)
alias('PyObject_GetAttr', lambda vm, o, n: vm.python(getattr, vm.from_c(o), vm.from_c(n)))
alias('PyObject_GetAttrString', lambda vm, o, n: vm.python(getattr, vm.from_c(o), vm.cstr(n)))


def value(vm, p):
	"""the Python value of a new reference, which is dropped"""
	x = vm.from_c(p)
	vm.decref(p)
	return x


def status(vm, f, *a):
	p = vm.python(lambda: f(*a))
	if p.r is None:
		return mask(32)
	vm.decref(p)
	return 0


alias('PyObject_SetAttr', lambda vm, o, n, v: status(vm, setattr, vm.from_c(o), vm.from_c(n), vm.from_c(v)))
alias('PyObject_SetAttrString', lambda vm, o, n, v: status(vm, setattr, vm.from_c(o), vm.cstr(n), vm.from_c(v)))
alias('PyObject_HasAttrString', lambda vm, o, n: int(hasattr(vm.from_c(o), vm.cstr(n))))
alias('PyObject_HasAttr', lambda vm, o, n: int(hasattr(vm.from_c(o), vm.from_c(n))))
alias('PyObject_IsInstance', lambda vm, o, c: int(isinstance(vm.from_c(o), vm.from_c(c))))
alias('PyObject_IsSubclass', lambda vm, o, c: int(issubclass(vm.from_c(o), vm.from_c(c))))
alias('PyType_IsSubtype', lambda vm, o, c: int(issubclass(vm.from_c(o), vm.from_c(c))))
alias('PyObject_IsTrue', lambda vm, o: int(bool(vm.from_c(o))))
alias('PyObject_Not', lambda vm, o: int(not vm.from_c(o)))
alias('PyCallable_Check', lambda vm, o: int(callable(vm.from_c(o))) if o.r is not None else 0)
alias('PyObject_Str', lambda vm, o: vm.python(str, vm.from_c(o)))
alias('PyObject_Repr', lambda vm, o: vm.python(repr, vm.from_c(o)))
alias('PyObject_Bytes', lambda vm, o: vm.python(hooks.call, bytes, vm.from_c(o)))
alias('PyObject_Type', lambda vm, o: vm.python(type, vm.from_c(o)))
alias('PyObject_GetIter', lambda vm, o: vm.python(iter, vm.from_c(o)))


@api
def PyIter_Next(vm, o):
	it = vm.from_c(o)
	p = vm.python(next, it)
	if p.r is None and isinstance(vm.err, StopIteration):
		vm.err = None
	return p


def richcompare(vm, a, b, op):
	import operator
	f = (operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge)[op]
	return vm.python(f, vm.from_c(a), vm.from_c(b))


alias('PyObject_RichCompare', richcompare)


@api
def PyObject_RichCompareBool(vm, a, b, op):
	p = richcompare(vm, a, b, op)
	if p.r is None:
		return mask(32)
	return int(bool(value(vm, p)))


def size(vm, o):
	x = vm.from_c(o)
	p = vm.python(len, x)
	return mask(64) if p.r is None else vm.bits(value(vm, p), 64)


for _n in ('PyObject_Size', 'PyObject_Length', 'PySequence_Size', 'PySequence_Length'):
	alias(_n, size)
alias('PySequence_GetItem', lambda vm, o, i: vm.python(hooks.getitem, vm.from_c(o), vm.sint(i)))
alias('PyObject_GetItem', lambda vm, o, i: vm.python(hooks.getitem, vm.from_c(o), vm.from_c(i)))
alias('PySequence_GetSlice', lambda vm, o, a, b: vm.python(hooks.getitem, vm.from_c(o), slice(vm.sint(a), vm.sint(b))))
alias('PySequence_Tuple', lambda vm, o: vm.python(hooks.call, tuple, vm.from_c(o)))
alias('PySequence_List', lambda vm, o: vm.python(hooks.call, list, vm.from_c(o)))
alias('PySequence_Concat', lambda vm, a, b: vm.python(lambda x, y: x + y, vm.from_c(a), vm.from_c(b)))
alias('PySequence_Check', lambda vm, o: int(hasattr(vm.from_c(o), '__getitem__') and not isinstance(vm.from_c(o), dict)))
alias('PyNumber_Add', API['PySequence_Concat'])


@api
def PySequence_Fast(vm, o, msg):
	x = vm.from_c(o)
	if isinstance(x, (list, tuple)):
		return vm.incref(o)
	return vm.python(hooks.call, list, x)


# buffers

def buffer_of(vm, o):
	"""region of the data of a bytes-like object, or None"""
	c = vm.pytype(vm.live(o))
	if o.r.kind == 'object' and c is bytes:
		return Ptr(o.r, 32), vm.get(o, 16, I64)
	x = vm.from_c(o)
	if isinstance(x, (bytearray, memoryview, bytes)):
		its = list(x.items) if hasattr(x, 'items') else list(x)
		k = ('buffer', id(x), len(its))
		h = vm.cache.get(k)
		if h is None:
			p = vm.alloc(len(its), 'buffer', type(x).__name__)
			for i, b in enumerate(its):
				p.r.cells[i] = vm.item8(b)
			h = vm.cache[k] = (p, x)
		return h[0], len(its)
	vm.err = TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
	return None


@api
def PyObject_AsReadBuffer(vm, o, pp, pn):
	b = buffer_of(vm, o)
	if b is None:
		return mask(32)
	vm.store(pp, P, b[0])
	vm.store(pn, I64, b[1])
	return 0


@api
def PyObject_GetBuffer(vm, o, view, flags):
	b = buffer_of(vm, o)
	if b is None:
		return mask(32)
	f = lambda off, t, v: vm.store(Ptr(view.r, vm.add64(view.off, off)), t, v)
	f(0, P, b[0])
	f(8, P, vm.incref(o))
	f(16, I64, b[1])
	f(24, I64, 1)
	f(32, I32, 1)
	f(36, I32, 1)
	for k in (40, 48, 56, 64, 72):
		f(k, P, NULL)
	return 0


@api
def PyBuffer_Release(vm, view):
	o = vm.load(Ptr(view.r, vm.add64(view.off, 8)), P)
	if o.r is not None:
		vm.decref(o)
		vm.store(Ptr(view.r, vm.add64(view.off, 8)), P, NULL)


alias('PyObject_CheckBuffer', lambda vm, o: int(isinstance(vm.from_c(o), (bytes, bytearray, memoryview))))


# arguments

INT_UNITS = {'b': (8, 0, 255), 'h': (16, -(1 << 15), (1 << 15) - 1), 'i': (32, -(1 << 31), (1 << 31) - 1), 'l': (64, -(1 << 63), (1 << 63) - 1),
	'L': (64, -(1 << 63), (1 << 63) - 1), 'n': (64, -(1 << 63), (1 << 63) - 1)}


def arg_ptrs(vm, t):
	"""the items of a tuple of arguments"""
	r, o, n = seq_items(vm, t)
	return [vm.load(Ptr(r, o + 8 * i), P) for i in range(n)]


def parse(vm, given, kw, fmt, names, out):
	"""given: pointers; -> 1, or 0 with an error set"""
	fmt = fmt.split(':')[0].split(';')[0]
	out = list(out)
	i = n = 0
	opt = False
	given = list(given)
	kw = dict(kw)
	while i < len(fmt):
		u = fmt[i]
		i += 1
		if u == '|':
			opt = True
			continue
		if u == '$':
			continue
		two = ''
		if i < len(fmt) and fmt[i] in '!#*&':
			two = fmt[i]
			i += 1
		k = 2 if two in ('!', '#', '&') and u in 'Osyz' else 1
		slots, out = out[:k], out[k:]
		if n < len(given):
			p = given[n]
		elif names is not None and names[n] in kw:
			p = vm.to_c(kw.pop(names[n]))
			vm.held.append(p)
		else:
			n += 1
			if not opt:
				vm.err = TypeError('function missing required argument (pos %d)' % n)
				return 0
			continue
		n += 1
		if u == 'O':
			if two == '!':
				if not isinstance(vm.from_c(p), vm.from_c(slots[0])):
					vm.err = TypeError('argument has the wrong type')
					return 0
				slots = slots[1:]
			elif two:
				vm.unsupported('argument format ' + fmt)
			vm.store(slots[0], P, p)
		elif u in INT_UNITS and not two:
			x = integer(vm, p)
			if x is None:
				return 0
			w, lo, hi = INT_UNITS[u]
			if x < lo or x > hi:
				vm.err = OverflowError('signed integer is out of range')
				return 0
			vm.store(slots[0], ('i', w), vm.bits(x, w))
		elif u == 'p':
			vm.store(slots[0], I32, int(bool(vm.from_c(p))))
		elif u in 'S' and not two:
			if not isinstance(vm.from_c(p), bytes):
				vm.err = TypeError('expected bytes')
				return 0
			vm.store(slots[0], P, p)
		elif u == 'y' and two == '#':
			b = buffer_of(vm, p)
			if b is None:
				return 0
			vm.store(slots[0], P, b[0])
			vm.store(slots[1], I64, b[1])
		elif u == 'y' and two == '*':
			if PyObject_GetBuffer(vm, p, slots[0], 0):
				return 0
		else:
			vm.unsupported('argument format ' + fmt)
	if n < len(given) or kw:
		vm.err = TypeError('function takes at most %d arguments (%d given)' % (n, len(given) + len(kw)))
		return 0
	return 1


@api
def PyArg_ParseTuple(vm, args, fmt, *out):
	return parse(vm, arg_ptrs(vm, args), {}, vm.cstr(fmt), None, out)


@api
def PyArg_ParseTupleAndKeywords(vm, args, kw, fmt, names, *out):
	ns = []
	while True:
		p = vm.load(Ptr(names.r, vm.add64(names.off, 8 * len(ns))), P)
		if p.r is None:
			break
		ns.append(vm.cstr(p))
	return parse(vm, arg_ptrs(vm, args), vm.from_c(kw) if kw.r is not None else {}, vm.cstr(fmt), ns, out)


@api
def PyArg_UnpackTuple(vm, args, name, lo, hi, *out):
	a = arg_ptrs(vm, args)
	if not lo <= len(a) <= hi:
		vm.err = TypeError('expected %d to %d arguments, got %d' % (lo, hi, len(a)))
		return 0
	for s, p in zip(out, a):
		vm.store(s, P, p)
	return 1


# modules and types

@api
def PyModule_Create2(vm, d, v):
	m = types.ModuleType('postgresql.port.optimized')
	# PyModuleDef: base (40), m_name, m_doc, m_size, m_methods
	for n, f, fl in vm.methods(vm.load(Ptr(d.r, 64), P)):
		def g(*a, _f=f, _l=fl, **k):
			# PyModule_Create gives the module as self
			return vm.method(_f, _l, vm.modptr, a, k)
		g.__name__ = n
		setattr(vm.module, n, g)
	vm.modptr = vm.to_c(m)
	vm.modobj = m
	return vm.incref(vm.modptr)


@api
def PyType_Ready(vm, p):
	vm.make_class(p)
	return 0


@api
def PyModule_AddObject(vm, m, name, o):
	setattr(vm.module, vm.cstr(name), vm.from_c(o))
	return 0


alias('PyModule_AddObjectRef', PyModule_AddObject)
alias('PyModule_AddType', lambda vm, m, t: (vm.make_class(t), setattr(vm.module, vm.from_c(t).__name__, vm.from_c(t)), 0)[-1])
alias('PyModule_AddIntConstant', lambda vm, m, n, v: (setattr(vm.module, vm.cstr(n), vm.sint(v)), 0)[-1])
alias('PyModule_GetDict', lambda vm, m: vm.incref(m))


@api
def PyImport_ImportModuleLevel(vm, name, g, l, fromlist, level):
	import importlib
	n = vm.cstr(name)
	if level:
		n = 'postgresql.port.optimized'.rsplit('.', level)[0] + '.' + n
	return vm.python(importlib.import_module, n)


@api
def PyImport_ImportModule(vm, name):
	import importlib
	return vm.python(importlib.import_module, vm.cstr(name))


@api
def PyType_GenericAlloc(vm, t, n):
	size = vm.load(Ptr(t.r, FIELD['tp_basicsize']), I64)
	p = vm.alloc(size, 'object', vm.regtype[t.r].__name__, True)
	vm.put(p, 0, I64, 1)
	vm.put(p, 8, P, t)
	return p


alias('PyType_GenericNew', lambda vm, t, a, k: PyType_GenericAlloc(vm, t, 0))


@api
def __assert_fail(vm, *a):
	vm.violation('an assertion of the C code fails')


@api
def abort(vm):
	vm.violation('memory: abort')


alias('Py_FatalError', abort)
alias('_Py_FatalErrorFunc', lambda vm, *a: abort(vm))

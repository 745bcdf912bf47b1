"""A symbolic interpreter for LLVM IR, as clang writes it for C code.

Integers are Python ints (unsigned, masked) or z3 bit vectors; memory is a set
of regions holding bytes; every access is checked against its region, and an
access that some input takes outside of it is a violation.
"""
import re
import z3
from . import core, hooks
from .core import SxViolation

__sx_transformed__ = True

TOK = re.compile(r'''\s*(?:
	(?P<str>c"(?:[^"\\]|\\.)*") | (?P<qname>[%@]"[^"]*") | (?P<name>[%@][-\w.$]+) | (?P<meta>![\w.]*(?:\([^)]*\))?) |
	(?P<num>-?\d+\.\d+e[+-]\d+|-?\d+|0x[0-9A-Fa-f]+) | (?P<dots>\.\.\.) | (?P<attr>\#\d+) | (?P<word>[A-Za-z_][\w.]*) |
	(?P<quoted>"[^"]*") | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokens(s):
	out = []
	pos = 0
	s = s.rstrip()
	while pos < len(s):
		m = TOK.match(s, pos)
		if m is None:
			raise ValueError('cannot read IR: %r' % s[pos:pos + 60])
		k = m.lastgroup
		v = m.group(k)
		if k == 'qname':
			v, k = v[0] + v[2:-1], 'name'
		out.append((k, v))
		pos = m.end()
	return out


PTR = ('p',)
VOID = ('void',)
ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'noalias', 'immarg', 'signext', 'zeroext', 'nonnull', 'returned', 'inreg',
	'nofree', 'allocptr', 'allocalign', 'readnone', 'nsw', 'nuw', 'exact', 'inbounds', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc',
	'noreturn', 'nounwind', 'disjoint', 'nneg', 'volatile'}
LINK = {'private', 'internal', 'external', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'common', 'weak', 'hidden',
	'linkonce_odr', 'thread_local', 'available_externally', 'linkonce', 'default', 'appending', 'extern_weak', 'weak_odr', 'dso_preemptable'}


class P:
	"""cursor over the tokens of one line"""

	def __init__(self, toks, mod):
		self.t = toks
		self.i = 0
		self.mod = mod

	def peek(self):
		return self.t[self.i][1] if self.i < len(self.t) else None

	def kind(self):
		return self.t[self.i][0] if self.i < len(self.t) else None

	def next(self):
		v = self.t[self.i][1]
		self.i += 1
		return v

	def eat(self, v):
		if self.peek() == v:
			self.i += 1
			return True
		return False

	def need(self, v):
		if not self.eat(v):
			raise ValueError('IR: expected %r at %r' % (v, self.t[self.i:self.i + 6]))

	def attrs(self):
		while True:
			v = self.peek()
			if v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'memory', 'range'):
				self.next()
				if self.eat('('):
					d = 1
					while d:
						x = self.next()
						d += x == '('
						d -= x == ')'
				elif v == 'align':
					self.next()
			elif v in ATTRS:
				self.next()
			else:
				return

	def type(self):
		v = self.next()
		if v == 'ptr':
			t = PTR
		elif v == 'void':
			t = VOID
		elif re.fullmatch(r'i\d+', v):
			t = ('i', int(v[1:]))
		elif v in ('double', 'float', 'x86_fp80', 'metadata', 'half'):
			t = ('f', v)
		elif v == '[':
			n = int(self.next())
			self.need('x')
			e = self.type()
			self.need(']')
			t = ('arr', n, e)
		elif v == '{':
			t = self._struct('}')
		elif v == '<':
			if self.eat('{'):
				t = self._struct('}')
				self.need('>')
				t = ('st', t[1], True)
			else:
				n = int(self.next())
				self.need('x')
				e = self.type()
				self.need('>')
				t = ('vec', n, e)
		elif v[0] == '%':
			t = ('named', v[1:])
		elif v == 'opaque':
			t = ('st', (), False)
		else:
			raise ValueError('IR: unknown type %r' % v)
		if self.peek() == '(' and v not in (',',):
			# a function type: parameters up to the matching parenthesis
			j, d = self.i, 0
			while True:
				x = self.t[j][1]
				d += x == '('
				d -= x == ')'
				j += 1
				if d == 0:
					break
			# only when the callee follows
			self.i = j
			return ('fn', t)
		return t

	def _struct(self, end):
		ts = []
		while not self.eat(end):
			ts.append(self.type())
			self.eat(',')
		return ('st', tuple(ts), False)

	def value(self, ty):
		"""operand of the given type -> ('r', name) or ('k', constant)"""
		self.attrs()
		k, v = self.t[self.i]
		self.i += 1
		if k == 'name':
			if v[0] == '%':
				return ('r', v[1:])
			return ('k', ('g', v[1:]))
		if k == 'num':
			if '.' in v:
				return ('k', ('float', v))
			return ('k', int(v) & ((1 << ty[1]) - 1))
		if v == 'true':
			return ('k', 1)
		if v == 'false':
			return ('k', 0)
		if v == 'null':
			return ('k', ('null',))
		if v in ('undef', 'poison'):
			return ('k', ('undef', ty))
		if v == 'zeroinitializer':
			return ('k', ('zero', ty))
		if k == 'str':
			return ('k', ('bytes', unescape(v[2:-1])))
		if v in ('[', '{', '<'):
			packed = v == '<' and self.eat('{')
			end = {'[': ']', '{': '}', '<': '}'}[v] if not (v == '<' and not packed) else '>'
			xs = []
			while not self.eat(end):
				t = self.type()
				xs.append((t, self.value(t)[1]))
				self.eat(',')
			if packed:
				self.need('>')
			return ('k', ('agg', xs))
		if v in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'add', 'sub', 'icmp', 'addrspacecast'):
			self.attrs()
			self.need('(')
			if v == 'getelementptr':
				t0 = self.type()
				self.need(',')
				args = []
				while not self.eat(')'):
					t = self.type()
					args.append((t, self.value(t)))
					self.eat(',')
				return ('k', ('gep', t0, args))
			if v in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
				t = self.type()
				x = self.value(t)
				self.need('to')
				self.type()
				self.need(')')
				return x
			a = self.type()
			x = self.value(a)
			if v in ('add', 'sub'):
				self.need(',')
				b = self.type()
				y = self.value(b)
				self.need(')')
				return ('k', ('bin', v, a, x, y))
			raise ValueError('IR: constant expression ' + v)
		raise ValueError('IR: unknown operand %r' % (self.t[self.i - 1:self.i + 4],))


def unescape(s):
	out = bytearray()
	i = 0
	while i < len(s):
		if s[i] == '\\':
			if s[i + 1] == '\\':
				out.append(92)
				i += 2
			else:
				out.append(int(s[i + 1:i + 3], 16))
				i += 3
		else:
			out.append(ord(s[i]))
			i += 1
	return bytes(out)


class Function:
	__slots__ = ('name', 'params', 'blocks', 'entry', 'ret')


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'}


class Module:
	"""the parsed IR"""

	def __init__(self, text):
		self.named = {}
		self.globals = {}
		self.functions = {}
		self.declared = {}
		self._lay = {}
		lines = text.split('\n')
		i = 0
		while i < len(lines):
			l = lines[i]
			if l.startswith('%') and ' = type ' in l:
				n, t = l.split(' = type ', 1)
				self.named[n[1:].strip('"')] = P(tokens(t), self).type()
			elif l.startswith('@'):
				self._global(l)
			elif l.startswith('declare '):
				m = re.search(r'@([\w.$]+)\(', l)
				self.declared[m.group(1)] = l
			elif l.startswith('define '):
				j = i + 1
				while lines[j] != '}':
					j += 1
				self._function(l, lines[i + 1:j])
				i = j
			i += 1

	def _global(self, l):
		l = re.sub(r', (align|section|comdat|!).*$', '', l)
		p = P(tokens(l), self)
		name = p.next()[1:]
		p.need('=')
		ext = False
		while p.peek() in LINK or p.peek() == '(':
			v = p.next()
			if v in ('external', 'extern_weak'):
				ext = True
			if v == '(':
				while p.next() != ')':
					pass
		t = p.type()
		init = None
		if not ext and p.i < len(p.t):
			init = p.value(t)[1]
		self.globals[name] = (t, init)

	def _function(self, head, body):
		m = re.search(r'@("?[\w.$]+"?)\(', head)
		f = Function()
		f.name = m.group(1).strip('"')
		f.ret = None
		p = P(tokens(head[m.end():]), self)
		f.params = []
		n = 0
		while not p.eat(')'):
			if p.eat('...'):
				continue
			t = p.type()
			p.attrs()
			if p.kind() == 'name':
				f.params.append(p.next()[1:])
			else:
				f.params.append(str(n))
			n += 1
			p.eat(',')
		f.blocks = {}
		cur = str(n)
		f.entry = None
		lines = []
		acc = None
		for l in body:
			l = l.split(' ; preds')[0] if ' ; preds' in l else l
			if acc is not None:
				acc += ' ' + l.strip()
				if l.strip() == ']':
					lines.append(acc)
					acc = None
				continue
			if re.match(r'\s*switch .*\[\s*$', l):
				acc = l
				continue
			lines.append(l)
		first = True
		blk = None
		for l in lines:
			if not l.strip() or l.lstrip().startswith(';'):
				continue
			m = re.match(r'("?[-\w.$]+"?):', l)
			if m and not l.startswith(' '):
				cur = m.group(1).strip('"')
				blk = None
				name = cur
				f.blocks[cur] = blk = []
				if first:
					f.entry = cur
					first = False
				continue
			if blk is None:
				f.blocks[cur] = blk = []
				if first:
					f.entry = cur
					first = False
			blk.append(self._instr(l))
		f.blocks = {k: tuple(v) for k, v in f.blocks.items()}
		self.functions[f.name] = f

	def _instr(self, l):
		l = re.sub(r',\s*!.*$', '', l)
		p = P(tokens(l), self)
		dest = None
		if p.kind() == 'name' and p.peek()[0] == '%':
			dest = p.next()[1:]
			p.need('=')
		op = p.next()
		while op in ('tail', 'musttail', 'notail'):
			op = p.next()
		if op in BIN:
			p.attrs()
			t = p.type()
			a = p.value(t)
			p.need(',')
			return ('bin', dest, op, t[1], a, p.value(t))
		if op == 'icmp':
			p.eat('samesign')
			cc = p.next()
			t = p.type()
			a = p.value(t)
			p.need(',')
			return ('icmp', dest, cc, t, a, p.value(t))
		if op in CASTS:
			p.attrs()
			t = p.type()
			a = p.value(t)
			if op == 'freeze':
				return ('cast', dest, 'bitcast', t, a, t)
			p.need('to')
			return ('cast', dest, op, t, a, p.type())
		if op == 'load':
			p.eat('volatile')
			t = p.type()
			p.need(',')
			p.type()
			return ('load', dest, t, p.value(PTR))
		if op == 'store':
			p.eat('volatile')
			t = p.type()
			a = p.value(t)
			p.need(',')
			p.type()
			return ('store', None, t, a, p.value(PTR))
		if op == 'alloca':
			t = p.type()
			n = None
			if p.eat(','):
				if p.peek() != 'align':
					tt = p.type()
					n = p.value(tt)
			return ('alloca', dest, t, n)
		if op == 'getelementptr':
			p.attrs()
			t = p.type()
			p.need(',')
			p.type()
			base = p.value(PTR)
			idx = []
			while p.eat(','):
				tt = p.type()
				idx.append((tt[1], p.value(tt)))
			return ('gep', dest, t, base, tuple(idx))
		if op == 'br':
			if p.eat('label'):
				return ('jmp', None, p.next()[1:])
			t = p.type()
			c = p.value(t)
			p.need(',')
			p.need('label')
			a = p.next()[1:]
			p.need(',')
			p.need('label')
			return ('br', None, c, a, p.next()[1:])
		if op == 'switch':
			t = p.type()
			v = p.value(t)
			p.need(',')
			p.need('label')
			d = p.next()[1:]
			p.need('[')
			cs = []
			while not p.eat(']'):
				tt = p.type()
				k = p.value(tt)[1]
				p.need(',')
				p.need('label')
				cs.append((k, p.next()[1:]))
			return ('switch', None, t[1], v, d, tuple(cs))
		if op == 'phi':
			t = p.type()
			src = {}
			while p.eat('['):
				v = p.value(t)
				p.need(',')
				src[p.next()[1:]] = v
				p.need(']')
				p.eat(',')
			return ('phi', dest, src)
		if op == 'select':
			t = p.type()
			c = p.value(t)
			p.need(',')
			t = p.type()
			a = p.value(t)
			p.need(',')
			t = p.type()
			return ('select', dest, c, a, p.value(t), t)
		if op == 'ret':
			t = p.type()
			return ('ret', None, None if t == VOID else p.value(t))
		if op == 'unreachable':
			return ('unreachable', None)
		if op == 'call':
			p.attrs()
			t = p.type()
			if t[0] == 'fn':
				t = t[1]
			p.attrs()
			callee = p.value(PTR)
			p.need('(')
			args = []
			while not p.eat(')'):
				tt = p.type()
				args.append((tt, p.value(tt) if tt[:1] != ('f',) or tt[1] != 'metadata' else p.next()))
				p.eat(',')
			return ('call', dest, t, callee, tuple(args))
		raise ValueError('IR: unknown instruction ' + l)

	# layout
	def layout(self, t):
		"""-> size, alignment, offsets"""
		r = self._lay.get(t)
		if r is None:
			r = self._lay[t] = self._layout(t)
		return r

	def _layout(self, t):
		k = t[0]
		if k == 'i':
			n = max(1, (t[1] + 7) // 8)
			n = 1 << (n - 1).bit_length()
			return n, min(n, 8), ()
		if k == 'p':
			return 8, 8, ()
		if k == 'f':
			return (4, 4, ()) if t[1] == 'float' else (8, 8, ())
		if k == 'arr':
			s, a, _ = self.layout(t[2])
			return s * t[1], a, ()
		if k == 'named':
			return self.layout(self.named[t[1]])
		if k == 'st':
			off, al, offs = 0, 1, []
			for x in t[1]:
				s, a, _ = self.layout(x)
				if t[2]:
					a = 1
				off = (off + a - 1) // a * a
				offs.append(off)
				off += s
				al = max(al, a)
			return (off + al - 1) // al * al, al, tuple(offs)
		raise ValueError('IR: layout of %r' % (t,))

	def sub(self, t, i):
		"""element type and offset of index i"""
		while t[0] == 'named':
			t = self.named[t[1]]
		if t[0] == 'st':
			return t[1][i], self.layout(t)[2][i]
		if t[0] == 'arr':
			return t[2], None
		raise ValueError('IR: index into %r' % (t,))


# ------------------------------------------------------------------ memory

class Region:
	__slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'zero', 'py', 'owner')

	def __init__(self, size, kind, name='', zero=False):
		self.size = size
		self.cells = {}
		self.alive = True
		self.kind = kind
		self.name = name
		self.zero = zero
		self.py = None
		self.owner = None

	def __repr__(self):
		return '<%s %s>' % (self.kind, self.name)


class Ptr:
	__slots__ = ('r', 'off')

	def __init__(self, r, off):
		self.r = r
		self.off = off

	def __repr__(self):
		return 'Ptr(%r+%r)' % (self.r, self.off)


NULL = Ptr(None, 0)


def mask(w):
	return (1 << w) - 1


def signed(v, w):
	return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
	return v if z3.is_bv(v) else z3.BitVecVal(v, w)


def simp(e):
	e = z3.simplify(e)
	return e.as_long() if z3.is_bv_value(e) else e


def isint(v):
	return type(v) is int


class Machine:
	"""runs functions of a Module; `api` gives the functions it does not define"""

	def __init__(self, mod, api):
		self.mod = mod
		self.api = api
		self.globals = {}
		self.funcs = {}
		self.undef = 0
		self.depth = 0
		for name in list(mod.functions) + list(mod.declared):
			self.funcs[name] = Ptr(Region(1, 'function', name), 0)
		for name, (t, init) in mod.globals.items():
			r = Region(mod.layout(t)[0], 'global', name, init is None)
			self.globals[name] = Ptr(r, 0)
		for name, (t, init) in mod.globals.items():
			if init is not None:
				self.init(self.globals[name].r, 0, t, init)

	def init(self, r, off, t, c):
		if isinstance(c, tuple):
			k = c[0]
			if k == 'zero':
				for i in range(self.mod.layout(t)[0]):
					r.cells[off + i] = 0
				return
			if k == 'bytes':
				for i, b in enumerate(c[1]):
					r.cells[off + i] = b
				return
			if k == 'agg':
				tt = t
				while tt[0] == 'named':
					tt = self.mod.named[tt[1]]
				for i in range(self.mod.layout(t)[0]):
					r.cells.setdefault(off + i, 0)
				for i, (et, ev) in enumerate(c[1]):
					if tt[0] == 'st':
						o = self.mod.layout(tt)[2][i]
					else:
						o = self.mod.layout(tt[2])[0] * i
					self.init(r, off + o, et, ev)
				return
		v = self.const(c)
		self.store_at(r, off, t, v)

	def const(self, c):
		if type(c) is int:
			return c
		k = c[0]
		if k == 'null':
			return NULL
		if k == 'g':
			g = self.globals.get(c[1])
			return g if g is not None else self.funcs[c[1]]
		if k == 'undef':
			return self.fresh(c[1])
		if k == 'zero':
			return 0 if c[1][0] == 'i' else NULL
		if k == 'gep':
			return self.gep(c[1], self.const(c[2][0][1][1]), [(t[1], self.const(v[1])) for t, v in c[2][1:]])
		if k == 'bin':
			return self.binop(c[1], c[2][1], self.const(c[3][1]), self.const(c[4][1]))
		self.unsupported('constant %r' % (c,))

	def fresh(self, t):
		if t[0] == 'p':
			return Ptr(Region(0, 'undefined', 'undefined pointer'), 0)
		self.undef += 1
		return z3.BitVec('undef!%d' % self.undef, t[1])

	def unsupported(self, what):
		core.E.unsupported('C: ' + what)

	# -- obligations
	def bad(self, what):
		v = SxViolation(what)
		self.violation(what)

	def violation(self, what):
		raise NotImplementedError

	def require(self, cond, what):
		"""cond: bool or z3 Bool that must hold"""
		if cond is True:
			return
		if cond is False:
			self.violation(what)
		E = core.E
		m = E.obligation(cond, what)
		if m is not None:
			self.violation(what, m)

	# -- memory
	def check(self, p, n, what):
		"""access of n (int or bv64) bytes at p -> offset"""
		if type(p) is not Ptr:
			self.violation('memory: %s through an integer' % what)
		r = p.r
		if r is None:
			if n == 0:
				return 0
			self.violation('memory: %s through a null pointer' % what)
		if not r.alive:
			self.violation('memory: %s of released memory (%s)' % (what, r.name or r.kind))
		if r.kind == 'opaque':
			off = p.off
			if not isint(off) or not isint(n) or off + n > r.size:
				self.unsupported('%s inside of an object of unknown layout' % what)
			return off
		off = p.off
		if isint(off) and isint(n) and isint(r.size):
			so = signed(off, 64)
			if so < 0 or so + n > r.size:
				self.violation('memory: %s outside of its object (%s %s, offset %d, %d bytes of %d)' % (what, r.kind, r.name, so, n, r.size))
			return off
		o, k, s = bv(off, 64), bv(n, 64), bv(r.size, 64)
		self.require(z3.And(z3.ULE(k, s), z3.ULE(o, s - k)), 'memory: %s outside of its object (%s %s)' % (what, r.kind, r.name))
		return off

	def pin(self, v):
		if isint(v):
			return v
		return core.E.concretize(v, lambda x: x.as_long())

	def alloc(self, size, kind, name='', zero=False):
		return Ptr(Region(size, kind, name, zero), 0)

	def byte(self, r, off):
		c = r.cells.get(off)
		if c is None:
			if r.zero:
				return 0
			self.undef += 1
			c = r.cells[off] = z3.BitVec('undef!%d' % self.undef, 8)
		return c

	def load_at(self, r, off, t):
		if t[0] == 'p':
			c = r.cells.get(off)
			if type(c) is tuple:
				p = c[0]
				for k in range(8):
					x = r.cells.get(off + k)
					if type(x) is not tuple or x[1] != k or x[0] is not p:
						break
				else:
					return p
			bs = [self.byte(r, off + k) for k in range(8)]
			if all(x == 0 for x in bs if isint(x)) and all(isint(x) for x in bs):
				return NULL
			return Ptr(Region(0, 'undefined', 'undefined pointer'), 0)
		if t[0] != 'i':
			self.unsupported('load of %r' % (t,))
		n = self.mod.layout(t)[0]
		bs = [self.byte(r, off + k) for k in range(n)]
		if all(type(x) is int for x in bs):
			return int.from_bytes(bytes(bs), 'little') & mask(t[1])
		if any(type(x) is tuple for x in bs):
			if n == 8:
				return self.load_at(r, off, PTR)
			self.unsupported('part of a pointer read as an integer')
		e = z3.Concat(*[bv(x, 8) for x in reversed(bs)]) if n > 1 else bs[0]
		if t[1] != 8 * n:
			e = z3.Extract(t[1] - 1, 0, e)
		return simp(e)

	def store_at(self, r, off, t, v):
		if type(v) is Ptr:
			if v.r is None and v.off == 0:
				for k in range(8):
					r.cells[off + k] = 0
				return
			for k in range(8):
				r.cells[off + k] = (v, k)
			return
		if t[0] == 'p' and isint(v):
			for k in range(8):
				r.cells[off + k] = v >> 8 * k & 255
			return
		if t[0] != 'i':
			self.unsupported('store of %r' % (t,))
		n = self.mod.layout(t)[0]
		if isint(v):
			for k in range(n):
				r.cells[off + k] = v >> (8 * k) & 255
			return
		if t[1] != 8 * n:
			v = z3.ZeroExt(8 * n - t[1], v)
		for k in range(n):
			r.cells[off + k] = simp(z3.Extract(8 * k + 7, 8 * k, v))

	def load(self, p, t):
		n = self.mod.layout(t)[0]
		off = self.check(p, n, 'read')
		if not isint(off):
			r = self.merged(p.r, off, t)
			if r is not None:
				return r
			off = self.pin(off)
		return self.load_at(p.r, off, t)

	def merged(self, r, off, t):
		return None

	def store(self, p, t, v):
		n = self.mod.layout(t)[0]
		off = self.check(p, n, 'write')
		if p.r.kind == 'function':
			self.violation('memory: write to code')
		self.store_at(p.r, self.pin(off), t, v)

	def memcpy(self, d, s, n):
		if isint(n) and n == 0:
			return
		do = self.check(d, n, 'write')
		so = self.check(s, n, 'read')
		n, do, so = self.pin(n), self.pin(do), self.pin(so)
		if d.r is None or s.r is None:
			return
		if n > 1 << 20:
			raise core.SxBound('copy of %d bytes' % n)
		src = s.r.cells
		buf = [src.get(so + k) for k in range(n)]
		if s.r.zero:
			buf = [0 if x is None else x for x in buf]
		dst = d.r.cells
		for k in range(n):
			x = buf[k]
			if x is None:
				dst.pop(do + k, None)
				if d.r.zero:
					dst[do + k] = self.byte(s.r, so + k)
			else:
				dst[do + k] = x

	def memset(self, d, v, n):
		if isint(n) and n == 0:
			return
		do = self.check(d, n, 'write')
		n, do = self.pin(n), self.pin(do)
		v = v & 255 if isint(v) else simp(z3.Extract(7, 0, v))
		for k in range(n):
			d.r.cells[do + k] = v

	def bytes_at(self, p, n):
		off = self.pin(self.check(p, n, 'read'))
		n = self.pin(n)
		return [self.byte(p.r, off + k) for k in range(n)]

	def cstr(self, p):
		out = bytearray()
		while True:
			off = self.check(p, 1, 'read')
			b = self.byte(p.r, off + len(out)) if off + len(out) < p.r.size else self.violation('memory: unterminated string')
			b = self.pin(b)
			if b == 0:
				return out.decode('utf-8', 'surrogateescape')
			out.append(b)

	def free(self, p):
		if p.r is None:
			return
		if p.r.kind != 'heap' or p.off != 0:
			self.violation('memory: release of memory that was not allocated (%s)' % p.r.kind)
		if not p.r.alive:
			self.violation('memory: released twice')
		p.r.alive = False

	# -- operations
	def gep(self, t, base, idx):
		off = 0
		first = True
		for w, i in idx:
			if first:
				size = self.mod.layout(t)[0]
				first = False
			else:
				if t[0] == 'named' or t[0] == 'st':
					t, o = self.mod.sub(t, i)
					off = self.add64(off, o)
					continue
				t, _ = self.mod.sub(t, i)
				size = self.mod.layout(t)[0]
			if isint(i):
				off = self.add64(off, signed(i, w) * size & mask(64))
			else:
				e = z3.SignExt(64 - w, i) if w < 64 else i
				off = self.add64(off, simp(e * size))
		if type(base) is not Ptr:
			self.unsupported('pointer arithmetic on an integer')
		if isint(off) and off == 0:
			return base
		return Ptr(base.r, self.add64(base.off, off))

	def add64(self, a, b):
		if isint(a) and isint(b):
			return (a + b) & mask(64)
		return simp(bv(a, 64) + bv(b, 64))

	def binop(self, op, w, a, b):
		if type(a) is Ptr or type(b) is Ptr:
			if op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.r is b.r:
				return self.binop('sub', 64, a.off, b.off)
			if op in ('add', 'sub') and type(a) is Ptr and type(b) is not Ptr:
				return Ptr(a.r, self.binop(op, 64, a.off, b))
			if op == 'add' and type(b) is Ptr and type(a) is not Ptr:
				return Ptr(b.r, self.binop(op, 64, a, b.off))
			self.unsupported('%s of unrelated pointers' % op)
		m = mask(w)
		if isint(a) and isint(b):
			if op == 'add':
				return a + b & m
			if op == 'sub':
				return a - b & m
			if op == 'mul':
				return a * b & m
			if op == 'and':
				return a & b
			if op == 'or':
				return a | b
			if op == 'xor':
				return a ^ b
			if op == 'shl':
				return a << b & m if b < w else self.bad('shift by %d' % b)
			if op == 'lshr':
				return a >> b
			if op == 'ashr':
				return signed(a, w) >> b & m
			if b == 0:
				self.violation('division by zero')
			if op == 'udiv':
				return a // b
			if op == 'urem':
				return a % b
			x, y = signed(a, w), signed(b, w)
			q = abs(x) // abs(y)
			if (x < 0) != (y < 0):
				q = -q
			return (q if op == 'sdiv' else x - q * y) & m
		x, y = bv(a, w), bv(b, w)
		if op in ('udiv', 'sdiv', 'urem', 'srem'):
			self.require(y != 0, 'division by zero')
		e = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
			'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x / y,
			'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y)}[op]()
		return simp(e)

	def icmp(self, cc, t, a, b):
		if type(a) is Ptr or type(b) is Ptr:
			if isint(a) and a == 0:
				a = NULL
			if isint(b) and b == 0:
				b = NULL
			if type(a) is Ptr and type(b) is Ptr:
				for x in (a, b):
					if x.r is not None and x.r.kind == 'undefined':
						self.violation('memory: use of an undefined pointer')
				if a.r is b.r:
					return self.icmp(cc, ('i', 64), a.off, b.off) if cc in ('eq', 'ne') else self.icmp(cc.replace('u', 's', 1), ('i', 64), a.off, b.off)
				if cc == 'eq':
					return 0
				if cc == 'ne':
					return 1
			self.unsupported('comparison of unrelated pointers')
		w = t[1]
		if isint(a) and isint(b):
			if cc[0] == 's':
				a, b = signed(a, w), signed(b, w)
			k = cc[1:] if cc not in ('eq', 'ne') else cc
			return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[k])
		x, y = bv(a, w), bv(b, w)
		c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y),
			'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[cc]()
		c = z3.simplify(c)
		if z3.is_true(c):
			return 1
		if z3.is_false(c):
			return 0
		return simp(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))

	def truth(self, c):
		if isint(c):
			return c != 0
		return core.E.branch(c == 1)

	def cast(self, op, t, v, to):
		if type(v) is Ptr:
			if to[0] == 'p' or to == ('i', 64):
				return v
			if to[0] == 'i':
				self.unsupported('pointer truncated to an integer')
		if op in ('bitcast', 'addrspacecast'):
			return v
		if op == 'inttoptr':
			if isint(v) and v == 0:
				return NULL
			return Ptr(Region(0, 'undefined', 'integer'), 0)
		a, b = t[1], to[1]
		if op == 'ptrtoint':
			self.unsupported('pointer to integer')
		if isint(v):
			if op == 'trunc' or op == 'zext':
				return v & mask(b)
			return signed(v, a) & mask(b)
		if op == 'trunc':
			return simp(z3.Extract(b - 1, 0, v))
		return simp(z3.ZeroExt(b - a, v) if op == 'zext' else z3.SignExt(b - a, v))

	# -- execution
	def call(self, name, args):
		f = self.mod.functions.get(name)
		if f is None:
			g = self.api.get(name)
			if g is None:
				self.unsupported('call of %s' % name)
			return g(self, *args)
		self.called.add(name)
		self.depth += 1
		if self.depth > 200:
			raise core.SxHang()
		try:
			return self.run(f, args)
		finally:
			self.depth -= 1

	def run(self, f, args):
		regs = dict(zip(f.params, args))
		cur, prev = f.entry, None
		seen = set()
		local = []
		const = self.const

		def val(o):
			if o[0] == 'r':
				return regs[o[1]]
			c = o[1]
			return c if type(c) is int else const(c)
		try:
			while True:
				if cur in seen:
					hooks.tick()
				seen.add(cur)
				blk = f.blocks[cur]
				phis = None
				nxt = None
				for ins in blk:
					op = ins[0]
					if op == 'phi':
						if phis is None:
							phis = []
						phis.append((ins[1], val(ins[2][prev])))
						continue
					if phis is not None:
						for d, v in phis:
							regs[d] = v
						phis = None
					if op == 'load':
						regs[ins[1]] = self.load(val(ins[3]), ins[2])
					elif op == 'store':
						self.store(val(ins[4]), ins[2], val(ins[3]))
					elif op == 'gep':
						regs[ins[1]] = self.gep(ins[2], val(ins[3]), [(w, val(i)) for w, i in ins[4]])
					elif op == 'icmp':
						regs[ins[1]] = self.icmp(ins[2], ins[3], val(ins[4]), val(ins[5]))
					elif op == 'bin':
						regs[ins[1]] = self.binop(ins[2], ins[3], val(ins[4]), val(ins[5]))
					elif op == 'cast':
						regs[ins[1]] = self.cast(ins[2], ins[3], val(ins[4]), ins[5])
					elif op == 'br':
						nxt = ins[3] if self.truth(val(ins[2])) else ins[4]
						break
					elif op == 'jmp':
						nxt = ins[2]
						break
					elif op == 'call':
						if ins[3][0] == 'k' and ins[3][1][0] == 'g':
							name = ins[3][1][1]
							if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'):
								continue
						else:
							p = val(ins[3])
							if type(p) is not Ptr or p.r is None or p.r.kind != 'function':
								self.violation('memory: call through a bad pointer')
							name = p.r.name
						r = self.call(name, [val(a) for t, a in ins[4]])
						if ins[1] is not None:
							regs[ins[1]] = r
					elif op == 'alloca':
						n = 1 if ins[3] is None else self.pin(val(ins[3]))
						p = self.alloc(self.mod.layout(ins[2])[0] * n, 'stack', f.name)
						local.append(p.r)
						regs[ins[1]] = p
					elif op == 'switch':
						v = val(ins[3])
						nxt = ins[4]
						for k, l in ins[5]:
							if isint(v):
								if v == k:
									nxt = l
									break
							elif core.E.branch(v == k):
								nxt = l
								break
						break
					elif op == 'select':
						c = val(ins[2])
						if isint(c):
							regs[ins[1]] = val(ins[3]) if c else val(ins[4])
						else:
							a, b = val(ins[3]), val(ins[4])
							if type(a) is Ptr or type(b) is Ptr:
								regs[ins[1]] = a if self.truth(c) else b
							else:
								w = ins[5][1]
								regs[ins[1]] = simp(z3.If(c == 1, bv(a, w), bv(b, w)))
					elif op == 'ret':
						return None if ins[2] is None else val(ins[2])
					elif op == 'unreachable':
						self.violation('memory: execution ran off the code')
				prev, cur = cur, nxt
		finally:
			for r in local:
				r.alive = False

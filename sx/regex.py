"""Backtracking regular expression matcher over symbolic text.

The pattern is parsed by the standard library's own parser, so its syntax is
the real one; matching forks on every symbolic character test.
"""
import re
import re._parser as _p
import re._constants as c
from . import core
from .values import SymStr, SymBytes, SymInt, is_sym, sand, sor, snot, elem_eq, char_in_class

__sx_transformed__ = True

_cache = {}


def _parsed(pat):
	key = (pat.pattern, pat.flags)
	r = _cache.get(key)
	if r is None:
		tree = _p.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags)
		r = _cache[key] = (list(tree), tree.state.groups, dict(tree.state.groupdict))
	return r


def _fold(ch):
	return {ord(chr(ch).lower()), ord(chr(ch).upper())} if len(chr(ch).upper()) == 1 and len(chr(ch).lower()) == 1 else {ch}


class M:
	def __init__(self, items, flags, isb, ngroups):
		self.a = items
		self.n = len(items)
		self.flags = flags
		self.isb = isb
		self.cls = bytes if isb else str
		self.ascii = isb or bool(flags & re.ASCII)
		self.groups = [None] * (ngroups + 1)
		self.steps = 0

	def lit(self, x, ch):
		if self.flags & re.IGNORECASE:
			return sor(*[elem_eq(x, k) for k in _fold(ch)])
		return elem_eq(x, ch)

	def category(self, x, cat):
		neg = False
		name = str(cat).lower()
		if '_not_' in name:
			neg = True
		kind = name.rsplit('_', 1)[1]
		if kind == 'digit':
			r = sand(x >= 48, x <= 57) if self.ascii else char_in_class(x, 'isdecimal', str)
		elif kind == 'space':
			r = sor(*[elem_eq(x, k) for k in b' \t\n\r\x0b\x0c']) if self.ascii else char_in_class(x, 'isspace', str)
		elif kind == 'word':
			if self.ascii:
				r = sor(sand(x >= 48, x <= 57), sand(x >= 65, x <= 90), sand(x >= 97, x <= 122), elem_eq(x, 95))
			else:
				r = sor(char_in_class(x, 'isalnum', str), elem_eq(x, 95))
		else:
			core.E.unsupported('regex category %s' % cat)
		return snot(r) if neg else r

	def inset(self, x, av):
		neg = False
		rs = []
		for op, v in av:
			if op is c.NEGATE:
				neg = True
			elif op is c.LITERAL:
				rs.append(self.lit(x, v))
			elif op is c.RANGE:
				if self.flags & re.IGNORECASE:
					s = set()
					for k in range(v[0], v[1] + 1):
						s |= _fold(k)
					rs.extend(elem_eq(x, k) for k in s)
				else:
					rs.append(sand(x >= v[0], x <= v[1]))
			elif op is c.CATEGORY:
				rs.append(self.category(x, v))
			else:
				core.E.unsupported('regex set op %s' % op)
		r = sor(*rs)
		return snot(r) if neg else r

	def m(self, ops, k, i, cont):
		"""match ops[k:] at i, then cont(i)"""
		self.steps += 1
		if self.steps > 20000:
			raise core.SxBound('regular expression steps')
		while k < len(ops):
			op, av = ops[k]
			if op is c.LITERAL:
				if i >= self.n or not self.lit(self.a[i], av):
					return None
				i += 1
			elif op is c.NOT_LITERAL:
				if i >= self.n or self.lit(self.a[i], av):
					return None
				i += 1
			elif op is c.IN:
				if i >= self.n or not self.inset(self.a[i], av):
					return None
				i += 1
			elif op is c.ANY:
				if i >= self.n or (not self.flags & re.DOTALL and elem_eq(self.a[i], 10)):
					return None
				i += 1
			elif op is c.AT:
				if not self.at(av, i):
					return None
			elif op in (c.MAX_REPEAT, c.MIN_REPEAT, getattr(c, 'POSSESSIVE_REPEAT', None)):
				if op not in (c.MAX_REPEAT, c.MIN_REPEAT):
					core.E.unsupported('possessive repeat')
				lo, hi, sub = av
				hi = self.n + 1 if hi is c.MAXREPEAT else hi
				rest = lambda j: self.m(ops, k + 1, j, cont)
				return self.rep(list(sub), lo, hi, i, 0, rest, op is c.MAX_REPEAT, -1)
			elif op is c.SUBPATTERN:
				g, add, dele, sub = av
				of = self.flags
				nf = (of | add) & ~dele
				start = i
				old = self.groups[g] if g is not None else None

				def after(j, start=start, g=g, old=old):
					self.flags = of
					if g is not None:
						prev = self.groups[g]
						self.groups[g] = (start, j)
						r = self.m(ops, k + 1, j, cont)
						if r is None:
							self.groups[g] = prev
					else:
						r = self.m(ops, k + 1, j, cont)
					if r is None:
						self.flags = nf
					return r
				self.flags = nf
				r = self.m(list(sub), 0, i, after)
				self.flags = of
				return r
			elif op is c.BRANCH:
				for alt in av[1]:
					r = self.m(list(alt), 0, i, lambda j: self.m(ops, k + 1, j, cont))
					if r is not None:
						return r
				return None
			elif op is c.GROUPREF:
				g = self.groups[av]
				if g is None:
					return None
				L = g[1] - g[0]
				if i + L > self.n:
					return None
				for t in range(L):
					if not elem_eq(self.a[g[0] + t], self.a[i + t]):
						return None
				i += L
			elif op in (c.ASSERT, c.ASSERT_NOT):
				dirn, sub = av
				if dirn > 0:
					r = self.m(list(sub), 0, i, lambda j: (j,))
				else:
					w = sub.getwidth()
					if w[0] != w[1]:
						core.E.unsupported('look-behind of variable width')
					r = None if i - w[0] < 0 else self.m(list(sub), 0, i - w[0], lambda j: (j,))
				if (r is None) == (op is c.ASSERT):
					return None
			else:
				core.E.unsupported('regex op %s' % op)
			k += 1
		return cont(i)

	def rep(self, sub, lo, hi, i, cnt, rest, greedy, lastpos):
		if cnt >= lo and not greedy:
			r = rest(i)
			if r is not None:
				return r
		if cnt < hi and not (cnt >= lo and i == lastpos):
			saved = list(self.groups)
			r = self.m(sub, 0, i, lambda j: self.rep(sub, lo, hi, j, cnt + 1, rest, greedy, i))
			if r is not None:
				return r
			self.groups = saved
		if cnt >= lo and greedy:
			return rest(i)
		return None

	def at(self, av, i):
		if av is c.AT_BEGINNING:
			return i == 0 or (self.flags & re.MULTILINE and elem_eq(self.a[i - 1], 10))
		if av is c.AT_BEGINNING_STRING:
			return i == 0
		if av is c.AT_END:
			if i == self.n:
				return True
			if self.flags & re.MULTILINE:
				return elem_eq(self.a[i], 10)
			return i == self.n - 1 and elem_eq(self.a[i], 10)
		if av is c.AT_END_STRING:
			return i == self.n
		if av in (c.AT_BOUNDARY, c.AT_NON_BOUNDARY):
			w = lambda j: bool(0 <= j < self.n and self.category(self.a[j], c.CATEGORY_WORD))
			b = w(i - 1) != w(i)
			return b if av is c.AT_BOUNDARY else not b
		core.E.unsupported('regex anchor %s' % av)


class SxMatch:
	def __init__(self, pat, s, start, end, groups, gd):
		self.re = pat
		self.string = s
		self._s, self._e = start, end
		self._g = groups
		self._gd = gd
		self.pos = 0
		self.lastindex = None
		ends = [(g[1], k) for k, g in enumerate(groups) if k and g]
		if ends:
			self.lastindex = max(ends)[1]

	def _idx(self, g):
		if isinstance(g, str):
			return self._gd[g]
		return int(g)

	def span(self, g=0):
		g = self._idx(g)
		if g == 0:
			return (self._s, self._e)
		return self._g[g] if self._g[g] else (-1, -1)

	def start(self, g=0):
		return self.span(g)[0]

	def end(self, g=0):
		return self.span(g)[1]

	def _get(self, g, default=None):
		a, b = self.span(g)
		if a < 0:
			return default
		return self.string[a:b]

	def group(self, *gs):
		if not gs:
			gs = (0,)
		r = tuple(self._get(g) for g in gs)
		return r[0] if len(r) == 1 else r

	def __getitem__(self, g):
		return self._get(g)

	def groups(self, default=None):
		return tuple(self._get(i, default) for i in range(1, len(self._g)))

	def groupdict(self, default=None):
		return {k: self._get(v, default) for k, v in self._gd.items()}

	def expand(self, tpl):
		core.E.unsupported('match.expand')


def _at(pat, s, i, full=False, nonempty=False):
	ops, ng, gd = _parsed(pat)
	isb = isinstance(pat.pattern, bytes)
	mm = M(s.items, pat.flags, isb, ng - 1)
	if full:
		r = mm.m(ops, 0, i, lambda j: (j,) if j == mm.n else None)
	elif nonempty:
		r = mm.m(ops, 0, i, lambda j: (j,) if j != i else None)
	else:
		r = mm.m(ops, 0, i, lambda j: (j,))
	if r is None:
		return None
	return SxMatch(pat, s, i, r[0], mm.groups, gd)


def _chk(pat, s):
	isb = isinstance(pat.pattern, bytes)
	if isb != isinstance(s, bytes):
		raise TypeError('cannot use a %s pattern on this object' % ('bytes' if isb else 'string'))


def match(pat, s, pos=0, endpos=None):
	_chk(pat, s)
	if endpos is not None:
		s = s[:endpos]
	return _at(pat, s, int(pos))


def fullmatch(pat, s, pos=0, endpos=None):
	_chk(pat, s)
	return _at(pat, s, int(pos), True)


def search(pat, s, pos=0, endpos=None):
	_chk(pat, s)
	if endpos is not None:
		s = s[:endpos]
	for i in range(int(pos), len(s) + 1):
		m = _at(pat, s, i)
		if m is not None:
			return m
	return None


def finditer(pat, s, pos=0, endpos=None):
	sc = Scanner(pat, s, pos, endpos)
	while True:
		m = sc.search()
		if m is None:
			return
		yield m


class Scanner:
	"""pattern.scanner(): an empty match is never followed by an empty match at its own end"""

	def __init__(self, pat, s, pos=0, endpos=None):
		_chk(pat, s)
		if endpos is not None:
			s = s[:endpos]
		self.pattern = pat
		self.s = s
		self.i = int(pos)
		self.adv = False

	def _done(self, m):
		if m is None:
			self.i = None
			return None
		self.adv = m._e == m._s
		self.i = m._e
		return m

	def search(self):
		if self.i is None:
			return None
		for j in range(self.i, len(self.s) + 1):
			m = _at(self.pattern, self.s, j, nonempty=self.adv and j == self.i)
			if m is not None:
				return self._done(m)
		return self._done(None)

	def match(self):
		if self.i is None or self.i > len(self.s):
			return None
		return self._done(_at(self.pattern, self.s, self.i, nonempty=self.adv))


def findall(pat, s, pos=0):
	out = []
	for m in finditer(pat, s, pos):
		g = len(m._g) - 1
		if g == 0:
			out.append(m.group())
		elif g == 1:
			out.append(m._get(1, s[0:0]))
		else:
			out.append(m.groups(s[0:0]))
	return out


def sub(pat, repl, s, count=0):
	return subn(pat, repl, s, count)[0]


def subn(pat, repl, s, count=0):
	_chk(pat, s)
	out = s[0:0]
	last = 0
	n = 0
	for m in finditer(pat, s):
		if count and n >= count:
			break
		out = out + s[last:m._s]
		if callable(repl):
			r = repl(m)
		else:
			r = template(pat, repl, m)
		if r is not None:
			out = out + r
		last = m._e
		n += 1
	out = out + s[last:]
	return out, n


def template(pat, repl, m):
	cls = SymBytes if isinstance(repl, bytes) else SymStr
	it = cls._coerce(repl)
	out = []
	i = 0
	while i < len(it):
		if not elem_eq(it[i], 92):
			out.append(it[i])
			i += 1
			continue
		if i + 1 >= len(it):
			raise re.error('bad escape (end of pattern)')
		x = it[i + 1]
		if elem_eq(x, 92):
			out.append(92)
			i += 2
		elif sand(x >= 49, x <= 57):
			g = int(x) - 48
			if i + 2 < len(it) and sand(it[i + 2] >= 48, it[i + 2] <= 57):
				core.E.unsupported('two-digit group reference')
			if g >= len(m._g):
				raise re.error('invalid group reference %d' % g)
			v = m._get(g)
			out.extend(cls._coerce(v) if v is not None else ())
			i += 2
		elif elem_eq(x, 103) or elem_eq(x, 48):
			core.E.unsupported('regex template escape')
		else:
			hit = False
			for a, b in zip(b'nrtabfv', b'\n\r\t\a\b\f\v'):
				if elem_eq(x, a):
					out.append(b)
					hit = True
					break
			if not hit:
				if sor(sand(x >= 65, x <= 90), sand(x >= 97, x <= 122)):
					raise re.error('bad escape')
				out.append(92)
				out.append(x)
			i += 2
	return cls(out)


def split(pat, s, maxsplit=0):
	_chk(pat, s)
	out = []
	last = 0
	n = 0
	for m in finditer(pat, s):
		if maxsplit and n >= maxsplit:
			break
		out.append(s[last:m._s])
		out.extend(m.groups())
		last = m._e
		n += 1
	out.append(s[last:])
	return out


METHODS = {'match': match, 'fullmatch': fullmatch, 'search': search, 'finditer': finditer,
	'findall': findall, 'split': split, 'scanner': Scanner}


def call(pat, name, args, kw):
	if name == 'sub' or name == 'subn':
		repl, s = args[0], args[1]
		cnt = args[2] if len(args) > 2 else kw.get('count', 0)
		if not is_sym(s):
			s = (SymBytes if isinstance(s, bytes) else SymStr)((SymBytes if isinstance(s, bytes) else SymStr)._coerce(s))
		return (sub if name == 'sub' else subn)(pat, repl, s, cnt)
	f = METHODS.get(name)
	if f is None:
		core.E.unsupported('regex method ' + name)
	return f(pat, *args, **kw)

"""%-formatting, str.format, f-strings, int()/str() on symbolic values."""
import re
import string as _string
from . import core
from .values import (SymStr, SymBytes, SymInt, SymBool, SymFloat, is_sym, sand, sor, elem_eq, Sym, SymSeq,
	as_zbool, char_in_class)

__sx_transformed__ = True

OPAQUE = '<symbolic>'


def has_sym(x, depth=3):
	if is_sym(x):
		return True
	if depth and type(x) in (tuple, list):
		return any(has_sym(y, depth - 1) for y in x)
	return False


def digits_of(n, base=10, upper=False):
	"""items of the digits of a non-negative SymInt (forks on their number)"""
	if type(n) is int:
		return list(map(ord, {10: '%d', 16: '%x', 8: '%o'}[base] % n)) if base != 2 else list(map(ord, bin(n)[2:]))
	k = 1
	lim = base
	while lim <= n.hi and n >= lim:
		k += 1
		lim *= base
	out = []
	x = n
	if type(x) is SymInt:
		x = SymInt.make(x.e, max(x.lo, 0), min(x.hi, lim - 1))
	for _ in range(k):
		x, d = divmod(x, base)
		if type(d) is SymInt:
			if base > 10:
				d = SymInt.ite(as_zbool(d < 10), d + 48, d + (55 if upper else 87))
			else:
				d = d + 48
		else:
			d = ord('0123456789abcdef'[d])
		out.append(d)
	out.reverse()
	return out


def int_items(v, base=10, upper=False):
	if type(v) is SymBool:
		return list(map(ord, str(bool(v))))
	if v < 0:
		return [45] + digits_of(-v, base, upper)
	return digits_of(v, base, upper)


def sx_str(x):
	"""str(x)"""
	t = type(x)
	if t is SymStr:
		return x
	if t is SymInt:
		return SymStr(int_items(x))
	if t is SymBool:
		return str(bool(x))
	if is_sym(x):
		return sx_repr(x)
	if t in (tuple, list) and has_sym(x):
		return sx_repr(x)
	return str(x)


def sx_repr(x):
	t = type(x)
	if t is SymInt:
		return SymStr(int_items(x))
	if t is SymBool:
		return str(bool(x))
	if is_sym(x) or has_sym(x):
		return OPAQUE
	return repr(x)


_pct = re.compile(r'%(?:\((?P<key>.*?)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def pad(items, width, flags):
	if width and len(items) < width:
		n = width - len(items)
		if '-' in flags:
			return items + [32] * n
		if '0' in flags:
			if items and type(items[0]) is int and items[0] in (45, 43):
				return items[:1] + [48] * n + items[1:]
			return [48] * n + items
		return [32] * n + items
	return items


def percent(f, args):
	"""f % args with symbolic pieces"""
	isb = isinstance(f, bytes)
	cls = SymBytes if isb else SymStr
	if is_sym(f):
		if not f.is_concrete():
			return percent_symbolic(f, args, isb, cls)
		f = f.native()
	if isb:
		fs = f.decode('latin-1')
	else:
		fs = f
	out = []
	pos = 0
	single = not isinstance(args, tuple)
	isdict = single and hasattr(args, 'keys')
	seq = (args,) if single else args
	ai = 0

	def nxt():
		nonlocal ai
		if ai >= len(seq):
			raise TypeError('not enough arguments for format string')
		ai += 1
		return seq[ai - 1]

	i = 0
	while i < len(fs):
		c = fs[i]
		if c != '%':
			out.append(ord(c))
			i += 1
			continue
		m = _pct.match(fs, i)
		if m is None:
			raise ValueError('incomplete format')
		i = m.end()
		conv = m.group('conv')
		if conv == '%':
			out.append(37)
			continue
		flags = m.group('flags')
		width = m.group('width')
		prec = m.group('prec')
		if m.group('key') is not None:
			if not isdict:
				raise TypeError('format requires a mapping')
			a = args[m.group('key')]
			ai = len(seq)
		else:
			if width == '*':
				width = int(nxt())
			if prec == '*':
				prec = int(nxt())
			a = nxt()
		out.extend(conv_one(a, conv, flags, int(width) if width else 0, None if prec is None else int(prec or 0), cls))
	if ai < len(seq) and not isdict:
		raise TypeError('not all arguments converted during string formatting')
	return cls(out)


def percent_symbolic(f, args, isb, cls):
	"""The format text itself is symbolic: only %s, %(key)s, %d and %% are modelled."""
	if isb:
		core.E.unsupported('symbolic bytes format')
	items = f.items
	out = []
	single = not isinstance(args, tuple)
	isdict = single and hasattr(args, 'keys')
	seq = (args,) if single else args
	ai = 0
	i = 0
	n = len(items)
	while i < n:
		if not elem_eq(items[i], 37):
			out.append(items[i])
			i += 1
			continue
		i += 1
		if i >= n:
			raise ValueError('incomplete format')
		if elem_eq(items[i], 37):
			out.append(37)
			i += 1
			continue
		key = None
		if elem_eq(items[i], 40):
			if not isdict:
				raise TypeError('format requires a mapping')
			depth = 1
			j = i + 1
			while j < n:
				if elem_eq(items[j], 41):
					depth -= 1
					if depth == 0:
						break
				elif elem_eq(items[j], 40):
					depth += 1
				j += 1
			if depth:
				raise ValueError('incomplete format key')
			key = SymStr(items[i + 1:j])
			i = j + 1
			if i >= n:
				raise ValueError('incomplete format')
		flags = ''
		while sor(*[elem_eq(items[i], ord(c)) for c in '#0- +']):
			flags += '?'
			i += 1
			if i >= n:
				raise ValueError('incomplete format')
		while sand(items[i] >= 48, items[i] <= 57) or elem_eq(items[i], 42) or elem_eq(items[i], 46):
			core.E.unsupported('symbolic format width')
		for c in 'hlL':
			if elem_eq(items[i], ord(c)):
				core.E.unsupported('symbolic format length')
		if elem_eq(items[i], 37):
			# e.g. '% %' consumes nothing
			out.append(37)
			i += 1
			continue
		if key is not None:
			from .containers import lookup
			a = lookup(args, key)
			ai = len(seq)
		else:
			if ai >= len(seq):
				raise TypeError('not enough arguments for format string')
			a = seq[ai]
			ai += 1
		hit = None
		for c in 'sraducxXeEfFgGio':
			if elem_eq(items[i], ord(c)):
				hit = c
				break
		if hit is None:
			raise ValueError('unsupported format character')
		i += 1
		if flags and hit not in 's':
			core.E.unsupported('symbolic format flags')
		out.extend(conv_one(a, hit, '', 0, None, cls))
	if ai < len(seq) and not isdict:
		raise TypeError('not all arguments converted during string formatting')
	return cls(out)


def conv_one(a, conv, flags, width, prec, cls):
	if conv in 'sra' and cls is SymStr:
		v = sx_str(a) if conv == 's' else sx_repr(a)
		it = list(SymStr._coerce(v))
		if prec is not None:
			it = it[:prec]
		return pad(it, width, flags.replace('0', ''))
	if conv in 'sb' and cls is SymBytes:
		it = SymBytes._coerce(a)
		if it is None:
			raise TypeError("%b requires a bytes-like object")
		it = list(it)
		if prec is not None:
			it = it[:prec]
		return pad(it, width, flags.replace('0', ''))
	if conv in 'diuxXo':
		if not isinstance(a, int):
			if isinstance(a, float) and conv in 'diu' and not is_sym(a):
				a = int(a)
			else:
				raise TypeError('%%%s format: a real number is required, not %s' % (conv, type(a).__name__))
		if type(a) is SymBool:
			a = int(bool(a))
		base = {'x': 16, 'X': 16, 'o': 8}.get(conv, 10)
		it = int_items(a, base, conv == 'X')
		if prec is not None:
			neg = type(it[0]) is int and it[0] == 45
			body = it[1:] if neg else it
			body = [48] * (prec - len(body)) + body
			it = ([45] if neg else []) + body
		if '+' in flags and not (type(it[0]) is int and it[0] == 45):
			it = [43] + it
		elif ' ' in flags and not (type(it[0]) is int and it[0] == 45):
			it = [32] + it
		if '#' in flags:
			core.E.unsupported('# flag')
		return pad(it, width, flags)
	if conv == 'c':
		if isinstance(a, int):
			return pad([a], width, flags)
		it = cls._coerce(a)
		if it is None or len(it) != 1:
			raise TypeError('%c requires int or char')
		return pad(list(it), width, flags)
	if conv in 'eEfFgG':
		if is_sym(a):
			core.E.unsupported('float formatting')
		return list(map(ord, ('%' + flags + (str(width) if width else '') + ('' if prec is None else '.%d' % prec) + conv) % a))
	raise ValueError('unsupported format character %r' % conv)


def sx_format(v, spec=''):
	"""format(v, spec)"""
	if is_sym(spec):
		core.E.unsupported('symbolic format spec')
	if not is_sym(v):
		if spec == '' and has_sym(v):
			return sx_str(v)
		return format(v, spec)
	if spec == '':
		return sx_str(v)
	m = re.fullmatch(r'(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?(?:\.(\d+))?([sdxXobc])?', spec)
	if m is None:
		core.E.unsupported('format spec %r' % spec)
	fill, align, sign, alt, zero, width, prec, typ = m.groups()
	if isinstance(v, str):
		it = list(SymStr._coerce(v))
		if prec is not None:
			it = it[:int(prec)]
		default = '<'
	else:
		if type(v) is SymFloat:
			core.E.unsupported('float formatting')
		if type(v) is SymBool:
			v = v._i()
		it = [v] if typ == 'c' else int_items(v, {'x': 16, 'X': 16, 'o': 8, 'b': 2}.get(typ, 10), typ == 'X')
		neg = type(it[0]) is int and it[0] == 45
		if sign in ('+', ' ') and not neg:
			it = [ord(sign)] + it
		if alt:
			core.E.unsupported('# in format spec')
		default = '>'
	if width:
		w = int(width)
		if zero and not align:
			return SymStr(pad(it, w, '0'))
		n = max(0, w - len(it))
		f = ord(fill or ' ')
		a = align or default
		if a == '<':
			it = it + [f] * n
		elif a == '>':
			it = [f] * n + it
		elif a == '^':
			it = [f] * (n // 2) + it + [f] * (n - n // 2)
		else:
			core.E.unsupported('= alignment')
	return SymStr(it)


class _Fmt(_string.Formatter):
	pass


def str_format(f, args, kw):
	if is_sym(f):
		if not f.is_concrete():
			core.E.unsupported('symbolic format string')
		f = f.native()
	out = []
	auto = 0
	for lit, field, spec, conv in _string.Formatter().parse(f):
		out.extend(map(ord, lit))
		if field is None:
			continue
		m = re.match(r'[^.\[]*', field)
		first = m.group(0)
		rest = field[m.end():]
		if first == '':
			v = args[auto]
			auto += 1
		elif first.isdigit():
			v = args[int(first)]
		else:
			v = kw[first]
		for a in re.finditer(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
			if a.group(1):
				v = getattr(v, a.group(1))
			else:
				k = a.group(2)
				v = v[int(k) if k.isdigit() else k]
		if conv == 'r':
			v = sx_repr(v)
		elif conv == 's':
			v = sx_str(v)
		if spec and '{' in spec:
			spec = str_format(spec, args, kw)
			spec = spec.native() if is_sym(spec) else spec
		r = sx_format(v, spec or '')
		out.extend(SymStr._coerce(r))
	return SymStr(out)


def sx_int(x=0, base=None):
	"""int(x[, base])"""
	if type(x) is SymInt:
		return x
	if type(x) is SymBool:
		return x._i()
	if isinstance(x, (str, bytes)) and is_sym(x):
		b = 10 if base is None else int(base)
		return parse_int(x, b)
	if is_sym(x):
		if hasattr(x, '__trunc__') and base is None:
			return x.__trunc__()
		core.E.unsupported('int() of ' + type(x).__name__)
	if base is None:
		return int(x)
	return int(x, base)


def parse_int(s, base):
	err = ValueError('invalid literal for int() with base %d: <symbolic>' % base)
	s = s.strip()
	it = list(s.items)
	if not it:
		raise err
	neg = False
	if sor(elem_eq(it[0], 43), elem_eq(it[0], 45)):
		neg = bool(elem_eq(it[0], 45))
		it = it[1:]
	if not it:
		raise err
	if base == 0:
		core.E.unsupported('int() base 0')
	val = 0
	last_us = True
	pre = {16: (120, 88), 8: (111, 79), 2: (98, 66)}.get(base)
	if pre and len(it) > 1 and sand(elem_eq(it[0], 48), sor(elem_eq(it[1], pre[0]), elem_eq(it[1], pre[1]))):
		it = it[2:]
		# one underscore may follow the prefix
		if it and elem_eq(it[0], 95):
			it = it[1:]
	cnt = 0
	for c in it:
		if elem_eq(c, 95):
			if last_us:
				raise err
			last_us = True
			continue
		if sand(c >= 48, c <= 47 + min(base, 10)):
			d = c - 48
		elif base > 10 and sand(c >= 97, c <= 86 + base):
			d = c - 87
		elif base > 10 and sand(c >= 65, c <= 54 + base):
			d = c - 55
		else:
			if isinstance(s, str) and (type(c) is int and c > 127 or type(c) is SymInt and c.hi > 127 and c > 127):
				if char_in_class(c, 'isdecimal', str):
					core.E.unsupported('int() of non-ASCII digits')
			raise err
		if type(d) is SymInt:
			d = SymInt.make(d.e, max(d.lo, 0), min(d.hi, base - 1))
		val = val * base + d
		last_us = False
	if last_us:
		raise err
	return -val if neg else val


def fstr(parts):
	out = []
	for p in parts:
		if type(p) is str:
			out.extend(map(ord, p))
		else:
			v, conv, spec = p
			if conv == 114:
				v = sx_repr(v)
			elif conv == 115:
				v = sx_str(v)
			elif conv == 97:
				v = sx_repr(v)
			out.extend(SymStr._coerce(sx_format(v, spec)))
	r = SymStr(out)
	return r.native() if r.is_concrete() else r

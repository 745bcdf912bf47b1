"""P11: the Array type."""
BOUNDS = ('every nesting of lists up to depth 3 and width 2 (ragged ones included), every dimension vector of 1 to 3 dimensions with up to 6 '
	'elements, every element, every integer index and address of 32 bits, every slice of bounds and step within -4 to 4, every 16 bit '
	'lower and upper bounds of up to 2 dimensions')
OUTSIDE = 'deeper nestings, larger arrays; lists given as instances of a subclass of list'
REACH = ('nest', 'index', 'index refused', 'slice', 'address', 'address refused', 'sql address', 'sql null', 'ragged', 'regular', 'empty',
	'bounds accepted', 'bounds refused', 'sub-array')
ERRORS = (ValueError, TypeError)
W = 2**31


def nest(vs, dims):
	if len(dims) == 1:
		return list(vs)
	k = len(vs) // dims[0]
	return [nest(vs[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]


def prod(dims):
	n = 1
	for d in dims:
		n *= d
	return n


def build(sx, dims):
	vs = [sx.int('e%d' % i, -W, W - 1) for i in range(prod(dims))]
	return vs, nest(vs, dims)


def plain(x):
	from postgresql.types import Array
	return x.nest() if isinstance(x, Array) else x


def regular(sx, dims):
	from postgresql.types import Array
	vs, ls = build(sx, dims)
	a = Array(ls)
	sx.check(sx.same(a.nest(), ls), 'nested lists changed')
	sx.check(sx.same(list(a.elements()), vs), 'elements are not the flattened lists')
	sx.check(tuple(a.dimensions) == tuple(dims), 'wrong dimensions')
	sx.check(tuple(a.lowerbounds) == (1,) * len(dims) and tuple(a.upperbounds) == tuple(dims), 'wrong bounds')
	sx.check(len(a) == dims[0] and a.ndims == len(dims), 'wrong length')
	sx.check(sx.same([plain(x) for x in a], ls), 'iteration differs from the nested lists')
	t = a.nest(seqtype=tuple)
	sx.check(isinstance(t, tuple) and len(t) == dims[0], 'wrong sequence type')
	sx.check(Array(a) is a, 'an Array is taken for nested lists')
	b = Array.from_nest(list(ls))
	sx.check(sx.same(b.nest(), ls), 'from_nest differs')
	sx.reach('nest')
	i = sx.int('i', -W, W - 1)
	try:
		got = a[i]
	except IndexError:
		sx.check(sx.any(i < -dims[0], i >= dims[0]), 'a valid index is refused')
		sx.reach('index refused')
		return
	sx.check(sx.all(i >= -dims[0], i < dims[0]), 'an invalid index is accepted')
	for k in range(-dims[0], dims[0]):
		if i == k:
			sx.check(sx.same(plain(got), ls[k]), 'index addresses something else')
			if len(dims) > 1:
				sx.check(tuple(got.dimensions) == tuple(dims[1:]), 'sub-array has other dimensions')
				sx.reach('sub-array')
			sx.reach('index')


def address(sx, dims, n):
	from postgresql.types import Array
	vs, ls = build(sx, dims)
	a = Array(ls)
	ad = tuple(sx.int('a%d' % i, -W, W - 1) for i in range(n))
	try:
		got = a.get_element(ad)
	except IndexError:
		sx.check(n == len(dims), 'index error for a wrong number of axes')
		sx.check(sx.any(*[sx.any(x < -d, x >= d) for x, d in zip(ad, dims)]), 'a valid address is refused')
		sx.reach('address refused')
		return
	except ValueError:
		sx.check(n != len(dims), 'a proper address is refused')
		return
	sx.check(n == len(dims), 'an address with a wrong number of axes is accepted')
	sx.check(sx.all(*[sx.all(x >= -d, x < d) for x, d in zip(ad, dims)]), 'an invalid address is accepted')
	pos = 0
	for x, d in zip(ad, dims):
		pos = pos * d + sx.ite(x < 0, x + d, x)
	pos = sx.pin(pos)
	sx.check(sx.same(got, vs[pos]), 'address finds another element')
	sx.reach('address')


def sql_address(sx, dims, n):
	"""SQL indirection: lower bounds count, outside is NULL"""
	from postgresql.types import Array
	vs, ls = build(sx, dims)
	lbs = tuple(sx.int('lb%d' % i, -2**15, 2**15 - 1) for i in range(len(dims)))
	a = Array.from_elements(list(vs), lowerbounds=lbs, upperbounds=tuple(l + d - 1 for l, d in zip(lbs, dims)))
	sx.check(sx.same(a.nest(), ls), 'lower bounds change the nesting')
	ad = tuple(sx.int('a%d' % i, -2**16, 2**16) for i in range(n))
	try:
		got = a.sql_get_element(ad)
	except ValueError:
		sx.check(n != len(dims), 'a proper address is refused')
		return
	sx.check(n == len(dims) or got is None, 'an address with a wrong number of axes finds an element')
	if n != len(dims):
		return
	inside = sx.all(*[sx.all(x >= l, x < l + d) for x, l, d in zip(ad, lbs, dims)])
	if got is None:
		sx.check(sx.neg(inside), 'element within the bounds not found')
		sx.reach('sql null')
		return
	sx.check(inside, 'an element found outside the bounds')
	pos = 0
	for x, l, d in zip(ad, lbs, dims):
		pos = pos * d + (x - l)
	pos = sx.pin(pos)
	sx.check(sx.same(got, vs[pos]), 'address finds another element')
	sx.reach('sql address')


def slices(sx, dims, parts):
	from postgresql.types import Array
	vs, ls = build(sx, dims)
	a = Array(ls)
	b = [sx.int('s%d' % i, -4, 4) if p else None for i, p in enumerate(parts)]
	if b[2] is not None:
		sx.assume(b[2] != 0)
	b = [None if x is None else sx.pin(x) for x in b]
	s = slice(*b)
	got = a[s]
	sx.check(sx.same(plain(got), ls[s]), 'slice differs from the slice of the lists')
	if len(dims) > 1 and len(ls[s]):
		sx.check(tuple(got.dimensions) == (len(ls[s]),) + tuple(dims[1:]), 'slice has other dimensions')
		sx.check(all(u - l + 1 == d for u, l, d in zip(got.upperbounds, got.lowerbounds, got.dimensions)), 'bounds of a slice are inconsistent')
	sx.reach('slice')


def tree(sx, name, depth, width):
	"""a value, or a list of trees"""
	if depth == 0 or sx.choose(name + '?', 2) == 0:
		return sx.int(name, 0, 255)
	return [tree(sx, name + str(i), depth - 1, width) for i in range(sx.choose(name + '#', width + 1))]


def shape(t):
	"""dimensions of a nested list, () for a leaf, None when ragged"""
	if not isinstance(t, list):
		return ()
	if not t:
		return None
	s = shape(t[0])
	if s is None:
		return None
	for x in t[1:]:
		if shape(x) != s:
			return None
	return (len(t),) + s


def flat(t):
	return [y for x in t for y in flat(x)] if isinstance(t, list) else [t]


def ragged(sx, n, depth, width):
	from postgresql.types import Array
	t = [tree(sx, 't%d' % i, depth - 1, width) for i in range(n)]
	want = shape(t) if t else ()
	try:
		a = Array(t)
	except ERRORS:
		sx.check(want is None, 'regular nesting refused')
		sx.reach('ragged')
		return
	sx.check(want is not None, 'ragged nesting accepted')
	sx.check(tuple(a.dimensions) == want, 'wrong dimensions')
	sx.check(sx.same(a.nest(), t), 'nested lists changed')
	sx.check(sx.same(list(a.elements()), flat(t)), 'elements are not the flattened lists')
	sx.reach('regular' if t else 'empty')


def bounds(sx, n, nl, nu):
	"""elements with any bounds"""
	from postgresql.types import Array
	vs = [sx.int('e%d' % i, 0, 255) for i in range(n)]
	L = [sx.int('l%d' % i, -2**15, 2**15 - 1) for i in range(nl)] if nl is not None else None
	U = [sx.int('u%d' % i, -2**15, 2**15 - 1) for i in range(nu)] if nu is not None else None
	k = {}
	if L is not None:
		k['lowerbounds'] = L
	if U is not None:
		k['upperbounds'] = U
	try:
		a = Array.from_elements(iter(vs), **k)
	except ValueError:
		if n and L is not None and U is not None and nl == nu and nl:
			c = 1
			for l, u in zip(L, U):
				# the product of the sizes
				if sx.any(u < l, u - l + 1 > n):
					return
				c = c * sx.pin(u - l + 1)
			sx.check(c != n, 'consistent bounds refused')
		elif L is None and U is not None and nu and n:
			c = 1
			for u in U:
				if sx.any(u < 1, u > n):
					return
				c = c * sx.pin(u)
			sx.check(c != n, 'consistent bounds refused')
		else:
			sx.check(L is not None or U is not None, 'elements alone refused')
			sx.check(not (nl == 1 and U is None and n), 'elements with a lower bound refused')
		sx.reach('bounds refused')
		return
	sx.check(len(a.dimensions) == len(a.lowerbounds) == len(a.upperbounds) == a.ndims, 'bounds and dimensions differ in number')
	sx.check(sx.same(list(a.elements()), vs), 'elements changed')
	c = 1
	for l, u, d in zip(a.lowerbounds, a.upperbounds, a.dimensions):
		sx.check(u - l + 1 == d, 'bounds and dimensions disagree')
		sx.check(d >= 1, 'a dimension without elements')
		c = c * sx.pin(d)
	sx.check((c if a.ndims else 0) == n, 'dimensions and elements disagree')
	if n and L is not None:
		sx.check(sx.same(list(a.lowerbounds), L), 'lower bounds ignored')
	if n and U is not None:
		sx.check(sx.same(list(a.upperbounds), U), 'upper bounds ignored')
	sx.reach('bounds accepted')


def empty(sx):
	from postgresql.types import Array
	i = sx.int('i', -W, W - 1)
	for a in (Array([]), Array.from_elements(())):
		sx.check(len(a) == 0 and a.nest() == [] and list(a) == [] and tuple(a.dimensions) == (), 'empty array is not empty')
		sx.check(a.sql_get_element((i,)) is None, 'element found in an empty array')
		for f in (lambda: a[i], lambda: a.get_element((i,))):
			try:
				f()
			except IndexError:
				pass
			else:
				sx.fail('element found in an empty array')
	sx.reach('empty')


def dims(n):
	out = [[n]]
	for a in range(1, n + 1):
		if n % a == 0:
			out.append([a, n // a])
			for b in range(1, n // a + 1):
				if (n // a) % b == 0:
					out.append([a, b, n // a // b])
	return out


def tasks(tier):
	deep = tier == 'thorough'
	out = [{'fn': 'empty'}]
	for n in range(1, 13 if deep else 7):
		for d in dims(n):
			out.append({'fn': 'regular', 'params': {'dims': d}})
			out.append({'fn': 'address', 'params': {'dims': d, 'n': len(d)}})
			out.append({'fn': 'sql_address', 'params': {'dims': d, 'n': len(d)}})
	for d in ([2, 2], [3], [1, 2, 1]):
		for n in range(5):
			if n != len(d):
				out.append({'fn': 'address', 'params': {'dims': d, 'n': n}})
				out.append({'fn': 'sql_address', 'params': {'dims': d, 'n': n}})
	for d in ([3], [3, 2], [2, 1, 2], [4, 1]):
		for p in ([1, 1, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [0, 0, 1]):
			out.append({'fn': 'slices', 'params': {'dims': d, 'parts': p}, 'weight': 3})
	for n in range(4):
		out.append({'fn': 'ragged', 'params': {'n': n, 'depth': 2 if n > 2 else 3, 'width': 2}, 'weight': 9})
	if deep:
		out.append({'fn': 'ragged', 'params': {'n': 2, 'depth': 3, 'width': 3}, 'weight': 9})
		out.append({'fn': 'ragged', 'params': {'n': 3, 'depth': 3, 'width': 2}, 'weight': 9})
	for n in range(5 if not deep else 7):
		for nl in (None, 0, 1, 2):
			for nu in (None, 0, 1, 2):
				out.append({'fn': 'bounds', 'params': {'n': n, 'nl': nl, 'nu': nu}, 'weight': 2})
	return out

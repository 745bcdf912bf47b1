"""P32: rows as sequences and mappings."""
BOUNDS = ('rows of 0 to 4 columns; names of 1 to 2 symbolic characters, distinct or repeated; any integer index and slice bounds; any '
	'values; any choice of transformations by position and name')
OUTSIDE = 'row[row.column_names[i]] == row[i] and from_mapping() when a column name is repeated (no mapping can hold both)'
REACH = ('index', 'name', 'missing', 'mapping', 'transform', 'repeated', 'driver')


def text(sx, name, n):
	return sx.str(name, n, lo=0x61, hi=0x7a)


def make(sx, sizes, repeated=None):
	"""-> names, values, keymap"""
	names = []
	for i, n in enumerate(sizes):
		if repeated is not None and i == repeated[1]:
			names.append(names[repeated[0]])
			continue
		nm = text(sx, 'name%d' % i, n)
		for x in names:
			sx.assume(sx.neg(nm == x))
		names.append(nm)
	values = [sx.int('v%d' % i, -2 ** 31, 2 ** 31 - 1) for i in range(len(sizes))]
	keymap = {}
	for i, n in enumerate(names):
		keymap[n] = i
	return names, values, keymap


def rows(sx, T, names, values, keymap, via):
	if via == 'sequence':
		return T.Row.from_sequence(keymap, values)
	if via == 'tuple':
		return T.Row.from_sequence(keymap, tuple(values))
	if via == 'mapping':
		m = {}
		for n, v in reversed(list(zip(names, values))):
			m[n] = v
		m['other name'] = 7
		return T.Row.from_mapping(keymap, m)
	from postgresql.driver import pq3
	t = pq3.TypeIO.__new__(pq3.TypeIO)
	t.set_encoding('latin-1')
	from postgresql.protocol import element3 as e
	desc = e.TupleDescriptor([(n.encode('ascii'), 0, 0, 23, 4, -1, 1) for n in names])
	sx.reach('driver')
	return t.RowTypeFactory(dict(t.attribute_map(desc)))(tuple(values))


def access(sx, sizes, via='sequence', repeated=None):
	from postgresql import types as T
	names, values, keymap = make(sx, sizes, repeated)
	n = len(sizes)
	r = rows(sx, T, names, values, keymap, via)
	same(sx, r, names, values, repeated)
	i = sx.int('i', -2 ** 40, 2 ** 40)
	inside = sx.all(i >= -n, i < n)
	if inside:
		sx.reach('index')
		want = list(values)[i]
		sx.check(sx.same(r[i], want), 'an index gives another value')
		sx.check(sx.same(r.get(i), want), 'get() of an index gives another value')
		sx.check(sx.same(r.get(i, 'default'), want), 'get() of an index gives another value')
	else:
		try:
			r[i]
		except IndexError:
			pass
		else:
			sx.fail('an index that is out of range gives a value')
		sx.check(r.get(i) is None, 'get() of an index that is out of range gives a value')
		sx.check(r.get(i, 'default') == 'default', 'get() gives no default')
	q = text(sx, 'q', sx.choose('size', 2) + 1)
	for x in names:
		sx.assume(sx.neg(q == x))
	sx.reach('missing')
	try:
		r[q]
	except KeyError:
		pass
	else:
		sx.fail('a name that does not exist gives a value')
	sx.check(r.get(q) is None and r.get(q, 5) == 5, 'get() of a name that does not exist gives a value')
	sx.check(r.index_from_key(q) is None, 'a name that does not exist has an index')
	sx.check(r.key_from_index(n) is None, 'an index that does not exist has a name')


def same(sx, r, names, values, repeated=None):
	"""every interface gives the same values"""
	n = len(names)
	sx.check(len(r) == n and sx.same(list(r), list(values)), 'iteration gives other values')
	sx.check(sx.same(tuple(r), tuple(values)) and sx.same(list(r.values()), list(values)), 'values() gives other values')
	sx.check(sx.all(*[sx.same(r[i], values[i]) for i in range(-n, n)]), 'an index gives another value')
	sx.check(sx.all(*[sx.same(r.get(i), values[i]) for i in range(-n, n)]), 'get() of an index gives another value')
	last = {i: i for i in range(n)}
	if repeated is not None:
		sx.reach('repeated')
		last[repeated[0]] = repeated[1]
	uniq = [i for i in range(n) if last[i] == i]
	for i in range(n):
		sx.reach('name')
		sx.check(sx.same(r[names[i]], values[last[i]]), 'a name gives another value')
		sx.check(sx.same(r.get(names[i]), values[last[i]]), 'get() of a name gives another value')
		sx.check(sx.same(r.index_from_key(names[i]), last[i]), 'a name has another index')
		sx.check(sx.same(r.get(names[i], 'default'), values[last[i]]), 'get() of a name gives another value')
	for i in uniq:
		sx.check(sx.same(r.key_from_index(i), names[i]), 'an index has another name')
	sx.check(sx.same(list(r.column_names), [names[i] for i in uniq]), 'the names of the columns differ')
	keys = list(r.keys())
	sx.check(len(keys) == len(uniq) and sx.all(*[sx.any(*[k == names[i] for k in keys]) for i in uniq]), 'keys() gives other names')
	got = list(r.items())
	sx.check(len(got) == len(uniq) and sx.all(*[sx.same(tuple(g), (names[i], values[i])) for g, i in zip(got, uniq)]),
		'items() gives other pairs')
	sx.reach('mapping')


def slices(sx, n, k):
	from postgresql import types as T
	names, values, keymap = make(sx, (1,) * n)
	r = T.Row.from_sequence(keymap, values)
	a = sx.int('a', -n - 1, n + 1) if k & 1 else None
	b = sx.int('b', -n - 1, n + 1) if k & 2 else None
	sx.check(sx.same(list(r[a:b]), list(values)[a:b]), 'a slice gives other values')
	sx.check(sx.same(list(r[::-1]), values[::-1]) and sx.same(list(r[1::2]), values[1::2]), 'a slice gives other values')
	x = sx.int('x', -2 ** 31, 2 ** 31 - 1)
	sx.check(sx.same(x in r, sx.any(*[x == v for v in values])), 'in does not tell whether the value is in the row')


def mapped(sx, n):
	"""a mapping that lacks columns, and the way back"""
	from postgresql import types as T
	names, values, keymap = make(sx, (1,) * n)
	m, want = {}, []
	for i in range(n):
		if sx.choose('has%d' % i, 2):
			m[names[i]] = values[i]
			want.append(values[i])
		else:
			want.append(None)
	r = T.Row.from_mapping(keymap, m)
	sx.check(sx.same(list(r), want), 'a row made from a mapping has other values')
	sx.check(sx.same(list(T.Row.from_mapping(keymap, dict(r.items()))), want), 'a row does not survive the way through a mapping')
	sx.check(sx.same(list(T.Row.from_sequence(keymap, r)), want), 'a row does not survive the way through a sequence')


def transform(sx, n, via='sequence', repeated=None):
	from postgresql import types as T
	names = ['abcd'[i] for i in range(n)]
	if repeated is not None:
		names[repeated[1]] = names[repeated[0]]
	values = [sx.int('v%d' % i, -2 ** 31, 2 ** 31 - 1) for i in range(n)]
	keymap = {k: i for i, k in enumerate(names)}
	r = rows(sx, T, names, values, keymap, via)
	calls = []

	def f(tag):
		def g(x):
			calls.append(tag)
			return (tag, x)
		return g
	args, kw, want = [], {}, list(values)
	for i in range(sx.choose('args', n + 1)):
		if sx.choose('arg%d' % i, 2):
			args.append(f('arg%d' % i))
			want[i] = ('arg%d' % i, values[i])
		else:
			args.append(None)
	for i in range(n):
		k = sx.choose('kw%d' % i, 3)
		if k and keymap[names[i]] == i:
			if k == 1:
				kw[names[i]] = f('kw%d' % i)
				want[i] = ('kw%d' % i, values[i])
			else:
				kw[names[i]] = None
	t = r.transform(*args, **kw)
	sx.check(len(t) == n and sx.same(list(t), want), 'a transformation leaves other values than it should')
	sx.check(sx.same(list(r), values), 'a transformation changes the row it is applied to')
	sx.check(isinstance(t, T.Row) and len(set(calls)) == len(calls), 'a function is called more than once for a row')
	same(sx, t, names, want, repeated)
	sx.reach('transform')
	try:
		r.transform(z=f('z'))
	except KeyError:
		pass
	else:
		sx.fail('a column that does not exist is transformed')


def named(sx, n):
	"""rows as named tuples"""
	from postgresql.types import namedtuple as N
	N.cache.clear()
	for k in range(2):
		names = []
		for i in range(n):
			names.append(sx.choose('name%d.%d' % (k, i), [x for x in ('a', 'b', 'a_c', 'class', '_x', 'two words') if x not in names]))
		values = [[sx.int('v%d.%d.%d' % (k, j, i), -100, 100) for i in range(n)] for j in range(2)]
		if sx.choose('via%d' % k, 2):
			f = N.NamedTupleFactory({x: i for i, x in reversed(list(enumerate(names)))})
			rows = [f(tuple(v)) for v in values]
		else:
			class Stmt:
				column_names = names
				asked = []

				def chunks(self, *a, **kw):
					self.asked.append((a, kw))
					return iter([[tuple(values[0])], [], [tuple(values[1])]])
			rows = list(N.namedtuples(Stmt())(1, 2))
			sx.check(Stmt.asked == [((1, 2), {})], 'the parameters are not passed on')
		sx.check(len(rows) == 2, 'a row is lost or repeated')
		for r, v in zip(rows, values):
			sx.check(sx.same(list(r), v), 'a row has other values')
			for i, x in enumerate(names):
				if x in ('a', 'b', 'a_c'):
					sx.check(sx.same(getattr(r, x), v[i]), 'a name gives another value')
				if x == 'two words':
					sx.check(sx.same(r.two_words, v[i]), 'a name gives another value')


def tasks(tier):
	big = tier == 'thorough'
	t = []
	for sizes in ((), (1,), (2,), (1, 1), (1, 2), (2, 2), (1, 1, 1)) + (((2, 2, 2), (1, 2, 1, 2), (1, 1, 1, 1, 1)) if big else ()):
		for via in ('sequence', 'tuple', 'mapping', 'driver'):
			t.append(dict(fn='access', params=dict(sizes=sizes, via=via)))
	for rep, sizes in (((0, 1), (1, 1)), ((0, 1), (1, 1, 1)), ((0, 2), (1, 1, 1)), ((1, 2), (1, 1, 1))):
		for via in ('sequence', 'driver'):
			t.append(dict(fn='access', params=dict(sizes=sizes, via=via, repeated=rep)))
		t.append(dict(fn='transform', params=dict(n=len(sizes), repeated=rep)))
	for n in (0, 1, 2, 3) + ((4,) if big else ()):
		t += [dict(fn='slices', params=dict(n=n, k=k)) for k in range(4)]
		t.append(dict(fn='mapped', params=dict(n=n)))
		if n < 4:
			t += [dict(fn='transform', params=dict(n=n, via=v)) for v in ('sequence', 'driver')]
	t += [dict(fn='named', params=dict(n=n)) for n in ((1, 2, 3) if big else (1, 2))]
	return t

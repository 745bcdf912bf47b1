"""P10: arrays and composite values."""
import struct as _struct
BOUNDS = ('arrays of 0 to 3 dimensions and up to 4 elements (every dimension vector with that many elements), every 32 bit lower bound, '
	'every NULL pattern, elements of 0 to 2 bytes or any 32 bit integer; received array data of up to 23 bytes, every content, and any 14 bytes after the header of 0, 1 and 2 dimensions; composite '
	'values of 0 to 4 attributes given as tuples or mappings in any order, every NULL pattern; received composite data of up to 20 bytes (22 after the column count), '
	'every content; element types resolved through the type catalogue, domains and nested composites included')
OUTSIDE = 'larger arrays and rows; element types whose own conversion is another property (P07 to P09, P12)'
ASSUMPTIONS = ('the bounds of an array fit in 32 bits, as the server demands',)
REACH = ('array out', 'array in', 'nested', 'empty array', 'array accepted', 'array refused', 'record out', 'record in', 'mapping',
	'record accepted', 'record refused', 'anonymous', 'null', 'count refused')
ERRORS = (ValueError, TypeError, _struct.error, IndexError, OverflowError)
NULL = b'\xff\xff\xff\xff'
INT4, BYTEA, TEXT = 23, 17, 25
AINT4, ABYTEA, ATEXT, ADOM = 1007, 1001, 1009, 90003
COMP, OUTER, DOM, ACOMP = 90000, 90002, 90001, 90004


class _Sys:
	def lookup_type(self, oid):
		if oid in ARRAYS:
			return ('pg_catalog' if oid < 90000 else 'public', '_a', b'b', -1, ARRAYS[oid], 0, ARRAYS[oid], True, True)
		if oid == COMP:
			return ('public', 'comp', b'c', -1, 0, 91000, None, True, True)
		if oid == OUTER:
			return ('public', 'outer', b'c', -1, 0, 91002, None, True, True)
		if oid == DOM:
			return ('public', 'dom', b'd', 4, 0, 0, None, True, True)
		if oid == 2249:
			return ('pg_catalog', 'record', b'p', -1, 0, 0, None, True, True)
		return None

	def lookup_composite(self, relid):
		if relid == 91000:
			return COLUMNS
		return [(COMP, 'inner', False), (INT4, 'n', False)]

	def lookup_basetype_recursive(self, oid):
		return [(INT4,)]


class _Db:
	version_info = (9, 6, 0, 'final', 0)

	def __init__(self):
		self.sys = _Sys()


ARRAYS = {AINT4: INT4, ABYTEA: BYTEA, ATEXT: TEXT, ADOM: DOM, ACOMP: COMP}
COLUMNS = [(BYTEA, 'alpha', False), (INT4, 'beta', False), (DOM, 'gamma', True), (BYTEA, 'delta', False)]


class Refused(ValueError):
	pass


def typio():
	from postgresql.driver import pq3

	class T(pq3.TypeIO):
		def raise_client_error(self, error_message, cause=None, creator=None):
			raise Refused('client error')
	t = T(_Db())
	t.set_encoding('utf-8')
	return t


def lpack(x):
	return _struct.pack('!l', x)


def lread(data, off):
	v = data[off] * 16777216 + data[off + 1] * 65536 + data[off + 2] * 256 + data[off + 3]
	return v


def value(sx, name, kind, n):
	"""-> (value, its wire form)"""
	if n < 0:
		sx.reach('null')
		return None, None
	if kind in (INT4, DOM):
		v = sx.int(name, -2**31, 2**31 - 1)
		return v, lpack(v)
	if kind == TEXT:
		v = sx.str(name, n, 1, 0x7f)
		return v, v.encode('utf-8')
	v = sx.bytes(name, n)
	return v, v


def sized(w):
	return NULL if w is None else lpack(len(w)) + w


def array_wire(oid, dims, lbs, ws):
	w = lpack(len(dims)) + lpack(0) + _struct.pack('!L', oid)
	for d, l in zip(dims, lbs):
		w = w + lpack(d) + lpack(l)
	for x in ws:
		w = w + sized(x)
	return w


def array(sx, aoid, dims, shape):
	from postgresql.types import Array
	t = typio()
	pack, unpack = t.resolve_pack(aoid), t.resolve_unpack(aoid)
	lbs = [sx.int('lb%d' % i, -2**31, 2**31 - 1) for i in range(len(dims))]
	for l, d in zip(lbs, dims):
		sx.assume(l <= 2**31 - d)
	vs, ws = [], []
	for i, n in enumerate(shape):
		v, w = value(sx, 'e%d' % i, ARRAYS[aoid], n)
		vs.append(v)
		ws.append(w)
	a = Array.from_elements(list(vs), lowerbounds=tuple(lbs), upperbounds=tuple(l + d - 1 for l, d in zip(lbs, dims)))
	w = array_wire(ARRAYS[aoid], dims, lbs, ws)
	got = pack(a)
	sx.observe('w', got)
	sx.check(sx.same(got, w), 'array sent wrongly')
	sx.reach('array out')
	b = unpack(w)
	sx.check(b.__class__ is Array, 'array received as something else')
	sx.check(tuple(b.dimensions) == tuple(dims), 'dimensions misread')
	sx.check(sx.same(tuple(b.lowerbounds), tuple(lbs)), 'lower bounds misread')
	sx.check(sx.same(tuple(b.upperbounds), tuple(l + d - 1 for l, d in zip(lbs, dims))), 'upper bounds misread')
	sx.check(sx.same(list(b.elements()), vs), 'elements misread')
	sx.check(sx.same(pack(b), w), 'a received array is sent differently')
	sx.reach('array in')


def nest(vs, dims):
	if len(dims) == 1:
		return list(vs)
	k = len(vs) // dims[0]
	return [nest(vs[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]


def nested(sx, aoid, dims, shape):
	"""nested lists given as parameters"""
	t = typio()
	pack, unpack = t.resolve_pack(aoid), t.resolve_unpack(aoid)
	vs, ws = [], []
	for i, n in enumerate(shape):
		v, w = value(sx, 'e%d' % i, ARRAYS[aoid], n)
		vs.append(v)
		ws.append(w)
	ls = nest(vs, dims) if dims else []
	w = array_wire(ARRAYS[aoid], dims, [1] * len(dims), ws)
	sx.check(sx.same(pack(ls), w), 'nested lists sent wrongly')
	b = unpack(w)
	sx.check(sx.same(b.nest(), ls), 'nested lists changed by the trip')
	sx.reach('nested' if dims else 'empty array')


def array_spec(sx, data):
	"""-> (dims, lower bounds, elements) or None"""
	n = len(data)
	if n < 12:
		return None
	nd = lread(data, 0)
	if nd * 8 > n - 12:
		return None
	nd = sx.pin(nd)
	off = 12 + 8 * nd
	dims = [lread(data, 12 + 8 * i) for i in range(nd)]
	lbs = [lread(data, 16 + 8 * i) for i in range(nd)]
	for d in dims:
		if d >= 2**31:
			return None
	els = []
	while off < n:
		if n - off < 4:
			return None
		size = lread(data, off)
		off += 4
		if size == 0xFFFFFFFF:
			els.append(None)
			continue
		if size > n - off:
			return None
		for k in range(n - off + 1):
			if size == k:
				els.append(data[off:off + k])
				off += k
				break
	if not els:
		# empty whenever a dimension is
		for d in dims:
			if d == 0:
				return [], [], []
		if dims:
			return None
		return [], [], []
	if not dims:
		return None
	count = 1
	for d in dims:
		if d > len(els):
			return None
		count = count * d
	if count != len(els):
		return None
	return [sx.pin(d) for d in dims], lbs, els


def array_parse(sx, n):
	t = typio()
	unpack = t.resolve_unpack(ABYTEA)
	data = sx.bytes('d', n)
	if n >= 12:
		# what makes more dimensions than fit is one case
		sx.assume(sx.any(lread(data, 0) <= 2, lread(data, 0) >= 2**32 - 2, lread(data, 0) == 2**31 - 1))
	want = array_spec(sx, data)
	try:
		b = unpack(data)
		got = tuple(b.dimensions), list(b.lowerbounds), list(b.elements())
	except ERRORS:
		sx.check(want is None, 'well-formed array data refused')
		sx.reach('array refused')
		return
	sx.check(want is not None, 'malformed array data accepted')
	if want is None:
		return
	sx.check(sx.same(list(got[0]), want[0]), 'dimensions misread')
	sx.check(len(got[1]) == len(want[1]), 'lower bounds misread')
	for g, l in zip(got[1], want[1]):
		sx.check(g == sx.ite(l >= 2**31, l - 2**32, l), 'lower bounds misread')
	sx.check(sx.same(got[2], want[2]), 'elements misread')
	sx.reach('array accepted')


def array_tail(sx, dims, n):
	"""a proper header, anything after it"""
	t = typio()
	unpack = t.resolve_unpack(ABYTEA)
	head = array_wire(BYTEA, dims, [1] * len(dims), [])
	data = head + sx.bytes('d', n)
	want = array_spec(sx, data)
	try:
		b = unpack(data)
		got = list(b.dimensions), list(b.elements())
	except ERRORS:
		sx.check(want is None, 'well-formed array data refused')
		sx.reach('array refused')
		return
	sx.check(want is not None, 'malformed array data accepted')
	sx.check(sx.same(got[0], want[0]), 'dimensions misread')
	sx.check(sx.same(got[1], want[2]), 'elements misread')
	sx.reach('array accepted')


def record_tail(sx, columns, n):
	from postgresql.types.io import lib
	data = lpack(columns) + sx.bytes('d', n)
	want = record_spec(sx, data)
	try:
		got = list(lib.record_unpack(data))
	except ERRORS:
		sx.check(want is None, 'well-formed row data refused')
		sx.reach('record refused')
		return
	sx.check(want is not None, 'malformed row data accepted')
	sx.check(sx.same([tuple(x) for x in got], want), 'row data misread')
	sx.reach('record accepted')


def record_wire(oids, ws):
	w = lpack(len(oids))
	for o, x in zip(oids, ws):
		w = w + _struct.pack('!L', o) + sized(x)
	return w


def record(sx, shape):
	t = typio()
	pack, unpack = t.resolve_pack(COMP), t.resolve_unpack(COMP)
	vs, ws = [], []
	for i, n in enumerate(shape):
		v, w = value(sx, 'a%d' % i, COLUMNS[i][0], n)
		vs.append(v)
		ws.append(w)
	oids = [c[0] for c in COLUMNS]
	names = [c[1] for c in COLUMNS]
	w = record_wire(oids, ws)
	sx.check(sx.same(pack(tuple(vs)), w), 'row value sent wrongly')
	sx.check(sx.same(pack(list(vs)), w), 'row value sent wrongly')
	sx.reach('record out')
	r = unpack(w)
	sx.check(isinstance(r, tuple) and sx.same(tuple(r), tuple(vs)), 'row value misread')
	for n, v in zip(names, vs):
		sx.check(sx.same(r[n], v), 'attribute found under another name')
	sx.check(tuple(r.column_names) == tuple(names), 'wrong attribute names')
	sx.reach('record in')
	order = sx.choose('order', [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)])
	d = {}
	for i in order:
		if vs[i] is not None or sx.choose('absent%d' % i, 2):
			d[names[i]] = vs[i]
	sx.check(sx.same(pack(d), w), 'mapping sent wrongly')
	sx.reach('mapping')


def record_count(sx, n):
	"""another number of attributes than the type has"""
	t = typio()
	pack, unpack = t.resolve_pack(COMP), t.resolve_unpack(COMP)
	vs = [sx.bytes('a%d' % i, 4) if sx.bool('some%d' % i) else None for i in range(n)]
	for f, x in ((pack, tuple(vs)), (unpack, record_wire([BYTEA] * n, vs))):
		try:
			f(x)
		except ERRORS:
			sx.reach('count refused')
		else:
			sx.fail('row value with a wrong number of attributes accepted')


def composite_nested(sx, shape, how):
	"""a composite within a composite, or arrays of composites and of a domain"""
	t = typio()
	vs, ws = [], []
	for i, n in enumerate(shape):
		v, w = value(sx, 'a%d' % i, COLUMNS[i][0], n)
		vs.append(v)
		ws.append(w)
	inner = record_wire([c[0] for c in COLUMNS], ws)
	if how == 'outer':
		k = sx.int('n', -2**31, 2**31 - 1)
		w = record_wire([COMP, INT4], [inner, lpack(k)])
		v = (tuple(vs), k)
		sx.check(sx.same(t.resolve_pack(OUTER)(v), w), 'nested row value sent wrongly')
		r = t.resolve_unpack(OUTER)(w)
		sx.check(sx.same(tuple(r['inner']), v[0]), 'nested row value misread')
		sx.check(sx.same(r['n'], k), 'attribute misread')
	else:
		w = array_wire(COMP, [2], [1], [inner, None])
		sx.check(sx.same(t.resolve_pack(ACOMP)([tuple(vs), None]), w), 'array of row values sent wrongly')
		r = t.resolve_unpack(ACOMP)(w)
		sx.check(len(r) == 2 and r[1] is None and sx.same(tuple(r[0]), tuple(vs)), 'array of row values misread')
	sx.reach('nested')


def record_spec(sx, data):
	n = len(data)
	if n < 4:
		return None
	nc = lread(data, 0)
	if nc * 8 > n - 4:
		return None
	nc = sx.pin(nc)
	off = 4
	out = []
	for i in range(nc):
		if n - off < 8:
			return None
		oid, size = lread(data, off), lread(data, off + 4)
		off += 8
		if size == 0xFFFFFFFF:
			out.append((oid, None))
			continue
		if size > n - off:
			return None
		for k in range(n - off + 1):
			if size == k:
				out.append((oid, data[off:off + k]))
				off += k
				break
	return out if off == n else None


def record_parse(sx, n):
	from postgresql.types.io import lib
	data = sx.bytes('d', n)
	if n >= 4:
		sx.assume(sx.any(lread(data, 0) <= 3, lread(data, 0) >= 2**31 - 1))
	want = record_spec(sx, data)
	try:
		got = list(lib.record_unpack(data))
	except ERRORS:
		sx.check(want is None, 'well-formed row data refused')
		sx.reach('record refused')
		return
	sx.check(want is not None, 'malformed row data accepted')
	sx.check(sx.same([tuple(x) for x in got], want), 'row data misread')
	sx.reach('record accepted')


def anonymous(sx, kinds, shape):
	"""RECORD values: the types come with the data"""
	t = typio()
	vs, ws = [], []
	for i, n in enumerate(shape):
		v, w = value(sx, 'a%d' % i, kinds[i], n)
		vs.append(v)
		ws.append(w)
	oids = [INT4 if k == DOM else k for k in kinds]
	r = t.resolve_unpack(2249)(record_wire(oids, ws))
	sx.check(isinstance(r, (tuple, list)) and sx.same(tuple(r), tuple(vs)), 'record misread')
	sx.reach('anonymous')


def dims(n):
	"""dimension vectors with n elements"""
	out = [[n]]
	for a in range(1, n + 1):
		if n % a == 0:
			b = n // a
			out.append([a, b])
			for c in range(1, b + 1):
				if b % c == 0:
					out.append([a, c, b // c])
	return out


def tasks(tier):
	deep = tier == 'thorough'
	out = [{'fn': 'array', 'params': {'aoid': ABYTEA, 'dims': [], 'shape': []}}]
	lens = [1, -1, 0, 2, -1, 1, 2, 0]
	N = 8 if deep else 4
	for n in range(1, N + 1):
		for d in dims(n):
			for s in range(4 if deep else 2):
				shape = (lens[s:] + lens[:s])[:n]
				out.append({'fn': 'array', 'params': {'aoid': ABYTEA, 'dims': d, 'shape': shape}})
				out.append({'fn': 'nested', 'params': {'aoid': AINT4 if s % 2 else ABYTEA, 'dims': d, 'shape': shape}})
	for k in range(8):
		shape = [-1 if k >> i & 1 else 1 for i in range(3)]
		out.append({'fn': 'array', 'params': {'aoid': ABYTEA, 'dims': [3], 'shape': shape}})
	out.append({'fn': 'nested', 'params': {'aoid': ABYTEA, 'dims': [], 'shape': []}})
	for a in (AINT4, ATEXT, ADOM):
		out.append({'fn': 'array', 'params': {'aoid': a, 'dims': [2, 2], 'shape': [1, 2, -1, 0]}})
		out.append({'fn': 'nested', 'params': {'aoid': a, 'dims': [2], 'shape': [1, -1]}})
	for n in range(0, 24 if not deep else 30):
		out.append({'fn': 'array_parse', 'params': {'n': n}, 'weight': n})
	for n in range(0, 21 if not deep else 33):
		out.append({'fn': 'record_parse', 'params': {'n': n}, 'weight': n})
	for n in range(0, 15 if not deep else 20):
		for d in ([], [1], [2], [3], [1, 2], [0], [2, 0], [-1], [2**31 - 1], [-2**31, 1]):
			if n > 12 and d not in ([1], [2]) and not deep:
				continue
			out.append({'fn': 'array_tail', 'params': {'dims': d, 'n': n}, 'weight': n})
	for n in range(0, 23 if not deep else 29):
		for c in (-1, -2**31, 2**31 - 1, 0, 1, 2, 3):
			out.append({'fn': 'record_tail', 'params': {'columns': c, 'n': n}, 'weight': n})
	for k in range(16):
		shape = [-1 if k >> i & 1 else (2 if i == 3 else 1) for i in range(4)]
		out.append({'fn': 'record', 'params': {'shape': shape}})
		out.append({'fn': 'anonymous', 'params': {'kinds': [BYTEA, INT4, TEXT, BYTEA], 'shape': shape}})
	for n in (0, 1, 2, 3, 5, 6):
		out.append({'fn': 'record_count', 'params': {'n': n}})
	for how in ('outer', 'array'):
		for shape in ([1, 1, 1, 1], [-1, 1, -1, 0]):
			out.append({'fn': 'composite_nested', 'params': {'shape': shape, 'how': how}})
	out.append({'fn': 'anonymous', 'params': {'kinds': [], 'shape': []}})
	return out

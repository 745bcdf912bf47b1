"""P05: row and parameter data."""
import struct as _struct
BOUNDS = ('rows of 0 to 4 attributes of up to 3 bytes, every NULL pattern and value; received row data of 0 to 13 bytes, every '
	'content (any declared count and sizes); parameter lists of Bind and Function up to 3 arguments and received ones of up to 12 bytes after the '
	'names; attribute counts 65535 and 65536')
OUTSIDE = 'longer rows and attributes; received result format counts above 8; attributes of 4 GiB and more'
REACH = ('round trip', 'row accepted', 'row refused', 'parameters', 'null', 'empty', 'bind refused', 'bind accepted', 'fields', 'result')
ERRORS = (ValueError, _struct.error, IndexError)


def atts(sx, shape):
	"""shape: list of lengths, -1 for NULL"""
	out = []
	for i, n in enumerate(shape):
		if n < 0:
			out.append(None)
			sx.reach('null')
		else:
			out.append(sx.bytes('a%d' % i, n))
			if n == 0:
				sx.reach('empty')
	return tuple(out)


def wire(row):
	w = b''
	for a in row:
		if a is None:
			w = w + b'\xff\xff\xff\xff'
		else:
			w = w + _struct.pack('!L', len(a)) + a
	return w


def roundtrip(sx, shape):
	from postgresql.protocol import element3 as e
	row = atts(sx, shape)
	w = wire(row)
	sx.check(sx.same(e.pack_tuple_data(row), w), 'packed attributes differ from the defined form')
	n = _struct.pack('!H', len(row))
	t = e.Tuple(row)
	sx.check(sx.same(t.serialize(), n + w), 'row data differs from the defined form')
	sx.check(sx.same(t.bytes(), b'D' + _struct.pack('!L', len(w) + 6) + n + w), 'row message differs from the defined form')
	sx.check(sx.same(e.Tuple.parse(n + w), row), 'row changed by the trip')
	sx.check(sx.same(e.cat_messages([row]), b'D' + _struct.pack('!L', len(w) + 6) + n + w), 'row in a batch differs')
	sx.reach('round trip')


def c_roundtrip(sx, shape, impl):
	m = sx.optimized()
	row = atts(sx, shape)
	w = wire(row)
	sx.check(sx.same(m.pack_tuple_data(row), w), 'packed attributes differ from the defined form')
	n = _struct.pack('!H', len(row))
	sx.check(sx.same(m.parse_tuple_message(n + w), row), 'row changed by the trip')
	sx.check(sx.same(m.cat_messages([row]), b'D' + _struct.pack('!L', len(w) + 6) + n + w), 'row in a batch differs')
	got = m.consume_tuple_messages(((b'D', n + w), (b'D', n + w)))
	sx.check(type(got) is list and sx.same(got, [row, row]), 'rows changed by the trip')
	sx.reach('round trip')


def c_parse(sx, n, impl):
	m = sx.optimized()
	data = sx.bytes('d', n)
	one_parse(sx, data, n, m.parse_tuple_message)


def c_consume(sx, n, first, impl):
	"""the rows at the beginning of what was received"""
	from postgresql.protocol.message_types import message_types
	m = sx.optimized()
	row = (sx.bytes('a', 1), None)
	good = b'\0\2' + wire(row)
	kinds = []
	msgs = []
	for i in range(n):
		k = sx.choose('k%d' % i, ('D', 'other', 'bad', 'void', 'short'))
		kinds.append(k)
		msgs.append({'D': (b'D', good), 'other': (message_types[sx.choose('t%d' % i, (67, 90, 100, 0, 255))], b'x'), 'bad': (b'D', good[:-1]),
			'void': (b'', b''), 'short': (b'D',)}[k])
	want = []
	for k in kinds:
		if k != 'D':
			break
		want.append(row)
	else:
		k = None
	try:
		got = m.consume_tuple_messages(tuple(msgs))
	except (ValueError, TypeError):
		sx.check(k in ('bad', 'void', 'short'), 'rows refused')
		sx.reach('row refused')
		return
	sx.check(k in (None, 'other'), 'malformed row data accepted')
	sx.check(type(got) is list and sx.same(got, want), 'rows misread')
	sx.reach('row accepted')


def c_counts(sx, n, impl):
	m = sx.optimized()
	v = sx.bytes('v', 1)
	row = (v,) + (None,) * (n - 1)
	try:
		d = m.cat_messages([row])
	except (ValueError, OverflowError, _struct.error):
		sx.check(n > 65535, 'row refused')
		return
	sx.check(n <= 65535, 'a row of more attributes than can be counted was accepted')
	got = m.parse_tuple_message(d[5:])
	sx.check(len(got) == n and sx.same(got[0], v) and got[-1] is None, 'row changed by the trip')


def spec(data, natts, offset):
	"""-> attributes and end, or None"""
	out = []
	n = len(data)
	for i in range(natts):
		if n - offset < 4:
			return None
		size = data[offset] * 16777216 + data[offset + 1] * 65536 + data[offset + 2] * 256 + data[offset + 3]
		offset += 4
		if size == 0xFFFFFFFF:
			out.append(None)
			continue
		if size > n - offset:
			return None
		for k in range(n - offset + 1):
			if size == k:
				out.append(data[offset:offset + k])
				offset += k
				break
	return out, offset


def parse(sx, n):
	from postgresql.protocol import element3 as e
	one_parse(sx, sx.bytes('d', n), n, e.Tuple.parse)


def one_parse(sx, data, n, parse):
	want = None
	if n >= 2:
		na = data[0] * 256 + data[1]
		# more attributes than the data could hold
		if na * 4 <= n - 2:
			na = sx.pin(na)
			r = spec(data, na, 2)
			if r is not None and r[1] == n:
				want = r[0]
	try:
		got = parse(data)
	except ERRORS:
		sx.check(want is None, 'well-formed row data refused')
		sx.reach('row refused')
		return
	sx.observe('got', got)
	sx.check(want is not None, 'malformed row data accepted')
	sx.check(isinstance(got, tuple) and sx.same(list(got), want), 'row data misread')
	sx.reach('row accepted')


def fields(sx, n):
	"""split_sized_data (composite data without a count)"""
	from postgresql.python.structlib import split_sized_data
	data = sx.bytes('d', n)
	want = []
	off = 0
	while off < n:
		r = spec(data, 1, off)
		if r is None:
			want = None
			break
		want.append(r[0][0])
		off = r[1]
	try:
		got = list(split_sized_data(data))
	except ERRORS:
		sx.check(want is None, 'well-formed fields refused')
		return
	sx.check(want is not None, 'malformed fields accepted')
	sx.check(sx.same(got, want), 'fields misread')
	sx.reach('fields')


def params(sx, shape, nf, rf):
	from postgresql.protocol import element3 as e
	args = atts(sx, shape)
	n = len(args)
	af = [sx.bytes('f%d' % i, 2) for i in range(n)]
	rfs = [sx.bytes('r%d' % i, 2) for i in range(rf)]
	c = _struct.pack('!H', n)
	name, stmt = sx.bytes('name', nf), sx.bytes('stmt', nf)
	for x in list(name) + list(stmt):
		sx.assume(x != 0)
	m = e.Bind(name, stmt, af, args, rfs)
	want = name + b'\0' + stmt + b'\0' + c + b''.join(af) + c + wire(args) + _struct.pack('!H', rf) + b''.join(rfs)
	sx.check(sx.same(m.serialize(), want), 'bind message differs from the defined form')
	b = e.Bind.parse(want)
	sx.check(sx.all(sx.same(b.name, name), sx.same(b.statement, stmt), sx.same(list(b.aformats), af),
		sx.same(list(b.arguments), list(args)), sx.same(list(b.rformats), rfs)), 'bind message changed by the trip')
	oid = sx.int('oid', 0, 0xFFFFFFFF)
	r = sx.bytes('rformat', 2)
	m = e.Function(oid, af, args, r)
	want = _struct.pack('!L', oid) + c + b''.join(af) + c + wire(args) + r
	sx.check(sx.same(m.serialize(), want), 'function message differs from the defined form')
	b = e.Function.parse(want)
	sx.check(sx.all(sx.same(b.oid, oid), sx.same(list(b.aformats), af), sx.same(list(b.arguments), list(args)),
		sx.same(b.rformat, r)), 'function message changed by the trip')
	sx.reach('parameters')


def parse_bind(sx, n):
	"""any received parameter data (no formats)"""
	from postgresql.protocol import element3 as e
	data = sx.bytes('d', n)
	want = None
	if n >= 2:
		na = data[0] * 256 + data[1]
		if na * 4 <= n - 2:
			na = sx.pin(na)
			r = spec(data, na, 2)
			if r is not None and n - r[1] >= 2:
				rf = data[r[1]] * 256 + data[r[1] + 1]
				sx.assume(rf <= 8)
				if rf * 2 == n - r[1] - 2:
					want = r[0]
	try:
		m = e.Bind.parse(b'a\0\0\0\0' + data)
	except ERRORS:
		sx.check(want is None, 'well-formed parameter data refused')
		sx.reach('bind refused')
		return
	sx.check(want is not None, 'malformed parameter data accepted')
	sx.check(sx.same(list(m.arguments), want), 'parameter data misread')
	sx.reach('bind accepted')


def result(sx, n):
	"""the result of a function call: any received data of n bytes, and the value it carries"""
	from postgresql.protocol import element3 as e
	data = sx.bytes('d', n)
	want = ()
	if n >= 4:
		r = spec(data, 1, 0)
		if r is not None and r[1] == n:
			want = (r[0][0],)
	try:
		got = e.FunctionResult.parse(data).result
	except ERRORS:
		sx.check(not want, 'well-formed function result refused')
		return
	sx.check(len(want) == 1, 'malformed function result accepted')
	sx.check(sx.same(got, want[0]), 'function result misread')
	sx.check(sx.same(e.FunctionResult(want[0]).serialize(), data), 'function result written differently')
	sx.reach('result')


def counts(sx, n):
	from postgresql.protocol import element3 as e
	v = sx.bytes('v', 1)
	row = e.Tuple([v] + [None] * (n - 1))
	try:
		d = row.serialize()
	except (ValueError, OverflowError, _struct.error):
		sx.check(n > 65535, 'row refused')
		return
	sx.check(n <= 65535, 'a row of more attributes than can be counted was accepted')
	got = e.Tuple.parse(d)
	sx.check(len(got) == n and sx.same(got[0], v) and got[-1] is None, 'row changed by the trip')


def tasks(tier):
	import itertools
	big = tier != 'quick'
	r = []
	for n in range(0, 4 if not big else 5):
		for shape in itertools.product((-1, 0, 1, 3) if n < 3 else (-1, 0, 2), repeat=n):
			r.append(dict(fn='roundtrip', params=dict(shape=shape), validate=4))
			r.append(dict(fn='c_roundtrip', params=dict(shape=shape, impl='c'), validate=4))
			if n < 3:
				r.append(dict(fn='params', params=dict(shape=shape, nf=len(shape), rf=sum(shape) % 3), validate=4))
	for n in range(0, 12 if not big else 15):
		r.append(dict(fn='parse', params=dict(n=n), weight=n * n))
		r.append(dict(fn='c_parse', params=dict(n=n, impl='c'), weight=n * n))
		r.append(dict(fn='result', params=dict(n=n), weight=n))
		r.append(dict(fn='fields', params=dict(n=n), weight=n * n))
		r.append(dict(fn='parse_bind', params=dict(n=n), weight=n * n))
	for n in (65535, 65536):
		r.append(dict(fn='counts', params=dict(n=n), weight=50))
		r.append(dict(fn='c_counts', params=dict(n=n, impl='c'), weight=50))
	for n in (1, 2, 3):
		r.append(dict(fn='c_consume', params=dict(n=n, first=0, impl='c'), weight=20))
	return r

"""P04: wire form of every protocol message."""
import struct as _struct
BOUNDS = ('every message class; text fields up to 3 bytes of any value but NUL, numbers over the whole range of their wire type, '
	'sequences up to 3 members; command tags of up to 2 words and 3 digits')
OUTSIDE = 'longer fields; NUL inside text fields; malformed backend messages (row data: P05)'
REACH = ('client message', 'backend message', 'empty message', 'tag with count', 'tag without count', 'start-up message', 'raw message')


def L(v):
	return bytes([(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255, v & 255])


def H(v):
	return bytes([(v >> 8) & 255, v & 255])


def text(sx, name, n, lo=1):
	b = sx.bytes(name, n)
	for x in b:
		sx.assume(x >= lo)
	return b


def eq_fields(sx, got, want):
	return sx.all(*[sx.same(getattr(got, k), v) for k, v in want.items()])


def framed(sx, m, typ, content):
	w = m.bytes()
	sx.observe('wire', w)
	sx.check(sx.same(bytes(m.serialize()), content), 'content differs from the protocol')
	sx.check(sx.same(w, typ + L(len(content) + 4) + content), 'message differs from the protocol')
	from postgresql.protocol import element3 as e
	sx.check(sx.same(e.cat_messages([m]), w), 'message in a batch differs')


def both(sx, cls, m, typ, content, fields):
	framed(sx, m, typ, content)
	sx.check(m.type == typ, 'type of the message differs')
	p = cls.parse(content)
	sx.check(p.__class__ is cls, 'parsed as another class')
	sx.check(eq_fields(sx, p, fields), 'fields changed')
	sx.check(sx.same(bytes(p.serialize()), content), 'parsed message does not reproduce its bytes')


# name: type byte
STRINGS = dict(Query=b'Q', Password=b'p', CopyFail=b'f')
SUBTYPED = dict(DescribeStatement=b'DS', DescribePortal=b'DP', CloseStatement=b'CS', ClosePortal=b'CP')
EMPTY = dict(Null=b'I', NoData=b'n', ParseComplete=b'1', BindComplete=b'2', CloseComplete=b'3', Suspension=b's',
	Disconnect=b'X', Flush=b'H', Synchronize=b'S', CopyDone=b'c')


def strings(sx, name, n):
	from postgresql.protocol import element3 as e
	cls = getattr(e, name)
	d = text(sx, 'd', n)
	if name in SUBTYPED:
		both(sx, cls, cls(d), SUBTYPED[name][:1], SUBTYPED[name][1:] + d + b'\0', dict(data=d))
		bad = sx.bytes('bad', 1)
		try:
			cls.parse(bad + d + b'\0')
			sx.check(bad == SUBTYPED[name][1:], 'other subtype accepted')
		except ValueError:
			sx.check(bad != SUBTYPED[name][1:], 'own subtype refused')
	else:
		both(sx, cls, cls(d), STRINGS[name], d + b'\0', dict(data=d))
	sx.reach('client message')


def empty(sx, name, n):
	from postgresql.protocol import element3 as e
	cls = getattr(e, name)
	m = cls()
	framed(sx, m, EMPTY[name], b'')
	sx.check(m is cls.SingleInstance and m is getattr(e, name + 'Message'), 'not the single instance')
	sx.check(m.type == EMPTY[name], 'type differs')
	d = sx.bytes('d', n)
	try:
		r = cls.parse(d)
		sx.check(n == 0 and r is m, 'an empty message with content was accepted')
	except ValueError:
		sx.check(n > 0, 'empty message refused')
	sx.reach('empty message')


def parse_msg(sx, a, b, types):
	from postgresql.protocol import element3 as e
	name, st = text(sx, 'name', a), text(sx, 'st', b)
	t = [sx.int('t%d' % i, 0, 0xFFFFFFFF) for i in range(types)]
	m = e.Parse(name, st, t)
	both(sx, e.Parse, m, b'P', name + b'\0' + st + b'\0' + H(types) + b''.join(L(x) for x in t), dict(name=name, statement=st,
		argtypes=tuple(t)))
	mx = sx.int('max', 0, 0xFFFFFFFF)
	m = e.Execute(name, mx)
	both(sx, e.Execute, m, b'E', name + b'\0' + L(mx), dict(name=name, max=mx))
	sx.reach('client message')


def bind(sx, a, b, args, rf):
	from postgresql.protocol import element3 as e
	name, st = text(sx, 'name', a), text(sx, 'st', b)
	vs = [None if n < 0 else sx.bytes('a%d' % i, n) for i, n in enumerate(args)]
	af = [(e.BinaryFormat, e.StringFormat)[sx.choose('f%d' % i, 2)] for i in range(len(vs))]
	rfs = [e.BinaryFormat] * rf
	c = H(len(vs))
	data = b''.join(b'\xff\xff\xff\xff' if v is None else L(len(v)) + v for v in vs)
	sx.check(e.BinaryFormat == b'\0\1' and e.StringFormat == b'\0\0', 'format codes')
	m = e.Bind(name, st, af, vs, rfs)
	framed(sx, m, b'B', name + b'\0' + st + b'\0' + c + b''.join(af) + c + data + H(rf) + b''.join(rfs))
	oid = sx.int('oid', 0, 0xFFFFFFFF)
	m = e.Function(oid, af, vs, e.BinaryFormat)
	framed(sx, m, b'F', L(oid) + c + b''.join(af) + c + data + b'\0\1')


def startup(sx, shape, none):
	from postgresql.protocol import element3 as e
	kv = []
	for i, (a, b) in enumerate(shape):
		k, v = text(sx, 'k%d' % i, a), text(sx, 'v%d' % i, b)
		for k2, _ in kv:
			sx.assume(sx.neg(sx.same(k, k2)))
		kv.append((k, v))
	pairs = list(kv)
	if none:
		pairs.insert(1, (b'none', None))
	m = e.Startup(pairs)
	content = b'\0\3\0\0' + b''.join(k + b'\0' + v + b'\0' for k, v in kv) + b'\0'
	sx.check(sx.same(m.serialize(), content), 'start-up content differs from the protocol')
	sx.check(sx.same(m.bytes(), L(len(content) + 4) + content), 'start-up message differs from the protocol')
	p = e.Startup.parse(content)
	sx.check(sx.same(list(p.items()), kv), 'start-up parameters changed')
	sx.reach('start-up message')


def untyped(sx):
	from postgresql.protocol import element3 as e
	pid, key = sx.int('pid', 0, 0xFFFFFFFF), sx.int('key', 0, 0xFFFFFFFF)
	code = L(80877102)
	m = e.CancelRequest(pid, key)
	sx.check(sx.same(m.bytes(), L(16) + code + L(pid) + L(key)), 'cancel request differs from the protocol')
	p = e.CancelRequest.parse(code + L(pid) + L(key))
	sx.check(sx.all(sx.same(p.pid, pid), sx.same(p.key, key)), 'cancel request changed')
	m = e.NegotiateSSL()
	sx.check(m.bytes() == L(8) + L(80877103), 'SSL request differs from the protocol')
	sx.check(e.NegotiateSSL.parse(L(80877103)) is m, 'SSL request not recognized')
	k = e.KillInformation(pid, key)
	both(sx, e.KillInformation, k, b'K', L(pid) + L(key), dict(pid=pid, key=key))
	for cls in (e.CancelRequest, e.NegotiateSSL, e.Startup):
		bad = sx.bytes('bad' + cls.__name__, 4)
		sx.assume(sx.neg(sx.same(bad, cls.packed_version)))
		try:
			cls.parse(bad + (L(1) + L(2) if cls is e.CancelRequest else b''))
			ok = False
		except (ValueError, IndexError):
			ok = True
		sx.check(ok, 'another request code was accepted')


def backend(sx, name, n, k):
	from postgresql.protocol import element3 as e
	cls = getattr(e, name)
	if name == 'Notify':
		pid, ch, pl = sx.int('pid', 0, 0xFFFFFFFF), text(sx, 'ch', n), text(sx, 'pl', k)
		both(sx, cls, cls(pid, ch, pl), b'A', L(pid) + ch + b'\0' + pl + b'\0', dict(pid=pid, channel=ch, payload=pl))
	elif name == 'ShowOption':
		a, b = text(sx, 'n', n), text(sx, 'v', k)
		both(sx, cls, cls(a, b), b'S', a + b'\0' + b + b'\0', dict(name=a, value=b))
	elif name == 'Authentication':
		rq, s = sx.int('rq', 0, 0xFFFFFFFF), sx.bytes('s', n)
		both(sx, cls, cls(rq, s), b'R', L(rq) + s, dict(request=rq, salt=s))
	elif name == 'CopyData':
		d = sx.bytes('d', n)
		both(sx, cls, cls(d), b'd', d, dict(data=d))
		sx.check(sx.same(e.cat_messages([d]), b'd' + L(n + 4) + d), 'COPY data in a batch differs')
	elif name in ('CopyToBegin', 'CopyFromBegin'):
		f = sx.int('f', 0, 255)
		fs = [sx.int('f%d' % i, 0, 65535) for i in range(n)]
		both(sx, cls, cls(f, fs), b'H' if name == 'CopyToBegin' else b'G', bytes([f]) + H(n) + b''.join(H(x) for x in fs),
			dict(format=f, formats=fs))
	elif name == 'AttributeTypes':
		t = [sx.int('t%d' % i, 0, 0xFFFFFFFF) for i in range(n)]
		c = H(n) + b''.join(L(x) for x in t)
		framed(sx, cls(t), b't', c)
		p = cls.parse(c)
		sx.check(p.__class__ is cls and sx.same(list(p), t) and sx.same(p.serialize(), c), 'types changed')
	elif name == 'TupleDescriptor':
		atts, c = [], H(n)
		for i in range(n):
			a = text(sx, 'n%d' % i, k)
			v = [sx.int('%s%d' % (x, i), lo, hi) for x, lo, hi in (('rel', 0, 0xFFFFFFFF), ('col', -32768, 32767),
				('typ', 0, 0xFFFFFFFF), ('len', -32768, 32767), ('mod', -2**31, 2**31 - 1), ('fmt', -32768, 32767))]
			atts.append((a,) + tuple(v))
			c = c + a + b'\0' + L(v[0]) + H(v[1] & 0xFFFF) + L(v[2]) + H(v[3] & 0xFFFF) + L(v[4] & 0xFFFFFFFF) + H(v[5] & 0xFFFF)
		framed(sx, cls(atts), b'T', c)
		p = cls.parse(c)
		sx.check(p.__class__ is cls and sx.same(list(p), atts) and sx.same(p.serialize(), c), 'descriptor changed')
		sx.check(sx.same(list(p.keys()), [x[0] for x in atts]), 'names differ')
	elif name == 'FunctionResult':
		d = None if n < 0 else sx.bytes('d', n)
		both(sx, cls, cls(d), b'V', b'\xff\xff\xff\xff' if d is None else L(n) + d, dict(result=d))
		if n >= 0:
			sz = sx.int('sz', 0, 0xFFFFFFFE)
			try:
				cls.parse(L(sz) + d)
				sx.check(sz == n, 'wrong size accepted')
			except ValueError:
				sx.check(sz != n, 'right size refused')
	elif name == 'Ready':
		s = sx.bytes('s', 1)
		try:
			m = cls(s)
		except ValueError:
			sx.check(sx.all(s != b'I', s != b'E', s != b'T'), 'valid transaction state refused')
			return
		sx.check(sx.any(s == b'I', s == b'E', s == b'T'), 'invalid transaction state accepted')
		both(sx, cls, m, b'Z', s, dict(xact_state=s))
	elif name in ('Notice', 'Error'):
		kv, c = [], b''
		for i in range(n):
			f, v = sx.bytes('f%d' % i, 1), text(sx, 'v%d' % i, k + i)
			sx.assume(f[0] != 0)
			for f2, _ in kv:
				sx.assume(f != f2)
			kv.append((f, v))
			c = c + f + v + b'\0'
		c = c + b'\0'
		p = cls.parse(c)
		sx.check(p.__class__ is cls and sx.same(list(p.items()), kv), 'fields changed')
		sx.check(sx.same(p.serialize(), c), 'parsed message does not reproduce its bytes')
		framed(sx, cls(kv), b'N' if name == 'Notice' else b'E', c)
	else:
		raise RuntimeError(name)
	sx.reach('backend message')


def tag(sx, words, digits):
	"""command completion: words, each a list of lengths, then numbers"""
	from postgresql.protocol import element3 as e
	parts = []
	for i, n in enumerate(words):
		parts.append(text(sx, 'w%d' % i, n))
		for x in parts[-1]:
			sx.assume(sx.all(x >= 65, x <= 90))
	nums = []
	for i, n in enumerate(digits):
		d = sx.bytes('d%d' % i, n)
		for x in d:
			sx.assume(sx.all(x >= 48, x <= 57))
		nums.append(d)
	t = b' '.join(parts + nums)
	both(sx, e.Complete, e.Complete(t), b'C', t + b'\0', dict(data=t))
	m = e.Complete.parse(t + b'\0')
	sx.check(sx.same(m.extract_command(), b' '.join(parts)), 'command name differs')
	got = m.extract_count()
	sx.observe('count', got)
	if nums:
		v = 0
		for x in nums[-1]:
			v = v * 10 + (x - 48)
		sx.check(got is not None and sx.same(got, v), 'count differs')
		sx.reach('tag with count')
	else:
		sx.check(got is None, 'a count where there is none')
		sx.reach('tag without count')


def raw(sx, n):
	"""WireMessage: any complete message"""
	from postgresql.protocol import element3 as e
	t, d, sz = sx.bytes('t', 1), sx.bytes('d', n), sx.int('sz', 0, 0xFFFFFFFF)
	try:
		m = e.WireMessage.parse(t + L(sz) + d)
	except ValueError:
		sx.check(sz != n + 4, 'valid message refused')
		return
	sx.check(sz == n + 4, 'message with a wrong length accepted')
	sx.check(sx.all(sx.same(m.type, t), sx.same(m.data, d)), 'message changed')
	framed(sx, m, t, d)
	sx.reach('raw message')


def tasks(tier):
	big = tier != 'quick'
	r = []
	for name in list(STRINGS) + list(SUBTYPED):
		for n in range(0, 4):
			r.append(dict(fn='strings', params=dict(name=name, n=n), validate=4))
	for name in EMPTY:
		for n in (0, 1, 3):
			r.append(dict(fn='empty', params=dict(name=name, n=n), validate=2))
	for a, b, t in ((0, 0, 0), (0, 3, 1), (2, 1, 2), (3, 0, 3)):
		r.append(dict(fn='parse_msg', params=dict(a=a, b=b, types=t), validate=4))
	for a, b, args, rf in ((0, 0, [], 0), (0, 2, [1], 1), (2, 0, [-1, 0], 2), (1, 1, [2, -1, 1], 0), (0, 3, [0, 0, 3], 3)):
		r.append(dict(fn='bind', params=dict(a=a, b=b, args=args, rf=rf), validate=4))
	for shape in ([], [[1, 0]], [[2, 2]], [[1, 1], [1, 0]], [[3, 1], [1, 2], [2, 3]]):
		for none in (0, 1):
			r.append(dict(fn='startup', params=dict(shape=shape, none=none), validate=4))
	r.append(dict(fn='untyped', params={}, validate=4))
	for name in ('Notify', 'ShowOption', 'Notice', 'Error', 'TupleDescriptor'):
		for n in range(0, 4):
			for k in range(0, 4 if big else 3):
				r.append(dict(fn='backend', params=dict(name=name, n=n, k=k), validate=4, weight=n))
	for name in ('Authentication', 'CopyData', 'CopyToBegin', 'CopyFromBegin', 'AttributeTypes'):
		for n in range(0, 5):
			r.append(dict(fn='backend', params=dict(name=name, n=n, k=0), validate=4))
	for n in range(-1, 4):
		r.append(dict(fn='backend', params=dict(name='FunctionResult', n=n, k=0), validate=4))
	r.append(dict(fn='backend', params=dict(name='Ready', n=1, k=0), validate=4))
	for w, d in (([4], []), ([2, 3], []), ([2], [1]), ([3], [1, 2]), ([2, 2], [3]), ([1], [2, 3])):
		r.append(dict(fn='tag', params=dict(words=w, digits=d), validate=4))
	for n in range(0, 5):
		r.append(dict(fn='raw', params=dict(n=n), validate=4))
	return r

"""P02: the C code on anything."""
BOUNDS = ('the message buffer: streams of up to 8 bytes (10 in the thorough tier), every content, in 1 to 3 writes with every operation after each, counts of -3 '
	'to 3 given to read(); the wire state: streams of up to 8 bytes (11) in up to 3 chunks, every declared length of 32 bits; row data up to 10 bytes; '
	'batches, rows and row processing with every kind of wrong item and failing callable at every place of up to 3')
OUTSIDE = ('longer data, attributes of 4 GiB and more, allocation failures, callables that change the sequence being processed, objects of other '
	'types that offer a buffer, message types of more than one byte')
ASSUMPTIONS = ('the C API of CPython behaves as documented (modelled); clang translates the source to LLVM IR faithfully',)
REACH = ('delivered', 'refused', 'high type', 'wire error', 'row', 'not row', 'batch', 'bad batch', 'processed', 'handler', 'stopped')


def buffer(sx, n, ops, impl):
	from postgresql.protocol.message_types import message_types
	m = sx.optimized()
	data = sx.bytes('d', n)
	cuts = sorted(sx.choose('cut%d' % i, n + 1) for i in range(len(ops) - 1))
	counts = [sx.choose('c%d' % i, (-3, -2, -1, 0, 1, 3)) if k == 'count' else 0 for i, k in enumerate(ops)]

	def go():
		b = m.pq_message_stream()
		at = 0
		got = []
		try:
			for i, k in enumerate(ops):
				end = cuts[i] if i < len(cuts) else n
				b.write(data[at:end])
				at = end
				if k == 'count':
					got.extend(b.read(counts[i]))
				elif k == 'read':
					got.extend(b.read())
				elif k == 'next':
					x = b.next_message()
					if x is not None:
						got.append(x)
				elif k == 'iter':
					try:
						got.append(b.__next__())
					except StopIteration:
						pass
				elif k == 'has':
					b.has_message()
				elif k == 'len':
					len(b)
				elif k == 'value':
					b.getvalue()
				elif k == 'truncate':
					b.truncate()
					got.clear()
		except ValueError:
			sx.reach('refused')
			got = None
		o = [b]
		del b
		sx.release(o)
		return got
	got = sx.leakfree(go)
	sx.observe('got', got)
	if got is None or 'truncate' in ops:
		return
	at = 0
	for t, body in got:
		sx.check(sx.same(t, data[at:at + 1]), 'a message type was delivered as another')
		sx.check(sx.same(body, data[at + 5:at + 5 + len(body)]), 'a message was delivered with other content')
		sx.check(int.from_bytes(data[at + 1:at + 5], 'big') == len(body) + 4, 'no message')
		if t[0] >= 128:
			sx.reach('high type')
		at += 5 + len(body)
		sx.reach('delivered')


def misuse(sx, what, impl):
	"""wrong arguments"""
	m = sx.optimized()

	def go():
		b = m.pq_message_stream()
		w = m.WireState()
		bad = sx_bad[what]
		for f in (b.write, b.read, w.update, m.parse_tuple_message, m.consume_tuple_messages, m.pack_tuple_data, m.cat_messages):
			try:
				f(bad)
			except (TypeError, ValueError, AttributeError, OverflowError):
				pass
		o = [b, w]
		del b, w, f
		sx.release(o)
	sx.leakfree(go)


sx_bad = (None, 'x', 1.5, (), [], (None,), ('x',), (1, 2), ((1, 2),), [('x', b'')], ((b'', b''),), ((b'D',),), {}, 7, -1, object)


def wire(sx, n, cuts, impl):
	m = sx.optimized()
	data = sx.bytes('d', n)
	ends = sorted(sx.choose('cut%d' % i, n + 1) for i in range(cuts)) + [n]

	def go():
		w = m.WireState()
		at = 0
		for end in ends:
			try:
				k = w.update(memoryview(data[at:end]))
				sx.check(sx.all(k >= 0, k <= n), 'impossible number of messages')
			except (ValueError, RuntimeError):
				sx.reach('wire error')
			sx.check(w.remaining_bytes >= -1, 'impossible number of remaining bytes')
			sx.check(len(w.size_fragment) <= 3, 'more than a header')
			if w.final_view is not None:
				sx.check(len(w.final_view) <= n, 'more than was given')
			at = end
		o = [w]
		del w
		sx.release(o)
	sx.leakfree(go)


def row(sx, n, kind, impl):
	m = sx.optimized()
	data = sx.bytes('d', n)

	def go():
		try:
			r = m.parse_tuple_message(memoryview(data) if kind else data)
		except ValueError:
			sx.reach('not row')
			return
		sx.reach('row')
		sx.check(sum(4 + (0 if x is None else len(x)) for x in r) == n - 2, 'a row of other data')
	sx.leakfree(go)


class Msg:
	type = b'X'

	def __init__(self, k):
		self.k = k
		if k == 'type missing':
			self.type = None
		elif k == 'type text':
			self.type = 'X'
		elif k == 'type empty':
			self.type = b''

	def serialize(self):
		if self.k == 'raises':
			raise ValueError('serialize')
		if self.k == 'interrupts':
			raise KeyboardInterrupt
		return {'text': ''.join(['xyz'] * 9), 'none': None, 'array': bytearray(b'x'), 'empty': b''}.get(self.k, b'abc')


class NoType:
	def serialize(self):
		return b'x'


KINDS = ('copy', 'row', 'bad row', 'text row', 'good', 'raises', 'interrupts', 'text', 'none', 'array', 'empty', 'type missing', 'type text',
	'type empty', 'no type', 'no message')
GOOD = {'copy': b'd\0\0\0\5', 'row': b'D\0\0\0\x0f\0\2\0\0\0\1', 'good': b'X\0\0\0\7abc', 'empty': b'X\0\0\0\4', 'type empty': b'\0\0\0\7abc'}


def batch(sx, n, kinds, impl):
	m = sx.optimized()
	ks = [sx.choose('k%d' % i, kinds) for i in range(n)]
	x = sx.bytes('x', 1)
	want = b''
	bad = None
	for k in ks:
		if k not in GOOD:
			bad = k
			break
		want = want + GOOD[k]
		if k == 'copy':
			want = want + x
		elif k == 'row':
			want = want + x + b'\xff\xff\xff\xff'

	def go():
		ms = [x if k == 'copy' else (x, None) if k == 'row' else (x, 1) if k == 'bad row' else ('x',) if k == 'text row' else NoType() if k == 'no type'
			else 5 if k == 'no message' else Msg(k) for k in ks]
		try:
			got = m.cat_messages(ms)
		except (TypeError, ValueError, AttributeError, KeyboardInterrupt):
			sx.check(bad is not None, 'a good batch was refused')
			sx.reach('bad batch')
			return
		sx.check(bad is None, 'a bad batch was accepted')
		sx.check(sx.same(got, want), 'batch differs')
		sx.reach('batch')
	sx.leakfree(go)


class Failed(Exception):
	pass


class Stop(BaseException):
	pass


def same_value(x):
	return (x, 1)


def fails(x):
	raise ValueError('no')


def stops(x):
	raise Stop


def handler_raises(cause, procs, tup, i):
	raise Failed(type(cause).__name__, procs, tup, i)


def handler_returns(cause, procs, tup, i):
	return 'nothing'


def process(sx, n, chunk, impl):
	"""against the Python routines"""
	from postgresql.python import functools as F
	m = sx.optimized()
	procs = tuple(sx.choose('p%d' % i, (same_value, fails, stops, None)) for i in range(n))
	v = sx.bytes('v', 1)
	row = tuple(sx.choose('r%d' % i, (v, None)) for i in range(n))
	shape = sx.choose('shape', ('good', 'short', 'long', 'list', 'generator', 'procs list', 'not a row'))
	if shape == 'short' and n:
		row = row[:-1]
	elif shape == 'long':
		row = row + (v,)
	elif shape == 'list' and not chunk:
		row = list(row)
	elif shape == 'procs list':
		procs = list(procs)
	elif shape == 'not a row' and not chunk:
		row = 5
	handler = sx.choose('handler', (handler_raises, handler_returns, 7))

	def run(f):
		a = row
		if chunk:
			a = [row, row]
			if shape == 'list':
				a = (row, row)
			elif shape == 'generator':
				a = iter([row, row])
			elif shape == 'not a row':
				a = [row, 5]
		try:
			return 'ok', f(procs, a, handler)
		except Stop:
			return 'stop',
		except Failed as e:
			return 'failed', e.args
		except (TypeError, RuntimeError) as e:
			return 'error', type(e)

	def go():
		got = run(m.process_chunk if chunk else m.process_tuple)
		want = run(F.process_chunk if chunk else F.process_tuple)
		if want[0] == 'ok':
			if got[0] == 'error':
				# exact types are required
				sx.check(shape in ('list', 'procs list'), 'refused')
				return
			sx.check(got[0] == 'ok' and sx.same(got[1], want[1]), 'processed differently')
			sx.reach('processed')
			return
		if got[0] == 'error' and shape not in ('good', 'generator'):
			return
		sx.check(got[0] == want[0], 'ends differently')
		if got[0] == 'failed':
			sx.check(got[1][0] == want[1][0] and got[1][1] == want[1][1] and sx.same(got[1][2], want[1][2]) and got[1][3] == want[1][3], 'handler called differently')
			sx.reach('handler')
		if got[0] == 'stop':
			sx.reach('stopped')
	sx.leakfree(go)


class Seq:
	def __init__(self, xs, k):
		self.xs, self.k = xs, k

	def __len__(self):
		if self.k == 'no length':
			raise ValueError('length')
		return len(self.xs) + (self.k == 'too long')

	def __getitem__(self, i):
		return self.xs[i]


class Ob:
	pass


class Slots:
	__slots__ = ()


def others(sx, n, kind, impl):
	m = sx.optimized()
	fs = [sx.choose('f%d' % i, (same_value, fails, stops, 5)) for i in range(n)]
	v = sx.bytes('v', 1)
	want = v
	how = 'ok'
	for f in fs:
		if f is not same_value:
			how = {fails: ValueError, stops: Stop}.get(f, TypeError)
			break
		want = (want, 1)
	if kind == 'no length':
		how = ValueError
	elif kind == 'too long' and how == 'ok':
		how = IndexError
	elif kind == 'none':
		how = TypeError

	def go():
		seq = tuple(fs) if kind == 'tuple' else list(fs) if kind == 'list' else None if kind == 'none' else Seq(fs, kind)
		try:
			got = m.compose(seq, v)
		except (ValueError, TypeError, IndexError, Stop) as e:
			sx.check(how is type(e), 'composition fails differently')
			return
		sx.check(how == 'ok', 'composition succeeds')
		sx.check(sx.same(got, want), 'composition differs')
	sx.leakfree(go)

	def attr():
		o = Ob()
		sx.check(m.rsetattr('a', v, o) is o, 'another object')
		sx.check(sx.same(o.a, v), 'another value')
		for a in (('a', v, Slots()), (5, v, o), ('a', v)):
			try:
				m.rsetattr(*a)
			except (TypeError, AttributeError):
				continue
			sx.fail('accepted')
	sx.leakfree(attr)


def tasks(tier):
	import itertools
	big = tier != 'quick'
	r = []
	OPS = ('count', 'read', 'next', 'iter', 'has', 'len', 'value', 'truncate')
	for n in (5, 6, 8) if not big else (5, 6, 8, 9, 10):
		for k in OPS:
			r.append(dict(fn='buffer', params=dict(n=n, ops=[k], impl='c')))
	for n in (6,) if not big else (6, 8):
		for a, b in itertools.product(OPS, OPS):
			r.append(dict(fn='buffer', params=dict(n=n, ops=[a, b], impl='c'), validate=8))
	for ops in (['count', 'next', 'truncate'], ['value', 'count', 'count'], ['len', 'has', 'read']):
		r.append(dict(fn='buffer', params=dict(n=5 if not big else 7, ops=ops, impl='c'), weight=9, validate=8))
	for i in range(len(sx_bad)):
		r.append(dict(fn='misuse', params=dict(what=i, impl='c')))
	for n in (0, 1, 5, 6, 8) if not big else range(0, 12):
		for cuts in (0, 1, 2):
			if cuts < 2 or n < 7 or (big and n < 9):
				r.append(dict(fn='wire', params=dict(n=n, cuts=cuts, impl='c'), weight=n * cuts))
	for n in range(0, 11 if not big else 13):
		r.append(dict(fn='row', params=dict(n=n, kind=n % 2, impl='c'), weight=n))
	r.append(dict(fn='batch', params=dict(n=1, kinds=KINDS, impl='c'), weight=9, validate=40))
	r.append(dict(fn='batch', params=dict(n=2, kinds=KINDS, impl='c'), weight=9, validate=40))
	r.append(dict(fn='batch', params=dict(n=3, kinds=['copy', 'row', 'bad row', 'good', 'raises', 'text', 'type empty'], impl='c'), weight=9, validate=40))
	for n in (0, 1, 2) + ((3,) if big else ()):
		for c in (0, 1):
			r.append(dict(fn='process', params=dict(n=n, chunk=c, impl='c'), weight=9 * n, validate=40))
	for n in (0, 1, 2, 3):
		for k in ('tuple', 'list', 'seq', 'no length', 'too long', 'none'):
			r.append(dict(fn='others', params=dict(n=n, kind=k, impl='c'), validate=8))
	return r

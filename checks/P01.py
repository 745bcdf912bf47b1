"""P01: the message buffer, in Python and in C."""
BOUNDS = ('streams of up to 2 complete messages plus one partial message with every byte symbolic (lengths are the full 32 bit '
	'field), bodies up to 3 bytes, every way of cutting the stream into up to 3 writes with a symbolic operation after each; '
	'compaction is exercised with the block/limit constants as shipped (a 2049+ byte prefix) and scaled down to 2/1; the C buffer: the same with streams up to 8 bytes for all operations and 11 for next and read, '
	'up to 5 writes')
OUTSIDE = 'longer streams, more than 3 writes'
REACH = ('message delivered', 'withheld', 'invalid length', 'compacted')


def message_types_of(sx):
	from postgresql.protocol.message_types import message_types
	return message_types


class Ref:
	"""what a correct buffer does: plain list of bytes and a position"""

	def __init__(self, sx):
		self.sx = sx
		self.data = b''
		self.pos = 0

	def write(self, d):
		self.data = self.data + d

	def peek(self, pos):
		"""-> None | 'bad' | (type byte, body, next position)"""
		d = self.data
		if len(d) - pos < 5:
			return None
		n = int.from_bytes(d[pos + 1:pos + 5], 'big')
		if n < 4:
			return 'bad'
		if n > len(d) - pos - 1:
			return None
		n = self.sx.pin(n)
		return (d[pos:pos + 1], d[pos + 5:pos + 1 + n], pos + 1 + n)

	def take(self, num):
		out = []
		pos = self.pos
		while len(out) < num:
			m = self.peek(pos)
			if m is None:
				break
			if m == 'bad':
				return 'bad'
			out.append((m[0], m[1]))
			pos = m[2]
		self.pos = pos
		return out

	def count(self):
		c = 0
		pos = self.pos
		while True:
			m = self.peek(pos)
			if m is None:
				return c
			if m == 'bad':
				return 'bad'
			c += 1
			pos = m[2]


def same_msgs(sx, got, want):
	if len(got) != len(want):
		return False
	ok = []
	for g, w in zip(got, want):
		if len(g) != 2:
			return False
		ok.append(sx.same(g[0], w[0]))
		ok.append(sx.same(bytes(g[1]), w[1]))
	return sx.all(*ok)


def op(sx, b, ref, kind, tag):
	"""run one operation on both and compare; False when an error ends the path"""
	bad = False
	try:
		if kind == 'getvalue':
			got = bytes(b.getvalue())
		elif kind == 'len':
			got = len(b)
		elif kind == 'has':
			got = b.has_message()
		elif kind == 'next':
			got = b.next_message()
		elif kind == 'iter':
			try:
				got = b.__next__()
			except StopIteration:
				got = None
		elif kind == 'read':
			got = b.read()
		else:
			got = b.read(int(kind[4:]))
	except ValueError:
		bad = True
	if kind == 'getvalue':
		sx.check(not bad, 'getvalue raised')
		sx.check(sx.same(got, ref.data[ref.pos:]), 'getvalue is not the undelivered bytes')
		return True
	if kind == 'len':
		want = ref.count()
	elif kind == 'has':
		want = ref.peek(ref.pos)
		if want != 'bad':
			want = want is not None
	elif kind in ('next', 'iter'):
		want = ref.take(1)
		if want != 'bad':
			want = want[0] if want else None
	else:
		p = ref.pos
		want = ref.take(0xFFFF if kind == 'read' else int(kind[4:]))
	if want == 'bad':
		sx.check(bad, kind + ': an impossible message size was not reported')
		sx.reach('invalid length')
		return False
	sx.check(not bad, kind + ': raised on well formed data')
	if kind in ('len', 'has'):
		sx.check(sx.same(got, want), kind + ': wrong answer')
	elif kind in ('next', 'iter'):
		if want is None:
			sx.check(got is None, 'a message was delivered before it was complete')
			if len(ref.data) > ref.pos:
				sx.reach('withheld')
		else:
			sx.check(got is not None, 'a complete message was withheld')
			sx.check(same_msgs(sx, [got], [want]), 'wrong message delivered')
			sx.reach('message delivered')
	else:
		sx.check(same_msgs(sx, got, want), 'read: wrong messages')
		if want:
			sx.reach('message delivered')
	return True


def stream(sx, impl):
	if impl == 'c':
		return sx.optimized().pq_message_stream()
	from postgresql.protocol.pbuffer import pq_message_stream
	return pq_message_stream()


OPS = ('next', 'read', 'read1', 'read2', 'len', 'has', 'iter')


def finish(sx, b, ref):
	if not op(sx, b, ref, 'getvalue', 'z'):
		return
	if not op(sx, b, ref, 'read', 'y'):
		return
	if not op(sx, b, ref, 'getvalue', 'z'):
		return
	if op(sx, b, ref, 'next', 'x') and not isinstance(b, _python()):
		sx.release([b])


def _python():
	from postgresql.protocol.pbuffer import pq_message_stream
	return pq_message_stream


def fragments(sx, n, writes, scale=None, ops=OPS, impl='py'):
	"""n symbolic bytes cut anywhere into `writes` writes, an operation after each"""
	b = stream(sx, impl)
	if scale is not None:
		b._block, b._limit = scale
	ref = Ref(sx)
	data = sx.bytes('data', n)
	at = 0
	for i in range(writes):
		end = n if i == writes - 1 else at + sx.choose('cut%d' % i, n - at + 1)
		b.write(data[at:end])
		ref.write(data[at:end])
		at = end
		k = sx.choose('op%d' % i, ops)
		if not op(sx, b, ref, k, str(i)):
			return
	finish(sx, b, ref)


def compaction(sx, block, limit, msgs, tail, opk, impl='py'):
	"""several complete messages are read, which makes the buffer compact itself while
	undelivered bytes are left; then the rest arrives"""
	b = stream(sx, impl)
	if block:
		b._block, b._limit = block, limit
	ref = Ref(sx)
	for i, size in enumerate(msgs):
		d = sx.bytes('t%d' % i, 1) + (size + 4).to_bytes(4, 'big')
		d = d + (sx.bytes('b%d' % i, size) if size <= 16 else bytes(size - 4) + sx.bytes('b%d' % i, 4))
		b.write(d)
		ref.write(d)
	t = sx.bytes('tail', tail)
	c = sx.choose('cut', tail + 1)
	b.write(t[:c])
	ref.write(t[:c])
	for i in range(len(msgs)):
		if not op(sx, b, ref, opk, 'm%d' % i):
			return
	sx.reach('compacted')
	if not op(sx, b, ref, 'getvalue', 'g'):
		return
	if not op(sx, b, ref, 'next', 'n'):
		return
	b.write(t[c:])
	ref.write(t[c:])
	k = sx.choose('op', OPS)
	if not op(sx, b, ref, k, 'o'):
		return
	finish(sx, b, ref)


def truncated(sx, n, impl='py'):
	"""truncate() empties the buffer and it works afterwards"""
	b = stream(sx, impl)
	a = sx.bytes('a', n)
	b.write(a)
	k = sx.choose('before', 2)
	ref = Ref(sx)
	ref.write(a)
	if k and not op(sx, b, ref, 'next', 'p'):
		return
	b.truncate()
	ref = Ref(sx)
	if not op(sx, b, ref, 'getvalue', 'g'):
		return
	c = sx.bytes('c', n)
	b.write(c)
	ref.write(c)
	if not op(sx, b, ref, sx.choose('op', OPS), 'o'):
		return
	finish(sx, b, ref)


def tasks(tier):
	big = tier != 'quick'
	r = []
	for n in range(0, 12 if not big else 15):
		r.append(dict(fn='fragments', params=dict(n=n, writes=2), weight=n))
	for n in (6, 9) if not big else (6, 8, 10, 11, 12):
		for ops in (['next'], ['read2', 'len'], ['has', 'iter']):
			r.append(dict(fn='fragments', params=dict(n=n, writes=3, ops=ops), weight=n * 3))
	for n in (7, 10) + ((12,) if big else ()):
		r.append(dict(fn='fragments', params=dict(n=n, writes=2, scale=[2, 1], ops=['next', 'read', 'read1']), weight=n))
	for k in ('next', 'read1', 'iter', 'read'):
		r.append(dict(fn='compaction', params=dict(block=2, limit=1, msgs=[0, 3], tail=7, opk=k), weight=8))
		r.append(dict(fn='compaction', params=dict(block=4, limit=8, msgs=[5, 1, 0], tail=9, opk=k), weight=8))
		r.append(dict(fn='compaction', params=dict(block=0, limit=0, msgs=[2100, 3], tail=7, opk=k), weight=8))
		r.append(dict(fn='compaction', params=dict(block=0, limit=0, msgs=[1500, 1500, 40], tail=6, opk=k), weight=8))
	r.append(dict(fn='truncated', params=dict(n=6), weight=4))
	for n in range(0, 9 if not big else 12):
		r.append(dict(fn='fragments', params=dict(n=n, writes=2, impl='c'), weight=n * 3))
	if not big:
		for n in (9, 10, 11):
			r.append(dict(fn='fragments', params=dict(n=n, writes=2, ops=['next', 'read'], impl='c'), weight=n * 3))
	for n in (6, 9):
		for ops in (['next'], ['read2', 'len'], ['has', 'iter'], ['read0', 'read1']):
			if big or n == 6 or len(ops) == 1:
				r.append(dict(fn='fragments', params=dict(n=n, writes=3, ops=ops, impl='c'), weight=n * 3))
	r.append(dict(fn='fragments', params=dict(n=8 if big else 6, writes=5, ops=['len'], impl='c'), weight=60))
	r.append(dict(fn='truncated', params=dict(n=6, impl='c'), weight=4))
	for k in ('next', 'read1', 'iter', 'read'):
		r.append(dict(fn='compaction', params=dict(block=0, limit=0, msgs=[5, 1, 0], tail=9 if big else 7, opk=k, impl='c'), weight=8))
		if big or k == 'next':
			r.append(dict(fn='compaction', params=dict(block=0, limit=0, msgs=[2100, 3], tail=7, opk=k, impl='c'), weight=8))
	return r

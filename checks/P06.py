"""P06: a batch of messages is its messages in order."""
from checks.P05 import atts, wire
BOUNDS = ('batches of up to 4 messages (5 in the thorough tier), every mixture of: row data (1 or 2 attributes, NULL or up to 2 '
	'bytes), COPY data up to 2 bytes, a statement, the empty message, an absolutely empty (void) message, a message class that is a tuple; '
	'list and tuple batches; attribute counts 65535 and 65536 in a row')
OUTSIDE = 'longer batches'
REACH = ('batch', 'refused')
KINDS = 'rcqevt'


def L(v):
	return bytes([(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255, v & 255])


def message(sx, e, i, k):
	"""-> (message, wire form)"""
	if k == 'r':
		shape = sx.choose('shape%d' % i, ([1], [-1], [0, 2], []))
		row = tuple(None if n < 0 else sx.bytes('a%d_%d' % (i, j), n) for j, n in enumerate(shape))
		w = bytes([0, len(row)]) + wire(row)
		return row, b'D' + L(len(w) + 4) + w
	if k == 'c':
		d = sx.bytes('c%d' % i, sx.choose('n%d' % i, 3))
		return d, b'd' + L(len(d) + 4) + d
	if k == 'q':
		d = sx.bytes('q%d' % i, 1)
		return e.Query(d), b'Q' + L(6) + d + b'\0'
	if k == 'e':
		return e.SynchronizeMessage, b'S\0\0\0\4'
	if k == 'v':
		return e.VoidMessage, b''
	t = sx.int('t%d' % i, 0, 0xFFFFFFFF)
	return e.AttributeTypes((t,)), b't\0\0\0\x0a\0\1' + L(t)


def batch(sx, kinds, container, impl='py'):
	from postgresql.protocol import element3 as e
	cat = sx.optimized().cat_messages if impl == 'c' else e.cat_messages
	ms, want = [], b''
	for i, k in enumerate(kinds):
		m, w = message(sx, e, i, k)
		ms.append(m)
		want = want + w
	got = cat(tuple(ms) if container else ms)
	sx.observe('got', got)
	sx.check(sx.same(got, want), 'the batch is not its messages in order')
	one = b''
	for m in ms:
		one = one + cat([m])
	sx.check(sx.same(got, one), 'sent together and one by one differ')
	sx.reach('batch')


def counts(sx, n, impl='py'):
	from postgresql.protocol import element3 as e
	cat = sx.optimized().cat_messages if impl == 'c' else e.cat_messages
	import struct
	v = sx.bytes('v', 1)
	row = (v,) + (None,) * (n - 1)
	try:
		w = cat([e.SynchronizeMessage, row, v])
	except (ValueError, OverflowError, struct.error):
		sx.check(n > 65535, 'row refused')
		sx.reach('refused')
		return
	sx.check(n <= 65535, 'a row of more attributes than can be counted was accepted')
	sx.check(sx.same(w[:17], b'S\0\0\0\4D' + L(n * 4 + 7) + bytes([n >> 8, n & 255]) + b'\0\0\0\1' + v) and
		sx.same(w[-7:], b'\xffd\0\0\0\5' + v), 'large row in a batch differs')


def tasks(tier):
	import itertools
	r = []
	for n in range(0, 4 if tier == 'quick' else 5):
		for kinds in itertools.product(KINDS, repeat=n):
			if n == 4 and len(set(kinds)) == 1:
				continue
			r.append(dict(fn='batch', params=dict(kinds=''.join(kinds), container=n % 2), validate=2))
			r.append(dict(fn='batch', params=dict(kinds=''.join(kinds), container=n % 2, impl='c'), validate=2))
	if tier == 'quick':
		for kinds in ('rrcc', 'ccrr', 'rcrc', 'rrqr', 'ceec', 'tvrc', 'rrrr', 'cccc', 'qvcr', 'cqrt'):
			r.append(dict(fn='batch', params=dict(kinds=kinds, container=0), weight=9, validate=4))
			r.append(dict(fn='batch', params=dict(kinds=kinds, container=0, impl='c'), weight=9, validate=4))
	for n in (65535, 65536):
		r.append(dict(fn='counts', params=dict(n=n), weight=50))
		r.append(dict(fn='counts', params=dict(n=n, impl='c'), weight=50))
	return r

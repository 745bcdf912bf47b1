"""P16: asynchronous messages are delivered once, in order, and disturb nothing."""
from checks.server import Server, connection
from checks.P14 import build, modules, drive, received
BOUNDS = ('the exchanges of P14 with results of one row or piece of data; up to 2 asynchronous messages (3 in the thorough tier) at every '
	'position of the answers, every mixture of notification (any 1-byte channel), identical notifications, notice and parameter status (any 1-byte value); '
	'one error at every position; every cut into up to 3 batches beyond what the exchange itself separates; messages after the end of the answer; handlers that raise; the driver\'s own handler')
OUTSIDE = 'more asynchronous messages, longer results; the printing of notices'
ASSUMPTIONS = 'the server conforms to the protocol: checks/server.py is written from its documentation'
REACH = ('delivered', 'two', 'raised', 'driver')


def exchange(sx, cmds, asyncs=2, kinds='A', errors=0, rows=1, steps=True, impl='py', raises=False, cuts=2):
	import sys
	xact3, client3 = modules(sx, impl)
	from postgresql.protocol import element3 as e
	server = Server(sx, e, errors=errors, rows=rows, asyncs=asyncs, kinds=kinds, cuts=cuts)
	conn = connection(sx, server, client3, tuple)
	rec = []

	def hook(m):
		rec.append(m)
		if raises:
			raise ValueError('handler')
	x = xact3.Instruction(build(e, cmds), asynchook=hook)
	old = sys.excepthook
	sys.excepthook = lambda *a: None
	try:
		conn.push(x)
		drive(sx, conn, x, server, xact3, steps, feed=1)
		sx.check(x.state is xact3.Complete and conn.xact is None, 'the exchange is disturbed')
		if not server.reported:
			sx.check(x.fatal is None, 'the exchange is disturbed')
		received(sx, x, server)
		# what came after the answer is for the next exchange
		server.cuts = 1
		y = xact3.Instruction(build(e, 'PS'), asynchook=hook)
		del server.sent[:]
		server.errors = 0
		if server.asyncs:
			server.asyncs -= 1
			server.notice(kinds[-1])
		conn.push(y)
		conn.complete()
	finally:
		sys.excepthook = old
	sx.check(y.fatal is None and conn.xact is None and not conn.read and not server.out, 'the next exchange fails')
	received(sx, y, server)
	same = len(rec) == len(server.notices)
	sx.check(same, 'an asynchronous message is lost or repeated')
	sx.check(sx.all(*[sx.same((a.type, a.serialize()), (b.type, b.serialize())) for a, b in zip(rec, server.notices)]),
		'an asynchronous message is changed or out of order')
	sx.reach('raised' if raises and rec else 'delivered')
	if len(rec) > 1:
		sx.reach('two')


def driver(sx, k):
	"""the connection's handler: what is done with each kind"""
	from postgresql.driver import pq3
	from postgresql.protocol import element3 as e
	out = []

	class Typio:
		def emit_message(self, m, creator=None):
			out.append(m)

		def set_encoding(self, v):
			raise RuntimeError('harness: no change of encoding')

		def _decode(self, d):
			return d.decode('ascii'), len(d)
	C = pq3.Connection
	c = C.__new__(C)
	c.typio = Typio()
	c._notifies = []
	settings = pq3.Settings(c)
	c.settings = settings
	told = []
	settings.subscribe('name', lambda db, key, value: told.append(('one', key, value)))
	settings.subscribe(None, lambda db, key, value: told.append(('all', key, value)))
	notes, notices, params = [], [], []
	for i in range(k):
		t = sx.choose('kind%d' % i, 'ANSs')
		b = sx.bytes('b%d' % i, 1)
		sx.assume(sx.all(b[0] > 0, b[0] < 128))
		if t == 'A':
			m = e.Notify(7, b'c', b)
			notes.append(m)
		elif t == 'N':
			m = e.Notice([(b'S', b'NOTICE'), (b'C', b'00000'), (b'M', b)])
			notices.append(m)
		else:
			m = e.ShowOption(b'name' if t == 'S' else b'other', b)
			params.append(('name' if t == 'S' else 'other', b))
		c._receive_async(m)
	sx.check(sx.same(c._notifies, notes) and len(c._notifies) == len(notes), 'a notification is lost or repeated')
	sx.check(all(a is b for a, b in zip(c._notifies, notes)), 'a notification is out of order')
	sx.check(len(out) == len(notices) and all(a is b for a, b in zip(out, notices)), 'a notice is lost or repeated')
	want = {}
	calls = []
	for n, v in params:
		v = v.decode('ascii')
		want[n] = v
		if n == 'name':
			calls.append(('one', n, v))
		calls.append(('all', n, v))
	sx.check(sx.same(dict(settings.cache), want), 'a parameter does not have the value reported last')
	sx.check(len(told) == len(calls) and sx.same(told, calls), 'a subscriber is not told every change')
	sx.reach('driver')


def tasks(tier):
	r = []
	big = tier != 'quick'
	for c in ('Q', 'F', 'PS', 'PdS', 'BES', 'ES', 'BECS', 'PHdHS', 'BEHS', 'S', 'SS', 'PSCS', 'PdBES'):
		for kinds in ('A', 'aNS'):
			for impl in ('py', 'c'):
				if impl == 'c' and c not in ('Q', 'ES'):
					continue
				w = len(c) * len(kinds) * (5 if impl == 'c' else 1)
				n = 2 if len(c) < (3 if len(kinds) > 1 else 4) and impl != 'c' else 1
				r.append(dict(fn='exchange', params=dict(cmds=c, asyncs=n + big, kinds=kinds, impl=impl), weight=w, max_paths=1000000, limit=850))
		r.append(dict(fn='exchange', params=dict(cmds=c, asyncs=2 if len(c) < 4 else 1, kinds='a', steps=False), weight=len(c), max_paths=1000000, limit=850))
	for c in ('Q', 'PS', 'BES', 'F'):
		r.append(dict(fn='exchange', params=dict(cmds=c, asyncs=1, errors=1, kinds='aS'), weight=5))
		r.append(dict(fn='exchange', params=dict(cmds=c, asyncs=1 + (len(c) < 3), kinds='a', raises=True), weight=5))
	for k in (1, 2, 3):
		r.append(dict(fn='driver', params=dict(k=k), weight=3))
	return r

"""P14: a request completes exactly when its answer is complete."""
from checks.server import Server, connection
BOUNDS = ('exchanges of a simple query (with one or two results), a function call, and extended queries of up to 8 commands with one or two '
	'synchronization points; results of up to 2 rows or pieces of COPY data (3 in the thorough tier), each answer the protocol allows '
	'to each command; every cut of the answers into batches; up to 2 pieces of COPY data sent; stepped one transition at a time and completed in one '
	'call; the Python and the C scanner for row messages; contents of rows and data: one byte, any')
OUTSIDE = 'longer results, more commands; multi-byte contents (their encoding is decided by P04 and P05)'
ASSUMPTIONS = 'the server conforms to the protocol: checks/server.py is written from its documentation'
REACH = ('completed', 'copied', 'aborted', 'rows', 'second')


def build(e, cmds):
	T = {
		'Q': lambda: e.Query(b'q'), 'F': lambda: e.Function(1, (), [], b'\0\1'),
		'P': lambda: e.Parse(b's', b'q', ()), 'B': lambda: e.Bind(b'p', b's', (), [], ()),
		'd': lambda: e.DescribeStatement(b's'), 'D': lambda: e.DescribePortal(b'p'),
		'E': lambda: e.Execute(b'p', 1), 'C': lambda: e.ClosePortal(b'p'),
		'S': lambda: e.SynchronizeMessage, 'H': lambda: e.FlushMessage,
	}
	return [T[c]() for c in cmds]


def plain(m):
	"""what of a received message is compared"""
	if m.__class__ is tuple or isinstance(m, bytes):
		return m
	return (m.type, m.serialize())


def expected(t, body):
	if t == b'D':
		n = body[5]
		return (body[6:6 + n],)
	if t == b'd':
		return body
	if t == b'C':
		return (t, body)
	return (t, body)


def modules(sx, impl):
	if impl == 'c':
		return sx.extended('postgresql.protocol.xact3', 'postgresql.protocol.client3')
	from postgresql.protocol import xact3, client3
	return xact3, client3


def drive(sx, conn, x, server, xact3, steps, feed=2):
	"""the driver: transitions until the exchange is over, COPY data fed when it is asked for"""
	n = 0
	given = []
	if not steps:
		conn.complete()
		return given
	while conn.xact is x and x.state is not xact3.Complete:
		if hasattr(x, 'CopyFailSequence') and x.messages is x.CopyFailSequence:
			k = server.choose('feed', ('data', 'done', 'fail') if len(given) < feed else ('done', 'fail'))
			if k == 'data':
				d = sx.bytes(server.name('piece'), 1)
				given.append(d)
				x.messages = [d]
			elif k == 'done':
				x.messages = x.CopyDoneSequence
		conn.step()
		n += 1
		if n > 60:
			sx.check(False, 'does not complete')
	return given


def received(sx, x, server):
	got = [plain(m) for m in x.messages_received()]
	want = [expected(*m) for m in server.sent]
	sx.check(sx.same(got, want), 'the messages of the answer are not delivered once and in order')
	sx.observe('got', got)
	return got


def exchange(sx, cmds, steps=True, rows=1, statements=1, impl='py', container='tuple', tail=False):
	xact3, client3 = modules(sx, impl)
	from postgresql.protocol import element3 as e
	server = Server(sx, e, rows=rows, statements=statements)
	conn = connection(sx, server, client3, tuple if container == 'tuple' else list)
	commands = build(e, cmds)
	rec = []
	x = xact3.Instruction(commands, asynchook=rec.append)
	conn.push(x)
	given = drive(sx, conn, x, server, xact3, steps)
	# over: and it was over no sooner than the server was done
	sx.check(x.state is xact3.Complete and conn.xact is None, 'not completed')
	sx.check(not server.out and not conn.read, 'completed before the answer was')
	sx.check(server.idle and not server.input, 'completed before the server was done')
	if server.aborted:
		sx.check(x.fatal is False and x.error_message[b'C'] == server.reported[-1][1], 'the error is not reported')
		sx.reach('aborted')
	else:
		sx.check(x.fatal is None and not hasattr(x, 'error_message'), 'a success is reported as an error')
	sx.check(server.unexpected is None, 'a command is sent into COPY data')
	sx.check(conn.state == server.sent[-1][1], 'the transaction state is not the one reported last')
	received(sx, x, server)
	if server.copied or server.aborted:
		sx.check(sx.same(list(server.received), given), 'the COPY data does not reach the server once and in order')
		if server.copied:
			sx.reach('copied')
	if any(t == b'D' for t, b in server.sent):
		sx.reach('rows')
	sx.check(not rec, 'an asynchronous message out of nothing')
	sx.reach('completed')
	# the next request on the same connection gets the next answer
	del server.sent[:]
	server.rows, server.statements = 1, 1
	server.cuts = min(server.cuts, 1)
	y = xact3.Instruction(build(e, 'PS'))
	conn.push(y)
	conn.complete()
	sx.check(y.fatal is None and conn.xact is None and not conn.read and not server.out, 'the next exchange fails')
	received(sx, y, server)
	sx.reach('second')


def leftover(sx, cmds, impl='py'):
	"""what follows the answer is left for what comes next"""
	xact3, client3 = modules(sx, impl)
	from postgresql.protocol import element3 as e
	server = Server(sx, e, rows=1)
	conn = connection(sx, server, client3, tuple)
	rec = []
	x = xact3.Instruction(build(e, cmds), asynchook=rec.append)
	x.sent()
	server.receive(x.commands)
	k = server.choose('trailing', 2) + 1
	n = len(server.out)
	trailing = []
	for i in range(k):
		b = sx.bytes('t%d' % i, 1)
		trailing.append((sx.choose('kind%d' % i, (b'A', b'E', b'Z', b'D', b'1')), b if impl == 'py' else b'x'))
	if server.out[-1][0] != b'Z':
		sx.assume(False)
	batch = tuple(server.out + trailing)
	cut = sx.choose('cut', len(batch))
	parts = (batch[:cut], batch[cut:]) if cut else (batch,)
	done = 0
	for p in parts:
		while p and x.state is not xact3.Complete:
			i = x.state[1](p)
			sx.check(0 < i <= len(p), 'no progress')
			done += i
			p = p[i:]
	sx.check(x.state is xact3.Complete and done == n, 'messages after the answer are consumed')
	sx.check(not rec, 'messages after the answer are consumed')
	received(sx, x, server)


EXTENDED = ('PS', 'PdS', 'PdBES', 'BES', 'BECS', 'BDECS', 'ECS', 'CCS', 'PHdHBES', 'S', 'BEHS', 'SS', 'PSBES', 'ESES', 'PdBDECS')


def tasks(tier):
	r = []
	big = tier != 'quick'
	for c in EXTENDED:
		for impl in ('py', 'c'):
			for steps in (True, False):
				if impl == 'c' and ('E' not in c or (not big and (c not in ('BES', 'ECS', 'BEHS') or not steps))):
					continue
				rows = 2 if c.count('E') == 1 and len(c) < 6 - (impl == 'c') else 1
				r.append(dict(fn='exchange', params=dict(cmds=c, steps=steps, rows=rows + (big and len(c) < 5), impl=impl),
					weight=len(c) * rows * (9 if impl == 'c' else 1), max_paths=1000000, limit=850))
	for impl in ('py', 'c'):
		for steps in (True, False):
			for s in (1, 2):
				if not big and impl == 'c' and (s == 2 or not steps):
					continue
				r.append(dict(fn='exchange', params=dict(cmds='Q', steps=steps, rows=(2 if s == 1 else 1) + (big and impl == 'py' and s == 1), statements=s, impl=impl),
					weight=90, max_paths=1000000, limit=850))
	r.append(dict(fn='exchange', params=dict(cmds='Q', rows=2, container='list'), weight=20))
	r.append(dict(fn='exchange', params=dict(cmds='BES', rows=2, container='list'), weight=20))
	r.append(dict(fn='exchange', params=dict(cmds='F')))
	for c in ('PS', 'BES', 'F', 'Q', 'PdBECS'):
		r.append(dict(fn='leftover', params=dict(cmds=c), weight=9))
	r.append(dict(fn='leftover', params=dict(cmds='BES', impl='c'), weight=9))
	return r

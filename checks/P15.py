"""P15: errors and unexpected messages leave the protocol synchronized or declared dead."""
from checks.server import Server, connection
from checks.P14 import build, modules, drive, received, expected, plain
BOUNDS = ('the exchanges of P14 with results of one row or piece of data (two in the thorough tier); an error (ERROR, FATAL or PANIC, '
	'with a severity in any language) at every position, up to two in requests with two synchronization points; one message with any type byte '
	'that is illegal at its position, at every position; every cut of the answers into batches; the Python and the C row scanner')
OUTSIDE = ('longer results, more errors; a simple query whose rows end with ready-for-query without a completion tag, which the '
	'code accepts; legal types with malformed contents (P02, P04)')
ASSUMPTIONS = 'apart from the injected message the server conforms to the protocol: checks/server.py is written from its documentation'
REACH = ('synchronized', 'dead', 'violation', 'copy')


def dead(sx, conn, x, server, xact3, e):
	"""nothing that follows makes it a success"""
	before = len(server.input)
	server.cuts = min(server.cuts, 1)
	y = xact3.Instruction(build(e, 'PS'))
	late = [(b'Z', b'I'), (b'C', b'OK\0'), (b'1', b'')]
	server.out.extend(late)
	conn.push(y)
	conn.complete()
	sx.check(conn.xact is x and x.fatal is True and x.state is xact3.Complete, 'a dead connection comes back to life')
	sx.check(len(server.input) == before and y.state is not xact3.Complete, 'a request is sent on a dead connection')


def exchange(sx, cmds, errors=1, rows=1, steps=True, impl='py', fatal=True, illegal=False, late=False, localized=False):
	xact3, client3 = modules(sx, impl)
	from postgresql.protocol import element3 as e
	server = Server(sx, e, errors=errors, rows=rows, fatal=fatal, illegal=illegal, late=late, localized=localized)
	conn = connection(sx, server, client3, tuple)
	x = xact3.Instruction(build(e, cmds))
	conn.push(x)
	drive(sx, conn, x, server, xact3, steps, feed=1)
	sx.check(x.state is xact3.Complete, 'not completed')
	if server.broken is not None:
		sx.check(x.fatal is True and conn.xact is x, 'an illegal message is accepted')
		sx.check(x.error_message[b'C'] == '08P01' or x.error_message[b'C'] == b'08P01', 'an illegal message is not reported as a violation')
		got = [plain(m) for m in x.messages_received()]
		want = [expected(*m) for m in server.sent[:server.broken]]
		sx.check(sx.same(got, want[:len(got)]), 'messages before the violation are changed')
		sx.reach('violation')
		dead(sx, conn, x, server, xact3, e)
		return
	fatals = [c for f, c in server.reported if f]
	if fatals:
		sx.check(x.fatal is True and conn.xact is x, 'a fatal error does not end the connection')
		sx.check(x.error_message[b'C'] == fatals[0], 'the fatal error is not kept')
		sx.reach('dead')
		dead(sx, conn, x, server, xact3, e)
		return
	sx.check(conn.xact is None, 'the connection cannot be used again')
	sx.check(not server.out and not conn.read, 'completed before the answer was')
	sx.check(server.idle and not server.input, 'completed before the server was done')
	if server.reported:
		sx.check(x.fatal is False and x.error_message[b'C'] in [c for f, c in server.reported], 'the error is not kept')
	else:
		sx.check(x.fatal is None and not hasattr(x, 'error_message'), 'a success is reported as an error')
	sx.check(server.unexpected is None, 'a command is sent into COPY data')
	if server.sent:
		received(sx, x, server)
	if server.copied or server.aborted:
		sx.reach('copy')
	sx.reach('synchronized')
	# usable again
	del server.sent[:], server.reported[:]
	server.errors, server.illegal, server.rows = 0, False, 1
	server.cuts = min(server.cuts, 1)
	y = xact3.Instruction(build(e, 'PS'))
	conn.push(y)
	conn.complete()
	sx.check(y.fatal is None and conn.xact is None and not conn.read and not server.out, 'the next exchange fails')
	received(sx, y, server)


def tasks(tier):
	r = []
	big = tier != 'quick'
	for c in ('Q', 'F', 'PS', 'PdS', 'BES', 'ES', 'BECS', 'DCS', 'PHdHS', 'BEHS', 'S', 'SS', 'PSCS', 'BESCS', 'PdBES'):
		for impl in ('py', 'c'):
			if impl == 'c' and c not in ('Q', 'BES', 'ES', 'BESCS'):
				continue
			for steps in ((True, False) if impl == 'py' or big else (True,)):
				w = len(c) * (5 if impl == 'c' else 1)
				two = c.count('S') == 2 and len(c) > 2
				rows = 2 if c in ('Q', 'ES') and impl == 'py' or big else 1
				r.append(dict(fn='exchange', params=dict(cmds=c, errors=1 + two, rows=rows, steps=steps, impl=impl), weight=w * (1 + two), max_paths=1000000, limit=850))
				if steps:
					r.append(dict(fn='exchange', params=dict(cmds=c, errors=0, illegal=True, rows=rows, steps=steps, impl=impl), weight=w, max_paths=1000000, limit=850))
	for c in ('Q', 'PS', 'BES', 'F'):
		r.append(dict(fn='exchange', params=dict(cmds=c, localized=True, fatal=False), weight=3))
		r.append(dict(fn='exchange', params=dict(cmds=c, late=True, errors=1, fatal=False), weight=3))
		r.append(dict(fn='exchange', params=dict(cmds=c, late=True, errors=1, fatal=True, steps=False), weight=3))
		r.append(dict(fn='exchange', params=dict(cmds=c, illegal=True, errors=1, fatal=False), weight=9))
	return r

"""P34: closing what was made on the server."""
import gc

from .sqlserver import SQL, database

BOUNDS = ('every history of 5 (6 in the thorough tier; 4 and 5 with an error) operations out of: prepare with a generated or a given name, declare a cursor, start a streamed result (chunks of 1 '
	'row), start a copy, read on, call a statement, close, close again, discard, execute; at most 2 statements and 2 cursors or results at a time; inside and outside '
	'of a transaction block; at most 1 error of the server, at a prepare, a call or a chunk; then three more requests')
OUTSIDE = 'what the end of a transaction closes; objects kept alive by cycles of the caller; connections closed and opened again; reads from what was closed'
ASSUMPTIONS = ('the garbage collector runs before the last requests; otherwise an object that nothing refers to is discarded at once, as CPython does',)
REACH = ('prepare', 'named', 'cursor', 'stream', 'copy', 'read', 'call', 'close', 'close again', 'discard', 'execute', 'error', 'failed prepare', 'end of a result',
	'name used again', 'inside', 'outside', 'closed while in progress')

Q, BAD, C = 'SELECT a', 'SELECT bad', 'COPY a TO STDOUT'


frozen = []

def collect():
	"""what only refers to itself is discarded as well"""
	gc.collect()


class Server(SQL):
	"""knows which closes stand before their own Parse"""
	def __init__(self, *args, **kw):
		super().__init__(*args, **kw)
		self.prepared = {}
		self.foreign = 0

	def command(self, m):
		if m.type == b'P':
			if self.closes and self.closes[-1] == (b'S', m.name, False) and m.name:
				# a close of what is about to be made
				self.closes.pop()
			if m.statement == BAD.encode():
				from .sqlserver import Failed
				raise Failed(b'42601')
		return super().command(m)


class Object:
	def __init__(self, kind, what, name, given=False, of=None):
		self.of = of
		self.kind, self.what, self.name, self.given = kind, what, name, given
		self.left = 2
		self.ended = False


def history(sx, first, ops, status='I', errors=0, prefix=None):
	from postgresql.driver import pq3
	if not frozen:
		# keeps the collections short
		gc.collect()
		gc.freeze()
		frozen.append(True)
	old = pq3.MultiXactStream.chunksize
	pq3.MultiXactStream.chunksize = 1
	try:
		run(sx, first, ops, status, errors)
	finally:
		pq3.MultiXactStream.chunksize = old


def run(sx, first, ops, status, errors):
	import postgresql.exceptions as X
	from postgresql.protocol import element3 as e
	server = Server(sx, e, {Q.encode(): [[b'1'], [b'2'], [b'3']]}, status=status.encode(), errors=errors)
	server.copies[C.encode()] = [b'l1', b'l2']
	db = database(sx, server)
	sx.reach('inside' if status == 'T' else 'outside')
	live, closed, gone = [], [], []
	names = set()

	def add(o):
		if (o.kind, o.name) in names:
			sx.reach('name used again')
		names.add((o.kind, o.name))
		live.append(o)

	def options():
		st = [o for o in live if o.kind == 'statement']
		rs = [o for o in live if o.kind != 'statement']
		r = ['execute']
		if len(st) < 2:
			r += ['prepare', 'copy'] + (['named'] if not any(o.given for o in st) else []) + (['bad'] if errors else [])
		for i, o in enumerate(live):
			if o.kind == 'statement':
				if len(rs) < 2:
					r += ['stream %d' % i]
					if o.what.string != C:
						r += ['cursor %d' % i]
				r += ['call %d' % i]
			elif not o.ended:
				r += ['read %d' % i]
			r += ['close %d' % i, 'discard %d' % i]
		if closed:
			r += ['again', 'forget']
		return tuple(r)

	def do(k):
		w = k.split()
		i = int(w[1]) if len(w) > 1 else None
		w = w[0]
		if w == 'execute':
			db.execute('SET x')
			sx.reach('execute')
		elif w in ('prepare', 'copy', 'named'):
			s = db.prepare(C if w == 'copy' else Q, **(dict(statement_id='given') if w == 'named' else {}))
			add(Object('statement', s, s.statement_id, w == 'named'))
			sx.reach(w)
		elif w == 'bad':
			try:
				db.prepare(BAD)
				sx.check(False, 'an error is not reported')
			except X.Error:
				sx.reach('failed prepare')
		elif w == 'cursor':
			c = live[i].what.declare()
			add(Object('cursor', c, c.cursor_id, of=live[i]))
			sx.reach('cursor')
		elif w == 'stream':
			c = live[i].what.chunks()
			add(Object('copy' if live[i].what.string == C else 'stream', c, c.cursor_id, of=live[i]))
			sx.reach('stream')
		elif w == 'read':
			o = live[i]
			sx.reach('read')
			if o.kind == 'cursor':
				o.what.read(1)
			elif next(o.what, None) is None:
				o.ended = True
				sx.reach('end of a result')
		elif w == 'call':
			live[i].what()
			sx.reach('call')
		elif w == 'close':
			o = live.pop(i)
			if db.pq.xact is not None:
				sx.reach('closed while in progress')
			o.what.close()
			closed.append(o)
			sx.reach('close')
		elif w == 'again':
			closed[-1].what.close()
			sx.reach('close again')
		elif w == 'forget':
			closed.pop().what = None
		elif w == 'discard':
			o = live.pop(i)
			gone.append(o)
			o.what = None
			sx.reach('discard')

	def flush():
		for i in range(3):
			# (an error that was raised may still be referred to)
			collect()
			try:
				db.execute('SET x')
			except X.Error:
				sx.check(server.failed > 0, 'an error out of nothing')
				sx.reach('error')

	def used():
		"""what is in use exists"""
		for o in live:
			n = o.name.encode()
			if o.kind == 'statement':
				sx.check(n in server.statements, 'a statement in use was closed')
			elif o.kind == 'cursor' or (o.kind == 'stream' and not o.ended):
				if o.kind == 'cursor' or not o.ended:
					sx.check(n in server.portals or server.status == b'E' or server.failed > 0 and o.kind == 'stream', 'a cursor in use was closed')

	for i in range(ops):
		k = first[i] if i < len(first) else sx.choose('op%d' % i, options())
		if i < len(first):
			sx.assume(k in options())
		try:
			do(k)
		except X.Error:
			sx.check(server.failed > 0, 'an error out of nothing')
			sx.reach('error')
		used()
	flush()
	used()
	# nothing else is left
	# (what a result still refers to is in use)
	mine = set(o.name.encode() for o in live + [o for o in gone if o.given] + [o.of for o in live + closed if o.of is not None])
	for n in server.statements:
		sx.check(not n or n in mine, 'a statement that was given up was not closed')
	for n in server.portals:
		sx.check(not n or n in mine, 'a cursor that was given up was not closed')
	for kind, n, existed in server.closes:
		sx.check(not n or existed or server.failed > 0, 'closed twice')
	# and statements work
	server.errors = 0
	if server.status != b'E':
		for o in live:
			if o.kind == 'statement':
				r = o.what()
				sx.check(len(r) == (2 if o.what.string == C else 3), 'the statement does not work any more')

	# and in the end everything is closed
	for o in live + closed:
		o.what = None
	server.errors = 0
	flush()
	mine = set(o.name.encode() for o in live + gone if o.given)
	for n in list(server.statements) + list(server.portals):
		sx.check(not n or n in mine, 'something that was discarded was not closed')


def tasks(tier):
	n = 3 if tier == 'quick' else 4
	H = lambda *f, **k: dict(fn='history', params=dict(first=list(f), **k), weight=5)
	t = []
	for st in ('I', 'T'):
		for er in (0, 1):
			for f in (('prepare',), ('copy',), ('named',)):
				for g in ('stream 0', 'cursor 0', 'call 0', 'close 0', 'discard 0', 'prepare', 'execute') + (('bad',) if er else ()):
					if f[0] == 'copy' and g == 'cursor 0':
						continue
					t.append(H(*f, g, ops=n + 2 - er, status=st, errors=er))
	return t

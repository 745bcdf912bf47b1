"""P20: transaction blocks and savepoints."""
import re
BOUNDS = ('programs of up to 3 nested with-blocks (4 in the thorough tier) with up to 2 actions in each, 4 (5) in all at depth 3 (work, a failing statement that is '
	'caught or not, a nested block whose exception is caught or not), left normally or by an exception, with commits that fail and '
	'connections that are lost; sequences of up to 4 (5) calls of start, commit and rollback of 2 objects in any order; isolation and '
	'mode strings of 2 symbolic characters')
OUTSIDE = 'exceptions that are not Exceptions (KeyboardInterrupt, SystemExit, GeneratorExit); threads; prepared transactions'
REACH = ('committed', 'rolled back', 'failed state', 'commit fails', 'nested', 'lost', 'misuse', 'repeated', 'savepoint', 'block',
	'configured', 'refused configuration')


class Lost(Exception):
	pass


class Sql:
	"""the server's transaction control, from PostgreSQL's documentation"""
	def __init__(self, sx, deferred=False):
		from postgresql import exceptions
		self.x = exceptions
		self.sx = sx
		self.state = b'I'
		self.done = []				# committed work
		self.stack = []				# [name, work]
		self.log = []
		self.deferred = deferred
		self.closed = False

	def error(self, code):
		if self.stack:
			self.state = b'E'
		raise self.x.ErrorLookup(code)('failed', code=code, details={'severity': 'ERROR'}, source='SERVER')

	def effects(self):
		return self.done + [w for n, ws in self.stack for w in ws]

	def run(self, q):
		if self.closed:
			raise self.x.ErrorLookup('08003')('lost', code='08003', details={'severity': 'FATAL'}, source='CLIENT')
		self.log.append(q)
		for s in q.split(';'):
			if s.strip():
				self.statement(s.strip())

	def find(self, name):
		for i in range(len(self.stack) - 1, 0, -1):
			if self.stack[i][0] == name:
				return i
		self.error('3B001')

	def statement(self, s):
		m = re.fullmatch(r'(START TRANSACTION|BEGIN|COMMIT|END|ABORT|ROLLBACK)( TRANSACTION| WORK)?|(SAVEPOINT|RELEASE SAVEPOINT|RELEASE'
			r'|ROLLBACK TO SAVEPOINT|ROLLBACK TO) "((?:[^"]|"")*)"|(WORK|FAIL)(\d*)', s)
		if m is None:
			raise RuntimeError('harness: unknown statement %r' % s)
		k = m.group(1) or m.group(3) or m.group(5)
		name = (m.group(4) or '').replace('""', '"')
		if k in ('COMMIT', 'END'):
			if self.state == b'T' and self.deferred and self.sx.choose('deferred%d' % len(self.log), 2):
				self.stack, self.state = [], b'I'
				self.error('23505')
			if self.state == b'T':
				self.done += [w for n, ws in self.stack for w in ws]
			self.stack, self.state = [], b'I'
		elif k in ('ABORT', 'ROLLBACK'):
			self.stack, self.state = [], b'I'
		elif k in ('ROLLBACK TO', 'ROLLBACK TO SAVEPOINT'):
			if self.state == b'I':
				self.error('25P01')
			i = self.find(name)
			del self.stack[i + 1:]
			self.stack[i][1] = []
			self.state = b'T'
		elif self.state == b'E':
			self.error('25P02')
		elif k in ('START TRANSACTION', 'BEGIN'):
			if self.state == b'I':
				self.stack, self.state = [['', []]], b'T'
		elif k == 'SAVEPOINT':
			if self.state == b'I':
				self.error('25P01')
			self.stack.append([name, []])
		elif k in ('RELEASE', 'RELEASE SAVEPOINT'):
			if self.state == b'I':
				self.error('25P01')
			i = self.find(name)
			ws = [w for n, ws in self.stack[i:] for w in ws]
			del self.stack[i:]
			self.stack[-1][1].extend(ws)
		elif k == 'WORK':
			(self.stack[-1][1] if self.stack else self.done).append(m.group(6))
		else:
			self.error('22012')


class Database:
	_e_factors = ()

	def __init__(self, server):
		from postgresql.driver import pq3
		self.pq = server
		self.typio = pq3.TypeIO.__new__(pq3.TypeIO)
		self.typio.database = self
		self.transaction = lambda *a, **k: pq3.Connection.transaction(self, *a, **k)

	@property
	def closed(self):
		return self.pq.closed

	def execute(self, q):
		self.pq.run(q)


class Program:
	def __init__(self, sx, depth, acts, deferred, lose):
		self.sx, self.acts, self.lose, self.n = sx, acts, lose, 0
		self.limit = depth
		self.server = Sql(sx, deferred)
		self.db = Database(self.server)

	def choose(self, options):
		self.n += 1
		return self.sx.choose('c%d' % self.n, options)

	def block(self, depth):
		"""-> the exception that left the block"""
		sx, S = self.sx, self.server
		was, state, level = S.effects(), S.state, len(S.stack)
		kept = []
		why = entered = None
		got = None
		x = self.db.transaction()
		try:
			with x as y:
				entered = True
				sx.check(y is x, 'the block does not give its transaction')
				sx.check(len(S.stack) == level + 1 and S.state == b'T' and S.effects() == was, 'a block is not opened')
				sx.reach('block' if not level else 'savepoint')
				why = self.body(depth, kept)
				if why is None and self.choose(2):
					why = ValueError('left')
				broken = S.state == b'E'
				if why is not None:
					raise why
		except Exception as e:
			got = e
		if not entered:
			sx.check(state == b'E' and got is not None, 'a block cannot be entered')
			sx.check(S.state == b'E' and len(S.stack) == level, 'a block that was not entered changes something')
			return got
		if S.closed:
			sx.reach('lost')
			sx.check(got is not None and (why is None or got is why), 'the exception of a lost connection is swallowed')
			return got
		if why is not None:
			sx.check(got is why, 'an exception is swallowed or replaced')
			sx.check(S.effects() == was, 'a block left by an exception is not rolled back')
			sx.reach('rolled back')
		elif broken:
			sx.check(isinstance(got, S.x.InFailedTransactionError), 'a failed block is left without an exception')
			sx.check(S.effects() == was, 'a failed block is not rolled back')
			sx.reach('failed state')
		elif got is not None:
			sx.check(level == 0 and isinstance(got, S.x.UniqueError), 'a block left normally raises')
			sx.check(S.effects() == was, 'work is kept although the commit failed')
			sx.reach('commit fails')
		else:
			sx.check(S.effects() == was + kept, 'a block left normally does not keep its work')
			if level == 0:
				sx.check(S.done == was + kept, 'a block left normally is not committed')
			sx.reach('committed')
		sx.check(len(S.stack) == level, 'blocks are not closed in nested order')
		sx.check(S.state == state, 'the state before the block is not restored')
		return got

	def body(self, depth, kept):
		S = self.server
		for i in range(self.acts):
			ops = ['', 'work', 'fail', 'caught'] + (['nest'] if depth > 1 else []) + (['lose'] if self.lose else [])
			if not self.budget:
				break
			op = self.choose(ops)
			if not op:
				break
			self.budget -= 1
			if op == 'lose':
				self.lose = False
				S.closed = True
				break
			if op == 'nest':
				self.sx.reach('nested')
				before = S.effects()
				e = self.block(depth - 1)
				if e is None:
					kept += S.effects()[len(before):]
				elif self.choose(2) or S.closed:
					return e
				continue
			try:
				if op == 'work':
					self.db.execute('WORK%d' % self.n)
					kept.append('%d' % self.n)
				else:
					self.db.execute('FAIL')
			except self.server.x.Error as e:
				if op != 'caught':
					return e
		return None


def program(sx, depth, acts=2, deferred=False, lose=False, twice=False, budget=99):
	p = Program(sx, depth, acts, deferred, lose)
	p.budget = budget
	p.block(depth)
	if twice and not p.server.closed:
		p.block(1)


def calls(sx, n):
	"""explicit calls in any order"""
	S = Sql(sx)
	db = Database(S)
	X = S.x
	objs = [db.transaction() for i in range(2)]
	state = ['new', 'new']
	kind, name = [None, None], [None, None]
	for k in range(n):
		o = sx.choose('object%d' % k, 2) if k else 0
		op = sx.choose('op%d' % k, ('start', 'commit', 'rollback') if k else ('start', 'commit'))
		before, idle = len(S.log), S.state == b'I'
		want = bad = None
		if op == 'start':
			if state[o] == 'new':
				want = 'START TRANSACTION' if idle else 'SAVEPOINT'
			elif state[o] != 'open':
				bad = True
		elif state[o] == 'open':
			if op == 'commit':
				want = 'COMMIT' if kind[o] == 'block' else 'RELEASE'
			else:
				want = 'ABORT' if kind[o] == 'block' else 'ROLLBACK TO'
		elif state[o] != {'commit': 'committed', 'rollback': 'aborted'}[op]:
			bad = True
		err = None
		try:
			getattr(objs[o], sx.choose('alias%d' % k, {'start': ('start', 'begin'), 'commit': ('commit',), 'rollback': ('rollback', 'abort')}[op]))()
		except X.Error as e:
			err = e
		sent = S.log[before:]
		if bad:
			sx.reach('misuse')
			sx.check(err is not None and err.source == 'CLIENT' and err.code == '--OPE', 'misuse does not raise')
			sx.check(not sent, 'misuse sends a statement')
			continue
		if want is None:
			sx.reach('repeated')
			sx.check(err is None and not sent, 'a repeated call is not ignored')
			continue
		sx.check(len(sent) == 1, 'not one request is sent')
		text = [s.strip() for s in sent[0].split(';') if s.strip()]
		if want in ('START TRANSACTION', 'COMMIT', 'ABORT'):
			sx.check(text in ([want], [want.replace('ABORT', 'ROLLBACK')]), 'another statement is sent')
		else:
			m = re.fullmatch('%s "(.*)"' % want, text[0])
			sx.check(m is not None, 'another statement is sent')
			if want == 'SAVEPOINT':
				nm = m.group(1)
				sx.check(name[1 - o] != nm or state[1 - o] != 'open', 'two open savepoints have the same name')
			else:
				sx.check(m.group(1) == name[o], 'another savepoint is named')
			if want == 'ROLLBACK TO':
				sx.check(text[1:] == ['RELEASE "%s"' % name[o]], 'the savepoint is not released')
			else:
				sx.check(len(text) == 1, 'more is sent')
		if err is not None:
			sx.check(err.source == 'SERVER', 'a call that should be sent raises')
			continue
		if op == 'start':
			kind[o] = 'block' if idle else 'savepoint'
			name[o] = m.group(1) if not idle else None
		state[o] = {'start': 'open', 'commit': 'committed', 'rollback': 'aborted'}[op]


def configured(sx, iso, mode, inside):
	"""isolation and mode"""
	from postgresql import exceptions as X
	sent = []

	class D(Database):
		def execute(self, q):
			sent.append(q)
	S = Sql(sx)
	db = D(S)
	if inside:
		S.stack, S.state = [['', []]], b'T'
	i = sx.str('iso', 2, lo=32, hi=126) if iso else None
	m = sx.str('mode', 2, lo=32, hi=126) if mode else None
	x = db.transaction(i, m) if sx.choose('positional', 2) else db.transaction(mode=m, isolation=i)
	err = None
	try:
		x.start()
	except (ValueError, X.OperationError) as e:
		err = e
	semi = [c == ';' for v in (i, m) if v is not None for c in v]
	if inside and (iso or mode):
		sx.reach('refused configuration')
		sx.check(err is not None and not sent, 'a configured transaction is started inside a block')
		return
	if inside:
		sx.check(len(sent) == 1 and sent[0].startswith('SAVEPOINT "'), 'no savepoint inside a block')
		return
	if sx.any(*semi):
		sx.check(isinstance(err, ValueError) and not sent, 'a configuration that ends the statement is sent')
		return
	want = 'START TRANSACTION' + (' ISOLATION LEVEL ' + i if iso else '') + (' ' + m if mode else '')
	sx.check(err is None and len(sent) == 1, 'a configured transaction is not started')
	q = sent[0]
	sx.check(sx.any(sx.same(q, want), sx.same(q, want + ';')), 'the configuration is not the one given')
	sx.reach('configured')


def tasks(tier):
	P = lambda w=1, **k: dict(fn='program', params=k, weight=w)
	t = [P(depth=1, acts=3, deferred=True, twice=True), P(depth=2, acts=2, deferred=True), P(depth=2, acts=2, lose=True),
		P(depth=3, acts=1, deferred=True, lose=True), P(depth=3, acts=2, budget=4, w=5)]
	t += [dict(fn='calls', params=dict(n=n)) for n in (3, 4)]
	t += [dict(fn='configured', params=dict(iso=i, mode=m, inside=s)) for i in (0, 1) for m in (0, 1) for s in (0, 1)]
	if tier == 'thorough':
		t += [P(depth=4, acts=1, deferred=True, lose=True), P(depth=2, acts=3, deferred=True, lose=True, budget=4), P(depth=3, acts=2, budget=5),
			P(depth=4, acts=2, budget=5, w=5)]
		t += [dict(fn='calls', params=dict(n=5))]
	return t

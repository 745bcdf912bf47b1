"""P30: advisory lock objects."""
import re
BOUNDS = ('lock objects of 1 to 3 identifiers (any int8, any pair of int4, equal or not), one or two objects, shared and exclusive; up to 4 '
	'calls (5 in the thorough tier) of acquire (blocking or not), release and with-blocks in any order; other sessions hold any of the '
	'locks at each call; the connection may be closed at any point')
OUTSIDE = 'blocking acquisitions that fail (deadlock, timeout); how PostgreSQL executes the statements (read off their text)'
ASSUMPTIONS = ('the library statement applies the function it names to the identifiers in order',)
REACH = ('acquired', 'refused', 'released', 'partial', 'closed', 'not acquired', 'nested', 'with', 'statements')


class Sys:
	"""the statements of libsys.sql, by the functions they call"""
	def __init__(self, server):
		self.server = server

	def __getattr__(self, name):
		import os
		import postgresql
		path = os.path.join(os.path.dirname(postgresql.__file__), 'lib', 'libsys.sql')
		with open(path) as f:
			text = f.read()
		sections = re.split(r'^\[(.*?)\]\n', text, flags=re.M)
		sections = {k.split(':')[0]: v for k, v in zip(sections[1::2], sections[2::2])}
		sql = sections[name]
		fs = re.findall(r'pg_catalog\.(pg_\w*advisory\w*)\((.*)\)', sql)
		if len(fs) != 2 or [a.replace(' ', '') for f, a in fs] != ['($1::int4[])[i][1],$1[i][2]', '$2[i]'] or fs[0][0] != fs[1][0] \
				or 'CASE WHEN ($2::int8[])[i] IS NULL' not in sql:
			raise RuntimeError('harness: the statement %s is not understood' % name)
		return lambda pairs, ids: self.server.apply(fs[0][0], list(pairs), list(ids))


class Server:
	"""advisory locks of this session; others hold what the solver says"""
	closed = False

	def __init__(self, sx):
		self.sx, self.n = sx, 0
		self.held = []				# (shared, identifier), in order
		self.log = []
		self.sys = Sys(self)

	def available(self, shared, ident):
		self.n += 1
		return self.sx.choose('free%d' % self.n, 2)

	def apply(self, f, pairs, ids):
		sx = self.sx
		if self.closed:
			raise RuntimeError('harness: the connection is closed')
		sx.check(len(pairs) == len(ids), 'the identifiers are not paired')
		shared = f.endswith('_shared')
		base = f[:-7] if shared else f
		out = []
		for p, i in zip(pairs, ids):
			sx.check(len(p) == 2, 'a pair of identifiers has another size')
			if i is None:
				sx.check(p[0] is not None and p[1] is not None, 'an identifier is lost')
				ident = (p[0], p[1])
			else:
				sx.check(p[0] is None and p[1] is None, 'an identifier is given twice')
				ident = (i,)
			if base == 'pg_advisory_lock':
				self.held.append((shared, ident))
				out.append((None,))
			elif base == 'pg_try_advisory_lock':
				ok = bool(self.available(shared, ident))
				if ok:
					self.held.append((shared, ident))
				out.append((ok,))
			elif base == 'pg_advisory_unlock':
				for k, (s, x) in enumerate(self.held):
					if s == shared and sx.same(x, ident):
						del self.held[k]
						break
				else:
					sx.fail('a lock that is not held is released')
				out.append((True,))
			else:
				raise RuntimeError('harness: unknown function %r' % f)
		self.log.append(base)
		return out


def identifiers(sx, kinds, o=0):
	"""1: one number; 2: a pair; =: the first one again"""
	out = []
	for i, k in enumerate(kinds):
		if k == '1':
			out.append(sx.int('id%d.%d' % (o, i), -2 ** 63, 2 ** 63 - 1))
		elif k == '2':
			out.append((sx.int('id%d.%da' % (o, i), -2 ** 31, 2 ** 31 - 1), sx.int('id%d.%db' % (o, i), -2 ** 31, 2 ** 31 - 1)))
		else:
			out.append(out[0])
	return out


def entries(shared, ids):
	return [(shared, x if isinstance(x, tuple) else (x,)) for x in ids]


def holds(sx, S, want):
	"""exactly these locks are held"""
	have = list(S.held)
	sx.check(len(have) == len(want), 'other locks are held than acquired')
	for s, x in want:
		for k, (t, y) in enumerate(have):
			if s == t and sx.same(x, y):
				del have[k]
				break
		else:
			sx.fail('other locks are held than acquired')


def program(sx, kinds, n, shared=(0,), close=False):
	from postgresql import alock
	S = Server(sx)
	objs, ids, count = [], [], []
	for o, s in enumerate(shared):
		x = identifiers(sx, kinds, o)
		ids.append(x)
		objs.append((alock.ShareLock if s else alock.ExclusiveLock)(S, *x))
		count.append(0)
		sx.check(not objs[o].locked(), 'a lock is locked although it was never acquired')
	want = lambda: [e for o in range(len(objs)) if count[o] for e in entries(bool(shared[o]), ids[o])]
	for k in range(n):
		o = sx.choose('object%d' % k, len(objs)) if len(objs) > 1 else 0
		ops = ('acquire', 'try', 'release', 'with') + (('close',) if close else ())
		op = sx.choose('op%d' % k, ops)
		calls = len(S.log)
		lock = objs[o]
		if op == 'close':
			if S.closed:
				return
			S.closed = True
			S.held = []
			sx.reach('closed')
		elif op == 'release':
			try:
				lock.release()
			except RuntimeError:
				sx.reach('not acquired')
				sx.check(count[o] == 0, 'an acquired lock cannot be released')
				sx.check(len(S.log) == calls, 'a lock that is not acquired is released on the server')
			else:
				sx.check(count[o] > 0, 'a lock that is not acquired is released')
				count[o] -= 1
				sx.reach('released' if not count[o] else 'nested')
		elif S.closed and not count[o]:
			return
		elif op == 'with':
			try:
				with lock as l:
					sx.check(l is lock and lock.locked() == (not S.closed), 'the lock is not held inside the block')
					count[o] += 1
					if not S.closed:
						holds(sx, S, want())
					count[o] -= 1
					sx.reach('with')
					if sx.choose('raise%d' % k, 2):
						raise KeyError
			except KeyError:
				pass
		else:
			if op == 'acquire':
				ok = lock.acquire() if sx.choose('how%d' % k, 2) else lock.acquire(blocking=True)
			else:
				ok = lock.acquire(blocking=False)
			if ok:
				sx.reach('acquired')
				count[o] += 1
			else:
				sx.check(ok is False and op == 'try' and count[o] == 0, 'an acquisition fails without a reason')
				sx.reach('refused')
				if len(ids[o]) > 1 and len(S.log) > calls + 1:
					sx.reach('partial')
		if not S.closed:
			holds(sx, S, want())
		for i, l in enumerate(objs):
			sx.check(bool(l.locked()) == (count[i] > 0 and not S.closed), 'locked() does not tell whether the lock is held')
			sx.check(l.state == ('locked' if l.locked() else 'unlocked'), 'the state does not tell whether the lock is held')


def statements(sx):
	"""each kind of lock uses its own functions"""
	from postgresql import alock
	for cls, suffix in ((alock.ShareLock, '_shared'), (alock.ExclusiveLock, '')):
		got = []

		class D(Server):
			def apply(self, f, pairs, ids):
				got.append((f, pairs, ids))
				return [(True,)] * len(ids)
		l = cls(D(sx), 1, (2, 3), 4)
		pairs, ids = [[None, None], [2, 3], [None, None]], [1, None, 4]
		l.acquire()
		l.release()
		l.acquire(blocking=False)
		l.release()
		names = [f for f, p, i in got]
		sx.check(names == ['pg_advisory_lock' + suffix, 'pg_advisory_unlock' + suffix, 'pg_try_advisory_lock' + suffix,
			'pg_advisory_unlock' + suffix], 'another function is called')
		for f, p, i in got:
			if 'unlock' not in f:
				sx.check(([list(x) for x in p], i) == (pairs, ids), 'the locks are not acquired in the order given')
	sx.reach('statements')


def tasks(tier):
	P = lambda kinds, n, **k: dict(fn='program', params=dict(kinds=kinds, n=n, **k), weight=n)
	t = [dict(fn='statements', params={})]
	for kinds in ('1', '2', '12', '21', '11', '22', '1='):
		t += [P(kinds, 3, shared=(s,)) for s in (0, 1)]
	t += [P('12', 4), P('121', 3), P('212', 3, shared=(1,)), P('1', 4, close=True), P('12', 3, close=True), P('1', 3, shared=(0, 1)), P('2', 3, shared=(1, 0))]
	if tier == 'thorough':
		t += [P('12', 5), P('1212', 3), P('1', 6, close=True), P('12', 4, close=True), P('12', 3, shared=(0, 1)), P('1', 4, shared=(0, 0))]
	return t

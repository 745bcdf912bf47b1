"""P21: reading results."""
from .sqlserver import SQL, database

BOUNDS = ('results of 0 to 6 rows of 1 or 2 columns with contents of 1 byte, any of them NULL; chunks of 1 to 3 rows (the default of 4096 is replaced), for results read '
	'inside and outside of a transaction block; answers delivered in one piece or cut up to twice between any two messages; every interface; DB-API fetches: every sequence '
	'of 4 (5 in the thorough tier) of fetchone, iteration, fetchmany of 1 to 3 and fetchall; another request, or a second result being read, at any points; at most 1 '
	'error of the server at any row')
OUTSIDE = 'chunk sizes changed while a result is read; connection failures (P18); decoding of values (P07 to P12)'
ASSUMPTIONS = ('a server that was asked for k rows sends k, or fewer at the end of the result',)
REACH = ('rows', 'chunks', 'column', 'call', 'first', 'copy', 'null', 'empty', 'exact chunk', 'error', 'other request', 'two results', 'fetchone', 'fetchmany', 'fetchall',
	'iteration', 'end', 'again at the end', 'inside', 'outside')

Q, Q2, C = 'SELECT a', 'SELECT b', 'COPY a TO STDOUT'


class Sized:
	"""chunks of this size"""
	def __init__(self, n):
		self.n = n

	def __enter__(self):
		from postgresql.driver import pq3
		self.old = pq3.MultiXactStream.chunksize
		pq3.MultiXactStream.chunksize = self.n

	def __exit__(self, *exc):
		from postgresql.driver import pq3
		pq3.MultiXactStream.chunksize = self.old


def setup(sx, n, status, columns=1, nulls=False, cuts=0, errors=0, m=0):
	from postgresql.protocol import element3 as e
	rows = []
	for i in range(n):
		r = []
		for c in range(columns):
			if nulls and sx.choose('null%d%d' % (i, c), 2):
				r.append(None)
				sx.reach('null')
			else:
				r.append(sx.bytes('v%d%d' % (i, c), 1))
		rows.append(r)
	others = [[b'o%d' % i] for i in range(m)]
	server = SQL(sx, e, {Q.encode(): rows, Q2.encode(): others}, status=status.encode(), errors=errors, cuts=cuts, columns=columns)
	server.copies[C.encode()] = [sx.bytes('line%d' % i, 1) for i in range(n)]
	sx.reach('inside' if status == 'T' else 'outside')
	if not n:
		sx.reach('empty')
	return server, database(sx, server), rows, others


def reader(stmt, how):
	"""an iterator over the rows"""
	if how == 'rows':
		return iter(stmt.rows())
	if how == 'iter':
		return iter(stmt)
	if how == 'column':
		return iter(stmt.column())
	return iter([x for c in [stmt()] for x in c])


def plain(how, x):
	return x if how == 'column' or isinstance(x, bytes) else list(x)


def reading(sx, how, n, size=2, status='I', columns=1, nulls=False, cuts=0, errors=0, other=False):
	import postgresql.exceptions as X
	with Sized(size):
		server, db, rows, _ = setup(sx, n, status, columns, nulls, cuts, errors)
		q = C if how in ('copy', 'copychunks') else Q
		want = server.copies[C.encode()] if q == C else [r[0] for r in rows] if how == 'column' else rows
		kind = {'iter': 'rows', 'copychunks': 'chunks', 'copy': 'rows'}.get(how, how)
		if n and n % size == 0:
			sx.reach('exact chunk')
		got, failed, calls = [], False, 0
		if errors and how == 'call':
			sx.reach('error')
		try:
			stmt = db.prepare(q)
			if kind == 'call':
				got = [plain(how, x) for x in stmt()]
			elif kind == 'first':
				x = stmt.first()
				if not n:
					sx.check(x is None, 'the first row of nothing')
				elif columns == 1:
					sx.check(sx.same(x, want[0][0]), 'the first row is not the first')
				else:
					sx.check(sx.same(list(x), want[0]), 'the first row is not the first')
				sx.reach('first')
				got = None
			else:
				it = stmt.chunks() if kind == 'chunks' else reader(stmt, kind)
				while True:
					if other and sx.choose('other%d' % calls, 2):
						try:
							db.execute('SET x')
						except X.Error:
							failed = True
						sx.reach('other request')
					calls += 1
					if calls > 2 * n + 4:
						sx.check(False, 'does not come to an end')
					try:
						x = next(it)
					except StopIteration:
						break
					if kind == 'chunks':
						if how == 'chunks':
							sx.check(len(x) <= size, 'a chunk is too long')
						got.extend([plain(how, y) for y in x])
					else:
						got.append(plain(how, x))
				sx.check(not failed, 'a result that failed ends as if it were complete')
				for i in range(2):
					try:
						next(it)
						sx.check(False, 'goes on after the end')
					except StopIteration:
						sx.reach('again at the end')
		except X.Error as err:
			failed = True
			sx.check(server.failed > 0, 'an error out of nothing')
		if server.failed:
			sx.check(failed, 'an error is not reported')
			sx.reach('error')
			if got is not None:
				sx.check(len(got) < len(want) + 1 and sx.same(got, want[:len(got)]), 'the rows before the error are not those of the result')
			if server.status == b'E':
				return
		else:
			if got is not None:
				sx.check(len(got) == len(want) and sx.same(got, want), 'the rows read are not those of the result')
			sx.reach({'copy': 'copy', 'copychunks': 'copy'}.get(how, kind))
		# and the connection goes on
		sx.check([list(x) for x in db.prepare(Q2)()] == [], 'the next request does not get its answer')


def fetching(sx, n, size=2, status='I', ops=3, cuts=0):
	from postgresql.driver import dbapi20
	with Sized(size):
		server, db, rows, _ = setup(sx, n, status, cuts=cuts)
		c = dbapi20.Cursor(db)
		c.execute(Q)
		c.arraysize = sx.choose('arraysize', (1, 2))
		at = 0
		for i in range(ops):
			k = sx.choose('op%d' % i, ('fetchone', 'iteration', 'fetchmany', 'fetchall'))
			sx.reach(k)
			if k == 'fetchone':
				r = c.fetchone()
				got, want = [] if r is None else [list(r)], rows[at:at + 1]
			elif k == 'iteration':
				try:
					got = [list(next(c))]
				except StopIteration:
					got = []
				want = rows[at:at + 1]
			elif k == 'fetchmany':
				m = sx.choose('many%d' % i, (None, 1, 2, 3))
				got = [list(x) for x in (c.fetchmany() if m is None else c.fetchmany(m))]
				want = rows[at:at + (m or c.arraysize)]
			else:
				got = [list(x) for x in c.fetchall()]
				want = rows[at:]
			sx.check(len(got) == len(want) and sx.same(got, want), 'the rows fetched are not the next ones')
			at += len(got)
		if at == n:
			sx.reach('end')
			sx.check(c.fetchone() is None and c.fetchall() == [], 'goes on after the end')


def two(sx, how, n, m, size=2, status='I', steps=6):
	"""two results at a time"""
	with Sized(size):
		server, db, rows, others = setup(sx, n, status, m=m)
		a, b = db.prepare(Q), db.prepare(Q2)
		its = [reader(a, how), reader(b, how)]
		want = [[r[0] for r in rs] if how == 'column' else rs for rs in (rows, others)]
		got = [[], []]
		for i in range(steps):
			k = sx.choose('which%d' % i, 2)
			try:
				got[k].append(plain(how, next(its[k])))
			except StopIteration:
				sx.check(len(got[k]) == len(want[k]), 'a result ends too soon')
		for k in range(2):
			got[k] += [plain(how, x) for x in its[k]]
		sx.check(sx.all(*[len(g) == len(w) and sx.same(g, w) for g, w in zip(got, want)]), 'two results are mixed up')
		sx.reach('two results')


def tasks(tier):
	R = lambda how, n, **k: dict(fn='reading', params=dict(how=how, n=n, **k), weight=2)
	t = []
	for status in ('I', 'T'):
		for n in range(6):
			for size in (1, 2, 3):
				t.append(R('rows', n, size=size, status=status))
		t += [R(h, n, status=status, cuts=1) for h in ('chunks', 'column', 'call', 'first', 'iter', 'copy', 'copychunks') for n in (0, 1, 2, 3)]
		t += [R(h, 3, status=status, errors=1) for h in ('rows', 'chunks', 'column', 'call', 'first')]
		t += [R(h, 2, status=status, nulls=True, columns=2, cuts=1) for h in ('rows', 'call', 'first')] + [R('column', 3, nulls=True, status=status), R('first', 2, nulls=True, status=status)]
		t += [R(h, 3, status=status, errors=1, other=True) for h in ('rows', 'copy')] + [R('chunks', 4, status=status, other=True, errors=1)]
		t += [dict(fn='fetching', params=dict(n=n, size=s, status=status), weight=4) for n in (0, 2, 3, 4) for s in (1, 2, 3)]
		t += [dict(fn='two', params=dict(how=h, n=3, m=2, status=status), weight=3) for h in ('rows', 'column')]
	for status in ('I', 'T'):
		t += [dict(fn='fetching', params=dict(n=n, size=s, status=status, ops=4), weight=9) for n in (3, 5) for s in (2, 3)]
		t += [R(h, n, status=status, cuts=2, size=3) for h in ('rows', 'chunks', 'column', 'call', 'copy') for n in (4, 5, 6)]
		t += [R(h, 5, status=status, errors=1, other=True) for h in ('rows', 'chunks', 'copy')]
		t += [dict(fn='two', params=dict(how=h, n=4, m=3, status=status, steps=7), weight=6) for h in ('rows', 'column', 'iter')]
	if tier == 'thorough':
		for status in ('I', 'T'):
			t += [dict(fn='fetching', params=dict(n=n, size=s, status=status, ops=5), weight=9) for n in (5, 7) for s in (2, 3)]
			t += [R(h, n, status=status, cuts=3, size=3) for h in ('rows', 'chunks', 'column', 'call', 'copy') for n in (7, 8, 9)]
			t += [R(h, 7, status=status, errors=1, other=True) for h in ('rows', 'chunks', 'copy')]
			t += [dict(fn='two', params=dict(how=h, n=5, m=4, status=status, steps=9), weight=6) for h in ('rows', 'column', 'iter')]
	return t

"""P22: movements of scrollable cursors."""
from .sqlserver import SQL, Portal, database

BOUNDS = ('results of 0 to 4 rows (5 in the thorough tier) with any contents of 1 byte; sequences of 2 operations, and of 3 with 1 row (with 1 and 2 rows): read of any '
	'quantity up to 6, all or one by iteration, in the default or a given direction, seek by any offset from -6 to 6 (0 to 6 where it is counted from an end of '
	'the result) and ALL, from every whence in every spelling, a change of direction; quantities and offsets up to 1 (2 more than the rows) in sequences of 3')
OUTSIDE = 'negative offsets from the beginning or the end, which have no meaning there; results that change between two operations; the return value of seek'
ASSUMPTIONS = ('MOVE and FETCH act as PostgreSQL documents them (the model was compared with PostgreSQL 16)',)
REACH = ('read', 'read all', 'next', 'exhausted', 'absolute', 'relative', 'from end', 'forward', 'backward', 'all', 'turned', 'given direction', 'outside')

Q = 'SELECT a'


def turned(rows, p, forward):
	"""the result as a cursor of this direction sees it: a portal over its rows in its order, at its position"""
	v = Portal(rows if forward else rows[::-1], True)
	v.pos = p.pos if forward else len(rows) + 1 - p.pos
	return v


def moves(sx, n, ops=3, from_id=False, kinds='rns', most=6):
	from postgresql.protocol import element3 as e
	rows = [[sx.bytes('row%d' % i, 1)] for i in range(n)]
	server = SQL(sx, e, {Q.encode(): rows})
	db = database(sx, server)
	if from_id:
		server.portals[b'c'] = Portal(rows, True)
		c = db.cursor_from_id('c')
	else:
		c = db.prepare(Q).declare()
	sx.check(len(server.portals) == 1, 'the cursor is not declared')
	real = list(server.portals.values())[0]
	want = Portal(rows, True)
	forward = True
	for i in range(ops):
		op = sx.choose('op%d' % i, kinds + ('t' if i + 1 < ops else ''))
		if op == 't':
			how = sx.choose('turn%d' % i, (False, 'BACKWARD', True, 'FORWARD') if ops < 3 else ('BACKWARD', 'FORWARD'))
			c.direction = how
			forward = how in (True, 'FORWARD')
			sx.reach('turned')
			continue
		v = turned(rows, want, forward)
		if op == 'r':
			k = sx.choose('all%d' % i, 2)
			if k:
				q = None
				sx.reach('read all')
			else:
				q = sx.int('quantity%d' % i, 0, most)
				sx.reach('read')
			d = sx.choose('direction%d' % i, (None, 'FORWARD', 'BACKWARD', True, False) if ops < 3 else (None, 'BACKWARD'))
			got = c.read(q, d) if d is not None else c.read(q) if q is not None else c.read()
			if d is not None:
				sx.reach('given direction')
			if q is not None and q == 0:
				exp = []
			else:
				exp = v.move(d in (None, 'FORWARD', True), q)
			sx.check(sx.same([list(x) for x in got], exp), 'the rows read are not those of the position')
		elif op == 'n':
			exp = v.move(True, 1)
			try:
				got = [list(next(c))]
				sx.reach('next')
			except StopIteration:
				got = []
				sx.reach('exhausted')
			sx.check(sx.same(got, exp), 'the next row is not the one of the position')
		else:
			w = sx.choose('whence%d' % i, ('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD'))
			s = sx.choose('spelled%d' % i, 3) if i == 0 and ops < 3 else 0
			spelled = w if s == 0 else ('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD').index(w) if s == 1 else w.lower()
			if w in ('FORWARD', 'BACKWARD') and sx.choose('all%d' % i, 2):
				c.seek('ALL', spelled)
				v.move(w == 'FORWARD', None)
				sx.reach('all')
			else:
				k = sx.int('offset%d' % i, 0 if w in ('ABSOLUTE', 'FROM_END') else -most, most)
				if w == 'ABSOLUTE' and s == 0 and i == 0:
					c.seek(k)
				else:
					c.seek(k, spelled)
				sx.reach({'ABSOLUTE': 'absolute', 'RELATIVE': 'relative', 'FROM_END': 'from end', 'FORWARD': 'forward', 'BACKWARD': 'backward'}[w])
				if w == 'ABSOLUTE':
					v.absolute(k)
				elif w == 'RELATIVE':
					v.relative(k)
				elif w == 'FROM_END':
					v.pos = n + 1
					v.move(False, k)
				else:
					v.move(w == 'FORWARD', k)
		want.pos = v.pos if forward else n + 1 - v.pos
		sx.check(real.pos == want.pos, 'the cursor is not where the operation puts it')
		if not 1 <= want.pos <= n:
			sx.reach('outside')
	sx.check(server.failed == 0, 'a command is wrong')


def tasks(tier):
	M = lambda n, **k: dict(fn='moves', params=dict(n=n, **k), weight=3)
	t = [M(n, ops=2) for n in (0, 1, 2, 3, 4)] + [M(1, ops=3, most=1), M(1, ops=2, from_id=True)]
	if tier == 'thorough':
		t += [M(n, ops=3, most=n + 2, kinds=k) for n in (1, 2) for k in ('rs', 'rn', 'ns')] + [M(0, ops=3, most=2), M(3, ops=2, most=9), M(5, ops=2, most=7)]
	return t

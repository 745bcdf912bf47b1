"""
A server with prepared statements, portals and SQL cursors over results that
are given, written from the documentation of PostgreSQL (FETCH, MOVE, DECLARE,
the extended query protocol), and a driver connection that talks to it.
"""
from .server import connection as wire


class Failed(Exception):
	def __init__(self, code):
		self.code = code


class Portal:
	def __init__(self, rows, held, utility=None, copy=False):
		self.rows, self.held, self.utility, self.copy = rows, held, utility, copy
		self.pos = 0

	def move(self, forward, k):
		"""FETCH FORWARD or BACKWARD k (None: ALL) -> rows"""
		n = len(self.rows)
		if k is not None and k < 0:
			forward, k = not forward, -k
		if k is not None and k == 0:
			return [self.rows[self.pos - 1]] if 1 <= self.pos <= n else []
		out = []
		while True:
			if forward:
				if self.pos <= n:
					self.pos += 1
			elif self.pos > 0:
				self.pos -= 1
			if not 1 <= self.pos <= n:
				break
			out.append(self.rows[self.pos - 1])
			if k is not None:
				k -= 1
				if k == 0:
					break
		return out

	def absolute(self, k):
		n = len(self.rows)
		if k < 0:
			k = n + 1 + k
			if k < 0:
				k = 0
		if k > n:
			k = n + 1
		self.pos = int(k)
		return [self.rows[self.pos - 1]] if 1 <= self.pos <= n else []

	def relative(self, k):
		n = len(self.rows)
		p = self.pos + k
		self.pos = 0 if p < 0 else n + 1 if p > n else int(p)
		return [self.rows[self.pos - 1]] if 1 <= self.pos <= n else []


class SQL:
	"""
	results: query text -> list of rows, each a list of bytes or None
	errors: how many errors it may report while rows are fetched
	"""
	def __init__(self, sx, e, results, status=b'I', errors=0, cuts=0, type=17, columns=1):
		self.sx, self.e, self.results, self.status = sx, e, results, status
		self.errors, self.cuts, self.type, self.columns = errors, cuts, type, columns
		self.n = 0
		self.out = []
		self.skip = False
		self.statements = {}
		self.portals = {}
		self.closes = []		# (kind, name, whether it existed)
		self.executed = []
		self.failed = 0
		self.copies = {}

	def choose(self, what, options):
		self.n += 1
		return self.sx.choose('%s%d' % (what, self.n), options)

	def put(self, t, body):
		self.out.append((t, body))

	def receive(self, messages):
		for m in messages:
			if m is self.e.SynchronizeMessage:
				self.skip = False
				if self.status == b'I':
					self.portals = {k: p for k, p in self.portals.items() if p.held}
				self.put(b'Z', self.status)
			elif m.type == b'Q':
				self.simple(m)
			elif not self.skip:
				try:
					self.command(m)
				except Failed as f:
					self.fail(f.code)
					self.skip = True

	def fail(self, code):
		self.failed += 1
		if self.status == b'T':
			self.status = b'E'
			self.portals = {k: p for k, p in self.portals.items() if p.held}
		self.put(b'E', b'SERROR\0C' + code + b'\0Mfailed\0\0')

	def simple(self, m):
		self.executed.append(m.bytes()[5:-1])
		self.put(b'C', b'SET\0')
		self.put(b'Z', self.status)

	def descriptor(self):
		d = self.columns.to_bytes(2, 'big')
		for i in range(self.columns):
			d += b'abcd'[i:i + 1] + b'\0' + b'\0' * 6 + self.type.to_bytes(4, 'big') + b'\xff' * 6 + b'\0\1'
		return d

	def command(self, m):
		t = m.type
		e = self.e
		if self.status == b'E' and t not in (b'C', b'D'):
			raise Failed(b'25P02')
		if t == b'P':
			self.statements[m.name] = m.statement
			self.put(b'1', b'')
		elif t == b'D':
			kind, name = m.bytes()[5:6], m.bytes()[6:-1]
			if kind == b'S':
				if name not in self.statements:
					raise Failed(b'26000')
				self.put(b't', b'\0\0')
				q = self.statements[name]
				if q in self.results:
					self.put(b'T', self.descriptor())
				else:
					self.put(b'n', b'')
			else:
				if name not in self.portals:
					raise Failed(b'34000')
				self.put(b'T', self.descriptor())
		elif t == b'B':
			if m.statement not in self.statements:
				raise Failed(b'26000')
			if m.name and m.name in self.portals:
				raise Failed(b'42P03')
			q = self.statements[m.statement]
			if q in self.results:
				self.portals[m.name] = Portal(self.results[q], False)
			elif q in self.copies:
				self.portals[m.name] = Portal(self.copies[q], False, copy=True)
			else:
				self.portals[m.name] = Portal((), False, q)
			self.put(b'2', b'')
		elif t == b'E':
			if m.name not in self.portals:
				raise Failed(b'34000')
			p = self.portals[m.name]
			if p.utility is not None:
				self.utility(p.utility)
			elif p.copy:
				self.put(b'H', b'\0\0\0')
				for r in p.rows:
					self.put(b'd', r)
				self.put(b'c', b'')
				self.put(b'C', b'COPY %d\0' % len(p.rows))
			else:
				k = m.max
				if k == 0 or k > 0x7fffffff:
					k = None
				rows = p.move(True, k)
				self.rows(rows)
				if k is not None and len(rows) == k:
					self.put(b's', b'')
				else:
					self.put(b'C', b'SELECT %d\0' % len(rows))
		elif t == b'C':
			kind, name = m.bytes()[5:6], m.bytes()[6:-1]
			where = self.statements if kind == b'S' else self.portals
			self.closes.append((kind, name, name in where))
			where.pop(name, None)
			self.put(b'3', b'')
		else:
			raise RuntimeError('harness: unexpected message %r' % t)

	def rows(self, rows):
		for r in rows:
			if self.errors and self.choose('error', 2):
				self.errors -= 1
				raise Failed(b'22012')
			b = len(r).to_bytes(2, 'big')
			for c in r:
				b += b'\xff\xff\xff\xff' if c is None else len(c).to_bytes(4, 'big') + c
			self.put(b'D', b)

	def utility(self, q):
		q = q.decode('utf-8')
		w = q.split()
		self.executed.append(q)
		if w[0] == 'DECLARE':
			name = unquote(w[1])
			i = q.index(' FOR ')
			held = 'HOLD' in w
			if not held and self.status == b'I':
				raise Failed(b'25P01')
			if name in self.portals:
				raise Failed(b'42P03')
			self.portals[name] = Portal(self.results[q[i + 5:].encode('utf-8')], held)
			self.put(b'C', b'DECLARE CURSOR\0')
			return
		if w[0] not in ('FETCH', 'MOVE'):
			self.put(b'C', b'SET\0')
			return
		name = unquote(w[-1])
		if name not in self.portals:
			raise Failed(b'34000')
		p = self.portals[name]
		w = [w[0]] + [x for x in w[1:-1] if x not in ('IN', 'FROM')]
		rows = self.moved(p, w[1:])
		if w[0] == 'FETCH':
			self.rows(rows)
			self.put(b'C', b'FETCH %d\0' % len(rows))
		else:
			self.put(b'C', b'MOVE %d\0' % len(rows))

	def moved(self, p, w):
		if not w:
			w = ['NEXT']
		k = w[0]
		if len(w) == 1 and k in ('NEXT', 'FORWARD'):
			return p.move(True, 1)
		if len(w) == 1 and k in ('PRIOR', 'BACKWARD'):
			return p.move(False, 1)
		if k == 'FIRST' and len(w) == 1:
			return p.absolute(1)
		if k == 'LAST' and len(w) == 1:
			return p.absolute(-1)
		if k == 'ABSOLUTE' and len(w) == 2:
			return p.absolute(int(w[1]))
		if k == 'RELATIVE' and len(w) == 2:
			return p.relative(int(w[1]))
		if k in ('FORWARD', 'BACKWARD') and len(w) == 2:
			return p.move(k == 'FORWARD', None if w[1] == 'ALL' else int(w[1]))
		if len(w) == 1:
			return p.move(True, None if k == 'ALL' else int(k))
		raise Failed(b'42601')


def unquote(s):
	return (s[1:-1].replace('""', '"') if s[:1] == '"' else s).encode('utf-8')


def database(sx, server, status=None):
	from postgresql.driver import pq3
	from postgresql.protocol import client3

	class Connector(pq3.SocketConnector):
		def socket_factory_sequence(self):
			return ()

	connector = Connector(user='u', driver=pq3.Driver())
	db = pq3.Connection(connector)
	db.typio.set_encoding('utf-8')
	db.pq = wire(sx, server, client3)
	db.pq.socket = None
	db.pq.state = server.status
	db.version_info = (16, 1, 0, 'final', 0)
	return db

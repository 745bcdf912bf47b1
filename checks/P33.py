"""P33: COPY transfers."""
from .sqlserver import SQL, Failed

BOUNDS = ('0 to 3 rows of up to 3 bytes, from a statement or an iterator, to 1 or 2 receivers (statements, callables, none); answers of the source cut at up to 2 places, '
	'anywhere in the stream of bytes, buffers of any size of 1 to 16 bytes for what is received; sends of a receiver that take only a part, at 1 place; one failure: a '
	'receiver whose socket fails (after any number of bytes; given up or taken in again), a server that reports an error (source at any row, receiver at any row), a '
	'source whose socket fails or ends, a transfer given up after any step by an exception or a break; a cancel request that comes in time or too late; notices '
	'between rows')
OUTSIDE = 'formats of the rows; receivers of other classes; failures of two parties at once; transfers inside a transaction block; BaseExceptions that are not Exceptions'
ASSUMPTIONS = ('a cancelled COPY ends with an error after a whole message', 'the answers to a COPY FROM STDIN are sent when it ends')
REACH = ('rows', 'statement', 'iterator', 'call', 'two receivers', 'cut', 'small buffer', 'partial send', 'receiver failed', 'taken in again', 'source error', 'receiver error',
	'source failed', 'source ended', 'given up', 'broken off', 'cancelled', 'cancelled too late', 'notice', 'no rows', 'realigned')

OUT, IN = 'COPY a TO STDOUT', 'COPY b FROM STDIN'
NOTICE = b'SNOTICE\0C00000\0Mnote\0\0'


class Broken(Exception):
	"""a socket failed"""


class GivenUp(Exception):
	"""of the program"""


class Message:
	def __init__(self, t, body):
		self.type, self.body = t, body
		f = body.split(b'\0')
		if t == b'P':
			self.name, self.statement = f[0], f[1]
		elif t == b'B':
			self.name, self.statement = f[0], f[1]
		elif t == b'E':
			self.name, self.max = f[0], int.from_bytes(body[-4:], 'big')

	def bytes(self):
		return self.type + (len(self.body) + 4).to_bytes(4, 'big') + self.body


class Server(SQL):
	"""and the socket to it"""
	def __init__(self, sx, e, who, rows=(), notices=0, error=None):
		super().__init__(sx, e, {})
		self.who, self.error, self.notices = who, error, notices
		self.copies[OUT.encode()] = rows
		self.loading = None
		self.loaded = None
		self.input = b''
		self.pending = b''
		self.left = 0			# of the message that is being read
		self.recvs = self.sends = 0
		self.cut = self.short = 0
		self.fail_send = self.fail_recv = None
		self.buffer = None
		self.cancelled = False
		self.answered = 0
		self.begun = False

	def choose(self, what, options):
		self.n += 1
		return self.sx.choose('%s%s%d' % (self.who, what, self.n), options)

	# as a server
	def receive(self, messages):
		rest = []
		for m in messages:
			if self.loading is not None:
				self.load(m)
			else:
				super().receive([self.e.SynchronizeMessage if m.type == b'S' else m])
		while self.out:
			t, body = self.out.pop(0)
			self.pending += t + (len(body) + 4).to_bytes(4, 'big') + body

	def load(self, m):
		if m.type == b'd':
			if self.error is not None and len(self.loading) == self.error:
				self.loading = None
				self.fail(b'22P04')
				self.skip = True
			else:
				self.loading.append(m.body)
		elif m.type == b'c':
			self.loaded = self.loading
			self.loading = None
			self.put(b'C', b'COPY %d\0' % len(self.loaded))
		elif m.type == b'f':
			self.loading = None
			self.fail(b'57014')
			self.skip = True
		else:
			self.sx.check(m.type in (b'S', b'H'), 'something else than COPY data is sent')

	def command(self, m):
		if m.type == b'B' and self.statements.get(m.statement) == IN.encode():
			self.put(b'2', b'')
		elif m.type == b'E' and self.begun is False and IN.encode() in self.statements.values():
			self.put(b'G', b'\0\0\0')
			self.loading = []
			self.begun = True
		elif m.type in b'cdf':
			# what comes after an error
			pass
		elif m.type == b'E' and self.portals[m.name].copy and (self.error is not None or self.notices):
			self.put(b'H', b'\0\0\0')
			for i, r in enumerate(self.portals[m.name].rows):
				if self.error == i:
					raise Failed(b'22012')
				if self.notices and self.choose('notice', 2):
					self.notices -= 1
					self.put(b'N', NOTICE)
					self.sx.reach('notice')
				self.put(b'd', r)
			if self.error is not None:
				raise Failed(b'22012')
			self.put(b'c', b'')
			self.put(b'C', b'COPY 9\0')
		else:
			super().command(m)

	def fail(self, code):
		super().fail(code)

	def cancel(self):
		self.cancelled = True
		if self.choose('late', 2):
			self.sx.reach('cancelled too late')
			return
		rest, b = self.pending[self.left:], b''
		out = []
		while rest:
			n = int.from_bytes(rest[1:5], 'big') + 1
			out.append(rest[:n])
			rest = rest[n:]
		if not any(m[:1] == b'C' for m in out):
			self.sx.reach('cancelled too late')
			return
		self.sx.reach('cancelled')
		f = b'SERROR\0C57014\0Mcancelled\0\0'
		self.pending = self.pending[:self.left] + b'E' + (len(f) + 4).to_bytes(4, 'big') + f + out[-1]

	# as a socket
	def take(self, n):
		self.recvs += 1
		if self.fail_recv is not None and self.recvs > self.fail_recv[0]:
			if self.fail_recv[1]:
				raise Broken()
			return b''
		self.sx.check(len(self.pending) > 0, 'waits for an answer that does not come')
		n = min(n, len(self.pending))
		if n > 1 and self.cut:
			self.cut -= 1
			k = self.choose('cut', n)
			if k:
				n = k
				self.sx.reach('cut')
		r, self.pending = self.pending[:n], self.pending[n:]
		# how much of a message is still to come
		while n:
			if self.left == 0:
				self.left = int.from_bytes((r + self.pending)[len(r) - n:][1:5], 'big') + 1
			k = min(self.left, n)
			self.left -= k
			n -= k
		return r

	def recv(self, n):
		return self.take(n)

	def recv_into(self, buffer, n):
		r = self.take(n)
		buffer[:len(r)] = r
		return len(r)

	def send(self, data):
		data = bytes(data)
		self.sends += 1
		if self.fail_send is not None and self.loading is not None and self.begun:
			self.fail_send -= 1
			if self.fail_send == -1:
				k = self.choose('sent', len(data))
				if k:
					self.accept(data[:k])
					return k
				self.fail_send = -2
			if self.fail_send <= -2:
				self.fail_send = None
				self.sx.reach('receiver failed')
				raise Broken()
		if self.short and self.begun and len(data) > 1:
			k = self.choose('short', len(data))
			if k:
				self.short -= 1
				self.sx.reach('partial send')
				data = data[:k]
		self.accept(data)
		return len(data)

	def accept(self, data):
		self.input += data
		got = []
		while len(self.input) >= 5:
			n = int.from_bytes(self.input[1:5], 'big') + 1
			if len(self.input) < n:
				break
			got.append(Message(self.input[:1], self.input[5:n]))
			self.input = self.input[n:]
		self.receive(got)

	def close(self):
		pass


def connect(sx, server):
	from postgresql.driver import pq3
	from postgresql.protocol import client3

	class Cancel:
		def sendall(self, data):
			server.cancel()

		def close(self):
			pass

	class Factory:
		class fatal_exception(Exception):
			pass
		class try_again_exception(Exception):
			pass
		class timeout_exception(Exception):
			pass

		def __call__(self, timeout=None):
			return Cancel()

		def try_again(self, e):
			return False

		def fatal_exception_message(self, e):
			return None

	class Connector(pq3.SocketConnector):
		def socket_factory_sequence(self):
			return ()

	db = pq3.Connection(Connector(user='u', driver=pq3.Driver()))
	db.typio.set_encoding('utf-8')
	c = client3.Connection(Factory(), ())
	c.xact = None
	c.socket = server
	c.backend_id, c.key = 1, 2
	c.state = server.status
	db.pq = c
	db.version_info = (16, 1, 0, 'final', 0)
	# notices are not printed
	db.msghook = lambda m: True
	return db


LENGTHS = (2, 3, 0)


def parties(sx, source, receivers, n, buffer=None, recvsize=None, cuts=0, short=0, notices=0, error=None, rerror=None):
	from postgresql.protocol import element3 as e
	from postgresql import copyman
	rows = [bytes([97 + i]) * LENGTHS[i] for i in range(n)]
	servers, rs, got = [], [], []
	if source == 'statement':
		p = Server(sx, e, 'p', rows, notices, error)
		db = connect(sx, p)
		s = db.prepare(OUT)
		p.cut = cuts
		if recvsize:
			db.pq.recvsize = recvsize
			sx.reach('small buffer')
		producer = copyman.StatementProducer(s, buffer_size=buffer or 100)
		servers.append((p, db))
		sx.reach('statement')
	else:
		k = sx.choose('chunks', (0, 1, 2))
		chunks = [rows] if k == 0 else [[r] for r in rows] if k == 1 else [rows[:1], [], rows[1:]]
		producer = copyman.IteratorProducer(chunks)
		servers.append((None, None))
		sx.reach('iterator')
	for i, r in enumerate(receivers):
		if r == 'statement':
			q = Server(sx, e, 'r%d' % i, error=rerror if i == 0 else None)
			db = connect(sx, q)
			rs.append(copyman.StatementReceiver(db.prepare(IN)))
			if i == 0:
				q.short = short
			servers.append((q, db))
			got.append(q)
		elif r == 'call':
			l = []
			rs.append(copyman.CallReceiver(l.extend))
			got.append(l)
			servers.append((None, None))
			sx.reach('call')
		else:
			rs.append(copyman.NullReceiver())
			got.append(None)
			servers.append((None, None))
	if len(receivers) > 1:
		sx.reach('two receivers')
	if not n:
		sx.reach('no rows')
	return rows, producer, rs, got, servers


def complete(sx, rows, producer, r, got):
	if got is None:
		return
	if isinstance(got, list):
		sx.check(got == rows, 'the rows received are not those sent')
	else:
		sx.check(got.loaded == rows, 'the rows received are not those sent')
		sx.check(r.count() == len(rows), 'another number of rows')
	sx.reach('rows')


def usable(sx, server, db):
	"""the next request gets its answer"""
	if server is None:
		return
	server.fail_recv = server.fail_send = None
	server.cut = 0
	db.pq.recvsize = 8192
	k = len(server.executed)
	db.execute('SET x')
	sx.check(len(server.executed) == k + 1, 'a request after the transfer is not carried out')
	db.execute('SET x')
	sx.check(len(server.executed) == k + 2 and not server.pending and not server.input, 'the answers after the transfer are not in step')


def transfer(sx, source, receivers, n, **k):
	"""nothing fails"""
	from postgresql import copyman
	if k.get('buffer') == 'any':
		k['buffer'] = sx.choose('buffer', 16) + 1
	if k.get('recvsize') == 'any':
		k['recvsize'] = sx.choose('recvsize', 16) + 1
	rows, producer, rs, got, servers = parties(sx, source, receivers, n, **k)
	cm = copyman.CopyManager(producer, *rs)
	if sx.choose('how', 2):
		cm.run()
	else:
		m = b = 0
		with cm as copy:
			for x, y in copy:
				m += x
				b += y
		sx.check(m == n, 'the progress is different')
	for r, g in zip(rs, got):
		complete(sx, rows, producer, r, g)
	if receivers:
		sx.check(producer.total_messages == n, 'another number of rows')
	for s in servers:
		usable(sx, *s)


def failing(sx, source, receivers, n, what, **k):
	"""one failure"""
	import postgresql.exceptions as X
	from postgresql import copyman
	if what == 'source error':
		k['error'] = sx.choose('error', n + 1)
		sx.reach('source error')
	if what == 'receiver error':
		k['rerror'] = sx.choose('rerror', n)
		sx.reach('receiver error')
	if k.get('buffer') == 'any':
		k['buffer'] = sx.choose('buffer', 16) + 1
	rows, producer, rs, got, servers = parties(sx, source, receivers, n, **k)
	again = False
	if what == 'receiver':
		got[0].fail_send = sx.choose('at', n + 1)
		again = sx.choose('again', 2)
	if what in ('source failed', 'source ended'):
		p = servers[0][0]
		p.fail_recv = (p.recvs + sx.choose('at', 5), what == 'source failed')
	steps = None
	if what in ('given up', 'broken off'):
		steps = sx.choose('steps', 2 * n + 2)
	cm = copyman.CopyManager(producer, *rs)
	faulted = set()
	done = begun = False
	fail = None
	try:
		with cm as copy:
			begun = True
			while copy.receivers:
				try:
					if steps == 0:
						raise GivenUp()
					for x in copy:
						if steps is not None:
							steps -= 1
							if steps <= 0:
								raise GivenUp()
					done = True
					break
				except copyman.ReceiverFault as f:
					sx.check(f.manager is cm and set(f.faults) == {rs[0]} and type(f.faults[rs[0]]) is Broken, 'the failed receiver is not reported')
					sx.check(rs[0] not in copy.receivers, 'the failed receiver still takes part')
					if again:
						copy.reconcile(rs[0])
						sx.reach('taken in again')
					else:
						faulted.add(rs[0])
				except GivenUp:
					if what == 'given up':
						raise
					break
	except copyman.CopyFail as f:
		fail = f
		sx.check(f.manager is cm, 'another transfer')
	except copyman.ProducerFault as f:
		sx.check(False, 'the failure is not reported as a failed transfer')
	except (X.Error, Broken) as f:
		# before anything was sent
		sx.check(not begun and what in ('source error', 'source failed', 'source ended'), 'another exception')
		fail = f
	if what == 'source error':
		sx.check(not done and fail is not None, 'a failed transfer looks complete')
	elif what == 'receiver error':
		sx.check(fail is not None and set(fail.receiver_faults) == {rs[0]}, 'the receiver that failed is not reported')
		sx.check(isinstance(fail.receiver_faults[rs[0]], X.Error), 'the error of the receiver is not reported')
	elif what in ('given up', 'broken off'):
		sx.check(done or fail is not None, 'a transfer that was given up looks complete')
		if not done:
			sx.reach(what)
	elif what == 'receiver':
		if done and fail is not None:
			# at the end
			sx.check(set(fail.receiver_faults) == {rs[0]}, 'the failed receiver is not reported')
			faulted.add(rs[0])
		else:
			sx.check((fail is not None) == (not done), 'a transfer without receivers is reported as something else')
	else:
		sx.check(done or fail is not None, 'a failed transfer looks complete')
		if not done:
			sx.reach(what)
	for i, (r, g) in enumerate(zip(rs, got)):
		if r in faulted or g is None:
			continue
		if done and not (what == 'receiver error' and i == 0):
			complete(sx, rows, producer, r, g)
		elif isinstance(g, list):
			sx.check(g == rows[:len(g)], 'the rows received are not those sent')
		elif what != 'broken off' and not done:
			sx.check(g.loaded is None, 'a failed transfer is stored')
	# who did not fail goes on
	for i, s in enumerate(servers):
		if i == 0 and what in ('source failed', 'source ended'):
			continue
		if i > 0 and rs[i - 1] in faulted:
			continue
		usable(sx, *s)
		if i > 0 and not done:
			sx.reach('realigned')


def tasks(tier):
	T = lambda s, r, n, **k: dict(fn='transfer', params=dict(source=s, receivers=list(r), n=n, **k), weight=3)
	F = lambda s, r, n, w, **k: dict(fn='failing', params=dict(source=s, receivers=list(r), n=n, what=w, **k), weight=3)
	S, I = 'statement', 'iterator'
	t = [T(I, r, n) for r in (['call'], [S], [S, 'call'], ['null'], [S, S]) for n in (0, 1, 3)]
	t += [T(I, [S], 2, short=2)]
	t += [T(S, r, n, cuts=1) for r in (['call'], [S], [S, 'call'], ['null'], [S, S]) for n in (0, 1, 2, 3)]
	t += [T(S, [S], n, buffer='any', recvsize='any') for n in (1, 2, 3)]
	t += [T(S, ['call'], 3, buffer='any', recvsize='any'), T(S, [S], 2, cuts=2), T(S, [S], 2, buffer='any', cuts=1, recvsize=20), T(S, [S], 2, short=1, cuts=1)]
	t += [T(S, [r], n, notices=1, cuts=1) for r in (S, 'call') for n in (2, 3)]
	for r in ([S], [S, S], [S, 'call']):
		t += [F(s, r, n, 'receiver') for s in (S, I) for n in (1, 2, 3)]
		t += [F(S, r, 2, 'receiver', cuts=1)]
		t += [F(s, r, n, 'receiver error') for s in (S, I) for n in (1, 3)]
		t += [F(S, r, n, 'source error', cuts=1) for n in (0, 1, 3)]
		t += [F(S, r, 2, w, recvsize=7, buffer='any') for w in ('source failed', 'source ended')]
		t += [F(S, r, 2, w, recvsize=7, buffer='any') for w in ('given up', 'broken off')] + [F(I, r, 3, w) for w in ('given up', 'broken off')]
		t += [F(S, r, 2, w, recvsize=18, cuts=1, buffer=11) for w in ('given up', 'broken off')]
	if tier == 'thorough':
		for r in ([S], [S, S], [S, 'call']):
			t += [T(S, r, 3, cuts=2), F(S, r, 3, 'receiver', cuts=2), F(S, r, 3, 'given up', recvsize=9, buffer='any', cuts=1), F(S, r, 3, 'source error', cuts=2)]
	return t

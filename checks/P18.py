"""P18: bytes on the socket, and what happens when it fails."""
import errno

BOUNDS = ('one to two requests (extended query, simple query, COPY in each direction with up to 2 pieces of data, synchronize), preceded or not by '
	'close requests that are due; each call of the socket takes or gives any part of the data, at most 2 cuts (3 in the thorough tier), with at most 2 '
	'calls that have to be repeated (EAGAIN, EINTR) and at most 1 failure (ECONNRESET, EPIPE) or end of file, at any '
	'call; transitions made one by one, in one go, or in part; contents of 1 byte each are any')
OUTSIDE = 'what TLS sockets do beyond the errors of the operating system; failures with no number, such as time limits set on the socket; the content of error texts'
ASSUMPTIONS = ('a server answers a request it has received completely', 'a socket that failed does not recover')
REACH = ('cut send', 'cut receive', 'repeated', 'failed send', 'failed receive', 'end of file', 'completed', 'second', 'copied in', 'copied out',
	'refused afterwards')


class Socket:
	def __init__(self, sx, cuts, retries, failures, script):
		self.sx, self.cuts, self.retries, self.failures = sx, cuts, retries, failures
		self.script = list(script)	# (bytes the server waits for, its answer)
		self.accepted = b''
		self.due = 0			# bytes it has to get before it answers
		self.incoming = b''
		self.given = b''
		self.failed = None
		self.n = 0
		self.calls = 0

	def name(self, what):
		self.n += 1
		return '%s%d' % (what, self.n)

	def trouble(self, what, failures):
		sx = self.sx
		self.calls += 1
		if self.calls > 80:
			sx.check(False, 'does not come to an end')
		if self.failed is not None:
			if self.failed == 'eof':
				return 'eof'
			raise self.error(self.failed)
		kinds = ('',)
		if self.retries:
			kinds += ('EAGAIN', 'EINTR')
		if self.failures:
			kinds += failures
		k = kinds[0] if len(kinds) == 1 else sx.choose(self.name(what), kinds)
		if not k:
			return
		if k in ('EAGAIN', 'EINTR'):
			self.retries -= 1
			sx.reach('repeated')
			raise OSError(getattr(errno, k), 'try again')
		self.failures -= 1
		self.failed = k
		if k == 'eof':
			sx.reach('end of file')
			return 'eof'
		sx.reach('failed ' + what)
		raise self.error(k)

	def error(self, k):
		return OSError(getattr(errno, k), 'broken')

	def part(self, what, n):
		"""how much of n bytes"""
		if self.cuts and n > 1:
			k = self.sx.choose(self.name(what), n) + 1
			if k < n:
				self.cuts -= 1
				self.sx.reach('cut ' + what)
			return k
		return n

	def send(self, data):
		self.trouble('send', ('ECONNRESET', 'EPIPE'))
		k = self.part('send', len(data))
		self.accepted += bytes(data[:k])
		while self.script and len(self.accepted) >= self.due + self.script[0][0]:
			n, answer = self.script.pop(0)
			self.due += n
			self.incoming += answer
		return k

	def recv(self, size):
		sx = self.sx
		if self.trouble('receive', ('ECONNRESET', 'eof')):
			return b''
		n = min(len(self.incoming), size)
		if not n:
			sx.check(False, 'waits for data although the server has nothing to say')
		k = self.part('receive', n)
		r = self.incoming[:k]
		self.incoming = self.incoming[k:]
		self.given += r
		return r

	def close(self):
		pass


def factory(sx, sock):
	from postgresql.python.socket import SocketFactory

	class Sockets(SocketFactory):
		def __call__(self, timeout=None):
			return sock
	return Sockets((), ())


def message(t, body):
	return t + (len(body) + 4).to_bytes(4, 'big') + body


READY = message(b'Z', b'I')
DONE = message(b'C', b'X\0')


def request(sx, e, kind, i):
	"""messages, what is received for them, script, pieces of data to send"""
	v = sx.bytes('v%d' % i, 1)
	sx.assume(sx.neg(v[0] == 0))
	w = sx.bytes('w%d' % i, 1)
	one = b'\0\1\0\0\0\1'
	ext = lambda: [e.Parse(b's', v, ()), e.Bind(b'p', b's', (), (), ()), e.Execute(b'p', 0), e.SynchronizeMessage]
	size = lambda ms: sum(len(m.bytes()) for m in ms)
	if kind == 'sync':
		ms = [e.SynchronizeMessage]
		return ms, [(size(ms), READY)], [], [b'I']
	if kind == 'query':
		ms = [e.Query(v)]
		return ms, [(size(ms), message(b'I', b'') + READY)], [], [b'', b'I']
	if kind == 'rows':
		ms = ext()
		a = message(b'1', b'') + message(b'2', b'') + message(b'D', one + w) + message(b'D', one + b'z') + DONE + READY
		return ms, [(size(ms), a)], [], ['1', '2', (w,), (b'z',), b'X', b'I']
	if kind == 'error':
		ms = ext()
		a = message(b'1', b'') + message(b'E', b'SERROR\0C42601\0M' + v + b'\0\0') + READY
		return ms, [(size(ms), a)], [], ['1', b'I']
	if kind == 'out':
		ms = [e.Query(v)]
		a = message(b'H', b'\0\0\0') + message(b'd', w) + message(b'd', b'y') + message(b'c', b'') + DONE + READY
		return ms, [(size(ms), a)], [], ['H', w, b'y', 'c', b'X', b'I']
	if kind == 'in':
		ms = [e.Query(v)]
		pieces = [w, b'y']
		return ms, [(size(ms), message(b'G', b'\0\0\0')), (2 * 6 + 5, DONE + READY)], pieces, ['G', b'X', b'I']
	raise RuntimeError(kind)


def plain(e, m):
	if m.__class__ is bytes:
		return m
	if isinstance(m, tuple) and not hasattr(m, 'type'):
		return tuple(m)
	if m.type in (b'Z',):
		return m.xact_state
	if m.type == b'C':
		return m.serialize()[:-1]
	if m.type in (b'1', b'2', b'3', b'H', b'G', b'c'):
		return m.type.decode()
	return m.serialize()


def transport(sx, kinds, how='step', cuts=1, retries=1, failures=1, garbage=False, tracer=False):
	from postgresql.protocol import client3, xact3
	from postgresql.protocol import element3 as e
	plans = [request(sx, e, k, i) for i, k in enumerate(kinds)]
	script = [s for p in plans for s in p[1]]
	queued = []
	if garbage:
		g = [e.ClosePortal(b'c'), e.CloseStatement(b's'), e.SynchronizeMessage]
		gb = b''.join(m.bytes() for m in g)
		queued.append(gb)
		script.insert(0, (len(gb), message(b'3', b'') * 2 + READY))
	sock = Socket(sx, cuts, retries, failures, script)
	c = client3.Connection(factory(sx, sock), {b'user': b'u'}, b'')
	c.socket = sock
	c.xact = None
	if tracer:
		c.tracer = lambda s: None
	if garbage:
		c.garbage_cursors.append(b'c')
		c.garbage_statements.append(b's')
	whole = b''.join(queued) + b''.join(b''.join(m.bytes() for m in p[0]) + b''.join(message(b'd', d) for d in p[2]) + (b'c\0\0\0\4' if p[2] else b'') for p in plans)
	xs = []
	for i, (p, kind) in enumerate(zip(plans, kinds)):
		x = xact3.Instruction(p[0])
		xs.append(x)
		turn(sx, c.push, x)
		pieces = list(p[2])
		if kind == 'in':
			n = 0
			while c.xact is x and x.state is not xact3.Complete:
				if hasattr(x, 'CopyFailSequence') and x.messages is x.CopyFailSequence:
					if pieces:
						x.messages = [pieces.pop(0)]
					else:
						x.messages = x.CopyDoneSequence
				turn(sx, c.step)
				n += 1
				if n > 60:
					sx.check(False, 'does not complete')
		elif how == 'complete' or how == 'mixed' and i % 2:
			if c.xact is not None:
				turn(sx, c.complete)
		elif how == 'next' and i + 1 < len(plans):
			pass		# left to the next request
		else:
			n = 0
			while c.xact is x and x.state is not xact3.Complete:
				turn(sx, c.step)
				n += 1
				if n > 60:
					sx.check(False, 'does not complete')
		if sock.failed is not None and c.xact is not None and c.xact.fatal is True:
			break
	sx.check(sx.same(sock.accepted, whole[:len(sock.accepted)]), 'the bytes sent are not a prefix of the bytes queued')
	if sock.failed is None:
		sx.check(len(sock.accepted) == len(whole), 'something was not sent')
		sx.check(c.xact is None, 'the connection is left in an exchange')
		for x, p, kind in zip(xs, plans, kinds):
			sx.check(x.state is xact3.Complete, 'an exchange is not complete')
			if kind == 'error':
				sx.check(x.fatal is False and sx.same(x.error_message[b'M'], p[0][0].statement), 'the error is lost')
			else:
				sx.check(x.fatal is None, 'a success is reported as a failure')
			sx.check(sx.same([plain(e, m) for m in x.messages_received()], p[3]), 'what is received is not what the server sent')
		sx.check(c.state == b'I', 'the transaction state is not the one reported')
		sx.reach('completed')
		if len(plans) > 1:
			sx.reach('second')
		if 'in' in kinds:
			sx.reach('copied in')
		if 'out' in kinds:
			sx.reach('copied out')
		return
	# the socket failed: everything received was right, and it is known
	x = c.xact
	sx.check(x is not None and x.state is xact3.Complete, 'the exchange is not over')
	sx.check(x.fatal is True, 'the failure is not known to be fatal')
	sx.check(x.error_message[b'C'] == '08006', 'the failure is not reported as one of the connection')
	sx.check(x.error_message[b'S'] == 'FATAL' and bool(x.error_message[b'M']), 'the failure is reported without a reason')
	if sock.failed != 'eof':
		sx.check(isinstance(x.exception, OSError), 'the cause is not kept')
	for y, p, kind in zip(xs, plans, kinds):
		got = [plain(e, m) for m in y.messages_received()]
		if y is x or y.state is not xact3.Complete:
			sx.check(len(got) <= len(p[3]) and sx.same(got, p[3][:len(got)]), 'what is received is not what the server sent')
		elif y.fatal is None:
			sx.check(sx.same(got, p[3]), 'an exchange is reported as a success that was not')
	# and nothing is sent any more
	before = sock.accepted
	z = xact3.Instruction([e.SynchronizeMessage])
	sock.failed = 'EPIPE'
	turn(sx, c.push, z)
	sx.check(len(sock.accepted) == len(before) and c.xact is x and x.fatal is True, 'a request is started on a connection that failed')
	sx.check(z.state is not xact3.Complete or z.fatal is not None, 'success on a connection that failed')
	sx.reach('refused afterwards')


def turn(sx, f, *args):
	try:
		f(*args)
	except Exception as err:
		sx.check(False, 'the failure is not reported but raised: %s' % type(err).__name__)


def tasks(tier):
	T = lambda *k, **kw: dict(fn='transport', params=dict(kinds=k, **kw), weight=3)
	t = []
	for how in ('step', 'complete'):
		t += [T('rows', how=how), T('error', how=how, cuts=1), T('out', how=how), T('query', how=how, cuts=2), T('sync', how=how, cuts=2, retries=2)]
	t += [T('in'), T('in', cuts=2, retries=0), T('in', 'sync', cuts=0), T('query', 'rows', how='next', cuts=0), T('rows', 'query', how='mixed', cuts=0),
		T('sync', 'sync', how='next', cuts=1), T('query', garbage=True, how='step', cuts=1, retries=0), T('sync', garbage=True, how='complete', cuts=1, retries=1, failures=0),
		T('query', tracer=True, cuts=1), T('in', tracer=True, cuts=0), T('out', how='step', cuts=2, retries=0), T('rows', how='step', cuts=2, retries=0)]
	if tier == 'thorough':
		for how in ('step', 'complete'):
			t += [T('rows', how=how, cuts=2, retries=1), T('out', how=how, cuts=2, retries=1), T('query', how=how, cuts=3, retries=2), T('error', how=how, cuts=2)]
		t += [T('in', cuts=2, retries=1), T('in', 'query', cuts=1), T('out', 'rows', how='mixed', cuts=1), T('query', garbage=True, cuts=2)]
	return t

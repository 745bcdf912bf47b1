"""P17: authentication during connection start-up."""
from .server import Factory
BOUNDS = ('up to 5 messages of the server (6 in the thorough tier), each an error, an asynchronous message (at most 1), or one of the '
	'kinds R, K, Z, T (and at each of the first 4 positions, of any kind) with 0, 1, 4, 8 or 12 bytes of any content; delivered in '
	'batches of whole messages with at most 1 cut (2); any user and password of 1 byte each, and of 3 bytes')
OUTSIDE = 'the crypt(3) method, never requested in protocol 3; malformed errors and asynchronous messages; delivery cut inside messages (P01)'
ASSUMPTIONS = ('MD5 is an unknown function: equal inputs have equal digests',)
REACH = ('trust', 'clear text', 'md5', 'unsupported', 'error', 'illegal', 'end of file', 'accepted')

METHODS = ('first', 'password')


class Socket:
	def __init__(self, sx, n, asyncs, cuts, free, others):
		self.sx, self.n, self.asyncs, self.cuts, self.free, self.others = sx, n, asyncs, cuts, free, others
		self.sent = []
		self.given = []
		self.state = 'first'
		self.closed = False

	def send(self, data):
		self.sent.append(bytes(data))
		return len(data)

	def close(self):
		self.closed = True

	def recv(self, size):
		sx = self.sx
		out = b''
		while len(self.given) < self.n:
			i = len(self.given)
			m = self.message(i)
			if m is None:
				break
			t, b = m
			self.given.append(m)
			out += t + bytes([0, 0, 0, len(b) + 4]) + b
			if not (self.cuts and sx.choose('more%d' % i, 2)):
				break
			self.cuts -= 1
		return out

	def message(self, i):
		sx = self.sx
		k = sx.choose('kind%d' % i, ('', 'E') + self.others + (('A', 'N', 'S') if self.asyncs else ()))
		if not k:
			self.n = 0
			return None
		if k[0] != '?':
			v = sx.bytes('v%d' % i, 1)
			sx.assume(sx.neg(v[0] == 0))
			if k == 'E':
				return b'E', b'SFATAL\0C28000\0M' + v + b'\0\0'
			self.asyncs -= 1
			return k.encode(), {'A': b'\0\0\0\x07c\0' + v + b'\0', 'N': b'SNOTICE\0C00000\0M' + v + b'\0\0', 'S': b'name\0' + v + b'\0'}[k]
		n = int(k[1:])
		if self.free != i:
			t = sx.choose('t%d' % i, 'RKZT').encode()
			if t == b'R' and n >= 4:
				req = sx.choose('request%d' % i, (0, 3, 5, 10))
				return t, req.to_bytes(4, 'big') + sx.bytes('b%d' % i, n - 4)
		else:
			t = sx.bytes('t%d' % i, 1)
			for c in b'EANS':
				sx.assume(sx.neg(t[0] == c))
			if n >= 4:
				b = sx.choose('high%d' % i, (b'\0\0\0', b'\1\0\0')) + sx.bytes('b%d' % i, n - 3)
				sx.assume(sx.neg(sx.all(t == b'R', b[:4] == b'\0\0\0\4')))
				return t, b
		return t, sx.bytes('b%d' % i, n)


class Sockets(Factory):
	def __init__(self, sx, sock):
		self.sx, self.sock = sx, sock

	def __call__(self, timeout=None):
		return self.sock


def md5(x):
	import hashlib
	return hashlib.md5(x)


def negotiation(sx, n=5, asyncs=0, cuts=2, size=1, free=None, sizes=(0, 1, 4, 8, 12)):
	from postgresql.protocol import client3
	from postgresql.protocol import element3 as e
	sock = Socket(sx, n, asyncs, cuts, free, tuple('?%d' % i for i in sizes))
	user, password = sx.bytes('user', size), sx.bytes('password', size)
	for c in list(user) + list(password):
		sx.assume(sx.neg(c == 0))
	startup = {b'user': user, b'database': b'd'}
	c = client3.Connection(Sockets(sx, sock), startup, password)
	x = c.xact
	c.connect()

	# what the protocol says about this exchange
	state, sent, killed, status, asyncs_ = 'first', [e.Startup(startup).bytes()], None, None, []
	why = 'end of file'
	for t, b in sock.given:
		if t == b'E':
			why, state = 'error', 'failed'
		elif t in (b'A', b'N', b'S'):
			asyncs_.append((t, b))
		elif state in METHODS:
			if t != b'R' or len(b) < 4:
				why, state = 'illegal', 'failed'
				break
			req = int.from_bytes(b[:4], 'big')
			if req == 0:
				if len(b) != 4:
					sx.assume(False)
				if state == 'first':
					sx.reach('trust')
				state = 'kill'
			elif state == 'password':
				why, state = 'illegal', 'failed'
			elif req == 3:
				if len(b) != 4:
					sx.assume(False)
				sx.reach('clear text')
				sent.append(b'p' + (size + 5).to_bytes(4, 'big') + password + b'\0')
				state = 'password'
			elif req == 5:
				if len(b) != 8:
					sx.assume(False)
				sx.reach('md5')
				inner = md5(password + user).hexdigest().encode('ascii')
				sent.append(b'p\0\0\0\x28md5' + md5(inner + b[4:]).hexdigest().encode('ascii') + b'\0')
				state = 'password'
			else:
				sx.assume(req != 4)
				sx.reach('unsupported')
				why, state = 'illegal', 'failed'
		elif state == 'kill':
			if t != b'K' or len(b) != 8:
				why, state = 'illegal', 'failed'
			else:
				killed, state = (int.from_bytes(b[:4], 'big'), int.from_bytes(b[4:], 'big')), 'ready'
		elif state == 'ready':
			if t != b'Z':
				why, state = 'illegal', 'failed'
			else:
				if len(b) != 1:
					sx.assume(False)
				if b not in (b'I', b'T', b'E'):
					why, state = 'illegal', 'failed'
				else:
					status, state = b, 'accepted'
		if state in ('failed', 'accepted'):
			break
	got = b''.join(sock.sent)
	sx.check(sx.same(got, b''.join(sent)), 'what is sent is not what the server asked for')
	sx.check(x.state == ('Complete',) or x.state is client3.xact.Complete, 'the attempt does not end')
	if state == 'accepted':
		sx.reach('accepted')
		sx.check(c.xact is None, 'an accepted attempt does not leave the connection ready')
		sx.check(x.fatal is None, 'an accepted attempt is reported as failed')
		sx.check(sx.same((c.backend_id, c.key), killed), 'the cancel key is not the one the server gave')
		sx.check(sx.same(getattr(c.state, 'xact_state', c.state), status), 'the status is not the one the server gave')
	else:
		sx.reach(why)
		sx.check(c.xact is x and x.fatal is True, 'an attempt that was not accepted is not failed')
		sx.check(c.backend_id is None and c.key is None, 'a failed attempt yields a cancel key')
		m = getattr(x, 'error_message', None)
		sx.check(m is not None, 'no reason is given')
		if why == 'error':
			sx.check(sx.same(m.get(b'M'), b[15:16]) and m.__class__ is e.Error, 'the error of the server is lost')
	sx.check(len(x.asyncs) == len(asyncs_), 'an asynchronous message is lost or repeated')
	sx.check(sx.all(*[sx.same(m.type, t) and sx.same(m.serialize(), b) for m, (t, b) in zip(x.asyncs, asyncs_)]),
		'an asynchronous message is altered')


def tasks(tier):
	N = lambda **k: dict(fn='negotiation', params=k, weight=3)
	t = [
		N(n=3, asyncs=1, cuts=1, sizes=(1, 4, 8)), N(n=5, asyncs=1, cuts=0, sizes=(4, 8)), N(n=5, asyncs=0, cuts=1, sizes=(4, 8)),
		N(n=4, asyncs=0, cuts=0, size=3), N(n=1, free=0), N(n=2, free=1), N(n=3, free=2, sizes=(4, 8), cuts=1),
		N(n=4, free=3, sizes=(1, 4, 8), cuts=0),
	]
	if tier == 'thorough':
		t += [
			N(n=4, asyncs=1, cuts=1, sizes=(1, 4, 8)), N(n=6, asyncs=0, cuts=1, sizes=(1, 4, 8)), N(n=4, asyncs=0, cuts=2),
			N(n=6, asyncs=1, cuts=0, sizes=(4, 8)), N(n=5, asyncs=0, cuts=2, sizes=(1, 4, 8)), N(n=4, free=3, sizes=(4, 8), cuts=1),
		]
	return t

"""P19: the sslmode policy."""
import errno

BOUNDS = ('every sslmode, given and by default; 1 to 2 addresses (3 with require and disable), or none to be found; for each attempt a connection that is '
	'made, refused or timed out; for each offer of encryption the answers S, N, any other byte, end of file, a failure of the socket, with and without '
	'further bytes after the answer; encryption that succeeds or fails; for each start-up: accepted (at once or after a password was asked for), '
	'rejected, ended, reset, answered by an illegal message')
OUTSIDE = 'TLS itself and certificates; the queries made once the connection is open'
ASSUMPTIONS = ('an attempt for which the first of the two tries of prefer and allow fails with an error of the operating system may be given up for that address',)
REACH = ('require', 'disable', 'prefer', 'allow', 'default', 'opened with encryption', 'opened without encryption', 'opened without after N', 'second try', 'second address',
	'failed', 'no addresses', 'given up', 'injected')

SSL_REQUEST = b'\0\0\0\x08\x04\xd2\x16\x2f'


class Endpoint:
	"""one attempt as the server sees it"""
	def __init__(self, world, address, i):
		self.world, self.address, self.i = world, address, i
		self.offered = False
		self.answer = None
		self.encrypted = False
		self.started = None		# None, or what became of the start-up
		self.closed = 0
		self.plain = b''		# bytes received without encryption
		self.secret = b''		# with
		self.result = None		# why it ended


class Socket:
	def __init__(self, world, end, encrypted):
		self.world, self.end, self.encrypted = world, end, encrypted
		self.out = b''
		self.asked = False

	def choose(self, what, options):
		return self.world.choose('%s%d' % (what, self.end.i), options)

	def fileno(self):
		return 3

	def close(self):
		self.end.closed += 1

	def send(self, data):
		w, end = self.world, self.end
		if end.closed:
			w.sx.fail('sends on a closed socket')
		if self.encrypted:
			end.secret += bytes(data)
		else:
			if end.encrypted:
				w.sx.fail('sends on the socket below the encryption')
			end.plain += bytes(data)
			if end.plain == SSL_REQUEST:
				end.offered = True
				k = self.choose('offer', ('S', 'N', 'other', 'eof', 'reset') + (('S+',) if w.inject else ()))
				end.answer = k
				self.out = {'S': b'S', 'N': b'N', 'S+': b'S' + w.INJECTED, 'eof': b'', 'reset': b''}.get(k)
				if k == 'other':
					b = w.sx.bytes('answer%d' % end.i, 1)
					w.sx.assume(w.sx.neg(w.sx.any(b[0] == 0x53, b[0] == 0x4e)))
					self.out = b
				if k == 'reset':
					end.result = 'os'
					if self.choose('onsend', 2):
						raise OSError(errno.EPIPE, 'broken pipe')
				return len(data)
		b = end.secret if self.encrypted else end.plain[8:] if end.offered else end.plain
		if end.started is None:
			if b != w.startup:
				w.sx.fail('sends something else than the start-up message')
			k = self.choose('startup', ('accept', 'password', 'reject', 'eof', 'reset', 'illegal'))
			end.started = k
			if k == 'password':
				self.out += b'R\0\0\0\x08\0\0\0\3'
				return len(data)
			self.ends(k)
		elif end.started == 'password':
			if b[len(w.startup):] != b'p\0\0\0\7pw\0':
				w.sx.fail('sends something else than the password')
			end.started = k = self.choose('answered', ('accept', 'reject'))
			self.ends(k)
		elif end.started == 'open':
			end.terminated = bytes(data)
		else:
			w.sx.fail('sends something on a connection that failed')
		return len(data)

	def ends(self, k):
		end = self.end
		end.result = k
		if k == 'accept':
			self.out += b'R\0\0\0\x08\0\0\0\0' + b'S\0\0\0\x1aserver_version\0' + b'16.1.0\0' + b'S\0\0\0\x23standard_conforming_strings\0on\0' + b'K\0\0\0\x0c\0\0\0\1\0\0\0\2' + b'Z\0\0\0\5I'
			end.started = 'open'
		elif k == 'reject':
			self.out += b'E\0\0\0\x15SFATAL\0C28000\0Mm\0\0'
		elif k == 'illegal':
			self.out += b'1\0\0\0\4'
		elif k == 'reset':
			end.result = 'os'

	def recv(self, size):
		w, end = self.world, self.end
		if not self.encrypted and end.encrypted:
			w.sx.fail('reads below the encryption')
		if end.result == 'os' and not self.out:
			raise OSError(errno.ECONNRESET, 'connection reset')
		r, self.out = self.out[:size], self.out[size:]
		return r


class World:
	# an open connection, in the clear
	INJECTED = b'R\0\0\0\x08\0\0\0\0' + b'K\0\0\0\x0c\0\0\0\7\0\0\0\7' + b'Z\0\0\0\5I'

	def __init__(self, sx, startup, inject):
		self.sx, self.startup, self.inject = sx, startup, inject
		self.ends = []

	def choose(self, what, options):
		return self.sx.choose(what, options)


def factory(world, address):
	from postgresql.python.socket import SocketFactory

	class Sockets(SocketFactory):
		def __call__(self, timeout=None):
			end = Endpoint(world, self, len(world.ends))
			world.ends.append(end)
			world.timeouts.append(timeout)
			k = world.choose('connect%d' % end.i, ('made', 'refused', 'timeout'))
			if k == 'refused':
				end.result = 'os'
				raise OSError(errno.ECONNREFUSED, 'connection refused')
			if k == 'timeout':
				end.result = 'os'
				raise self.timeout_exception('timed out')
			end.socket = Socket(world, end, False)
			return end.socket

		def secure(self, sock):
			end = sock.end
			if world.choose('secure%d' % end.i, 2):
				end.result = 'os'
				raise ValueError('the certificate is not trusted')
			end.encrypted = True
			if sock.out:
				world.sx.reach('injected')
			end.socket = Socket(world, end, True)
			return end.socket
	return Sockets((), address)


def connect(sx, mode, n=1, inject=False, unresolved=False):
	from postgresql.driver import pq3
	from postgresql.protocol import element3 as e
	import postgresql.exceptions as X

	class Connector(pq3.SocketConnector):
		def socket_factory_sequence(self):
			if unresolved:
				raise OSError(-2, 'name not known')
			return factories

	class Sys:
		def __init__(self, *args):
			pass

		def startup_data_92(self):
			return ('PostgreSQL 16', None, None, None)
		startup_data = startup_data_only_version = startup_data_92

	class Lib:
		Binding = Sys
		sys = None

	connector = Connector(user='u', password='pw', driver=pq3.Driver(), connect_timeout=7, **({'sslmode': mode} if mode else {}))
	connector._startup()
	world = World(sx, e.Startup(dict(connector._startup_parameters)).bytes(), inject)
	world.timeouts = []
	factories = [factory(world, ('address', i)) for i in range(n)]
	old = pq3.pg_lib
	pq3.pg_lib = Lib
	c = pq3.Connection(connector)
	raised = None
	try:
		try:
			c.connect()
		except X.Error as err:
			raised = err
		except Exception as err:
			sx.check(False, 'raises something else than an error of the library: %s %s' % (type(err).__name__, err))
	finally:
		pq3.pg_lib = old
	sx.reach(mode or 'default')
	ends = world.ends
	sx.check(all([t == 7 for t in world.timeouts]), 'the time limit is not passed on')
	# security first
	for end in ends:
		if mode == 'require':
			sx.check(end.plain in (b'', SSL_REQUEST), 'start-up data without encryption in spite of require')
		if mode == 'disable':
			sx.check(not end.offered and not end.encrypted, 'encryption negotiated in spite of disable')
		if end.offered and end.answer in ('S', 'S+'):
			sx.check(end.plain == SSL_REQUEST, 'start-up data without encryption after the server agreed to it')
	# the attempts follow the policy
	todo = []
	for f in factories if not unresolved else ():
		todo += [(f, k) for k in {'require': ('must',), 'disable': ('never',), 'allow': ('never', 'must')}.get(mode, ('try', 'never'))]
	i = 0
	opened = None
	while todo:
		f, kind = todo.pop(0)
		if i == len(ends):
			sx.check(False, 'an attempt is missing')
		end = ends[i]
		i += 1
		sx.check(end.address is f, 'the addresses are not tried in order')
		if end.plain or end.secret:
			sx.check(end.offered is (kind != 'never'), 'encryption is offered when it should not be, or not when it should be')
		if kind == 'must':
			sx.check(end.plain in (b'', SSL_REQUEST), 'start-up data without encryption where it is required')
		if kind == 'try' and end.offered and end.answer == 'N':
			sx.check(end.started is not None, 'prefer does not go on without encryption')
		if end.result == 'accept':
			opened = end
			break
		if todo and todo[0][0] is f:
			if kind == 'try' and end.answer == 'N':
				todo.pop(0)		# it was tried without as well
			elif end.result == 'os' and not (i < len(ends) and ends[i].address is f):
				sx.reach('given up')
				todo.pop(0)
			else:
				sx.reach('second try')
		elif todo:
			sx.reach('second address')
	sx.check(i == len(ends), 'there are more attempts than the policy allows')
	for end in ends:
		if end is not opened and hasattr(end, 'socket'):
			sx.check(end.closed > 0, 'the socket of a failed attempt is left open')
	if opened is None:
		sx.reach('failed' if not unresolved else 'no addresses')
		sx.check(isinstance(raised, X.ClientCannotConnectError), 'a failure is not reported as one')
		sx.check(c.closed is True, 'a failed connection is not closed')
		if unresolved:
			sx.check(isinstance(raised.__cause__, OSError), 'the reason is not given')
		sx.check(len(c.failures) == len(ends), 'a failed attempt is not reported')
		for fail, end in zip(c.failures, ends):
			sx.check(fail.socket_factory is end.address and isinstance(fail.error, X.Error), 'a failed attempt is reported wrong')
			if end.result == 'reject':
				sx.check(fail.error.code == '28000', 'the error of the server is not reported')
			if end.result == 'os':
				sx.check(fail.error.__cause__ is not None, 'the cause of a failed attempt is not reported')
			if end.answer == 'N' and end.started is None:
				sx.check(isinstance(fail.error, X.InsecurityError), 'that encryption is not available is not reported')
		return
	sx.check(raised is None, 'a connection that was accepted is reported as failed')
	sx.check(c.closed is False and opened.closed == 0, 'an open connection is closed')
	sx.check(c.pq.socket is opened.socket, 'the connection uses another socket')
	sx.check(c.security == ('ssl' if opened.encrypted else None), 'whether the connection is encrypted is reported wrong')
	sx.check(c.backend_id == 1 and c.pq.key == 2, 'what was received before encryption is used')
	sx.check(c.version_info[:2] == (16, 1), 'a setting reported at start-up is lost')
	sx.reach('opened with encryption' if opened.encrypted else 'opened without after N' if opened.offered else 'opened without encryption')


def tasks(tier):
	T = lambda mode, **k: dict(fn='connect', params=dict(mode=mode, **k), weight=3)
	t = []
	for m in ('require', 'disable', 'prefer', 'allow'):
		t += [T(m, n=2)]
	t += [T('require', n=3), T('disable', n=3)] + [T(m, n=1, inject=True) for m in ('require', 'prefer', 'allow')] + [T(None, n=1), T('prefer', unresolved=True), T('require', unresolved=True)]
	if tier == 'thorough':
		t += [T(m, n=2, inject=True) for m in ('require', 'prefer', 'allow')] + [T(None, n=2)]
	return t

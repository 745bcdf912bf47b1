"""
A server of the version 3 protocol, written from the protocol's documentation,
and a client connection that talks to it instead of to a socket. What the
server answers, and how its answers are cut into batches, is chosen by the
solver.
"""


class Stop(Exception):
	"""the bound of the exploration was reached"""


class Factory:
	class fatal_exception(Exception):
		pass
	class try_again_exception(Exception):
		pass
	class timeout_exception(Exception):
		pass

	@staticmethod
	def try_again(e):
		return False

	@staticmethod
	def fatal_exception_message(e):
		return None


NOTICE = b'SNOTICE\0C00000\0Mnote\0\0'


def fields(*kv):
	return b''.join(k + v + b'\0' for k, v in kv) + b'\0'


class Server:
	"""
	errors: how many errors it may report; fatal: whether one may be fatal
	asyncs: how many asynchronous messages; rows: most rows or pieces of data
	illegal: whether it may send one message that is illegal at its position
	"""
	def __init__(self, sx, e, errors=0, asyncs=0, kinds='A', rows=1, fatal=False, illegal=False, localized=False, statements=1,
			late=False, cuts=99):
		self.sx, self.e = sx, e
		self.errors, self.asyncs, self.kinds = errors, asyncs, kinds
		self.rows, self.fatal, self.illegal, self.localized = rows, fatal, illegal, localized
		self.statements = statements
		self.late = late			# an error before the COPY data is looked at
		self.n = 0
		self.cuts = cuts			# how often an answer that is ready is cut
		self.idle = False			# waits for a request
		self.dead = False
		self.input = []				# messages not looked at yet
		self.out = []				# messages not read by the client yet
		self.sent = []				# (type, body) of the answers proper
		self.notices = []			# the asynchronous messages, parsed
		self.reported = []			# errors reported
		self.readies = 0
		self.broken = None			# the illegal message
		self.gen = self.run()
		next(self.gen)

	def name(self, what):
		self.n += 1
		return '%s%d' % (what, self.n)

	def choose(self, what, options):
		return self.sx.choose(self.name(what), options)

	# output ------------------------------------------------------------------
	def interlude(self, legal):
		while self.asyncs:
			k = self.choose('async', ('',) + tuple(self.kinds))
			if not k:
				break
			self.asyncs -= 1
			self.notice(k)
		if self.illegal and self.choose('illegal', 2):
			t = self.sx.bytes(self.name('type'), 1)
			for x in legal + b'NASE':
				self.sx.assume(self.sx.neg(t[0] == x))
			self.broken = len(self.sent)
			self.illegal = False
			self.put(t, b'\0\0')
			self.dead = True
			return True

	def notice(self, k):
		e, sx = self.e, self.sx
		if k == 'A':
			b = sx.bytes(self.name('note'), 1)
			sx.assume(sx.neg(b[0] == 0))
			m = e.Notify(7, b, b'')
		elif k == 'a':
			m = e.Notify(7, b'c', b'')
		elif k == 'N':
			m = e.Notice([(b'S', b'NOTICE'), (b'C', b'00000'), (b'M', b'note')])
		else:
			v = sx.bytes(self.name('value'), 1)
			sx.assume(sx.neg(v[0] == 0))
			m = e.ShowOption(b'name', v)
		self.put(m.type, m.serialize())
		self.notices.append(m)

	def put(self, t, body):
		self.out.append((t, body))

	def send(self, t, body, legal):
		"""legal: what else would be legal in the place of this message"""
		if self.interlude(legal + t):
			raise Stop
		self.put(t, body)
		self.sent.append((t, body))

	def error(self, must=False):
		"""report an error?"""
		if not must:
			if not self.errors or not self.choose('error', 2):
				return False
		if self.errors:
			self.errors -= 1
		if self.interlude(b'T12ntDCIGHdcsVZ3'):
			raise Stop
		fatal = self.fatal and self.choose('severity', 3) or 0
		sev = (b'ERROR', b'FATAL', b'PANIC')[fatal]
		if self.localized and not fatal:
			body = [(b'S', self.sx.bytes(self.name('severity'), 2)), (b'V', sev)]
			for i in body[0][1]:
				self.sx.assume(i > 127)
		else:
			body = [(b'S', sev)]
		body += [(b'C', b'XX00%d' % len(self.reported)), (b'M', b'message')]
		self.put(b'E', fields(*body))
		self.reported.append((fatal, b'XX00%d' % len(self.reported)))
		if fatal:
			self.dead = True
			raise Stop
		return True

	# the server --------------------------------------------------------------
	def run(self):
		try:
			while True:
				self.idle = True
				m = yield from self.next()
				self.idle = False
				yield from self.command(m)
		except Stop:
			pass
		while True:
			yield

	def next(self):
		while not self.input:
			yield
		return self.input.pop(0)

	def receive(self, messages):
		self.input.extend(messages)
		next(self.gen)

	def ready(self, legal=b''):
		s = self.sx.choose(self.name('status'), (b'I', b'T')) if self.statements > 1 else b'I'
		self.send(b'Z', s, legal + (b'3' if self.aborts else b''))
		self.readies += 1

	def command(self, m):
		t = m.type if not isinstance(m, bytes) else b'd'
		if t in (b'd', b'c', b'f') or m is self.e.FlushMessage:
			return
		if t == b'Q':
			if not (yield from self.query()):
				pass
			self.ready(b'CTHGI')
			return
		if t == b'S':
			self.ready()
			return
		if t == b'F':
			if not self.error():
				self.send(b'V', self.sx.choose(self.name('result'), (b'\xff\xff\xff\xff', b'\0\0\0\1r')), b'')
			self.ready()
			return
		if (yield from self.extended(t, m)):
			while True:
				m = yield from self.next()
				if m is self.e.SynchronizeMessage:
					break
			self.ready()

	def pipelined(self):
		return any(m is not self.e.SynchronizeMessage and m is not self.e.FlushMessage for m in self.input)

	def row(self):
		v = self.sx.bytes(self.name('row'), 1)
		return b'\0\1\0\0\0\1' + v

	def descriptor(self):
		return b'\0\1a\0' + b'\0' * 4 + b'\0\0' + b'\0\0\0\x17' + b'\0\4' + b'\xff' * 4 + b'\0\1'

	def data(self, first):
		"""COPY TO: -> failed?"""
		self.send(b'H', b'\0\0\0', first)
		for i in range(self.rows):
			if self.error():
				return True
			if not self.choose('more', 2):
				break
			self.send(b'd', self.sx.bytes(self.name('data'), 1), b'dc')
		if self.error():
			return True
		self.send(b'c', b'', b'dc')
		if self.error():
			return True
		self.send(b'C', b'COPY 1\0', b'')

	def copyin(self, extended, first):
		"""COPY FROM: -> failed?"""
		self.send(b'G', b'\0\0\0', first)
		if self.late and self.errors and self.error():
			return True
		while True:
			m = yield from self.next()
			if isinstance(m, bytes):
				self.received.append(m)
				if self.error():
					return True
			elif m.type == b'c':
				break
			elif m.type == b'f':
				self.aborted = True
				self.error(must=True)
				return True
			elif extended and m.type in (b'S', b'H'):
				if self.late and self.errors and self.error():
					return True
			else:
				self.unexpected = m.type
				self.dead = True
				raise Stop
		if self.error():
			return True
		self.copied = True
		self.send(b'C', b'COPY 1\0', b'')
	received = ()
	copied = aborted = False
	aborts = 0				# failed COPYs
	unexpected = None

	def query(self):
		for s in range(self.statements):
			if self.error():
				return True
			k = self.choose('answer', 'CTHGI' if s == 0 else 'CTH ')
			between = b'CTHGIZ'
			if k == ' ':
				break
			if k == 'C':
				self.send(b'C', b'SELECT 1\0', between)
			elif k == 'I':
				self.send(b'I', b'', between)
				break
			elif k == 'T':
				self.send(b'T', self.descriptor(), between)
				for i in range(self.rows):
					if self.error():
						return True
					if not self.choose('more', 2):
						break
					self.send(b'D', self.row(), b'CDZ')
				if self.error():
					return True
				self.send(b'C', b'SELECT 1\0', b'CDZ')
			elif k == 'H':
				if self.data(between):
					return True
			else:
				self.received = []
				if (yield from self.copyin(False, between)):
					return True

	def extended(self, t, m):
		"""-> failed?"""
		if self.error():
			return True
		simple = {b'P': b'1', b'B': b'2', b'C': b'3'}.get(t)
		if simple:
			self.send(simple, b'', b'Z' if simple == b'3' and self.aborts else b'')
		elif t == b'D':
			portal = isinstance(m, self.e.DescribePortal)
			if not portal:
				self.send(b't', b'\0\1\0\0\0\x17', b'Tn')
			if self.choose('description', 2):
				self.send(b'T', self.descriptor(), b'tn')
			else:
				self.send(b'n', b'', b'Tt')
		elif t == b'E':
			# a COPY from the client: nothing but synchronization may follow
			k = self.choose('answer', 'DCIH' if self.pipelined() else 'DCIHG')
			first = b'DCIHG'
			if k == 'C':
				self.send(b'C', b'SELECT 1\0', first)
			elif k == 'I':
				self.send(b'I', b'', first)
			elif k == 'D':
				self.send(b'D', self.row(), first)
				for i in range(self.rows - 1):
					if self.error():
						return True
					if not self.choose('more', 2):
						break
					self.send(b'D', self.row(), b'DCs')
				if self.error():
					return True
				if self.choose('suspended', 2):
					self.send(b's', b'', b'DCs')
				else:
					self.send(b'C', b'SELECT 1\0', b'DCs')
			elif k == 'H':
				if self.data(first):
					return True
			else:
				self.received = []
				if (yield from self.copyin(True, first)):
					self.aborts += 1
					return True
		else:
			raise RuntimeError('harness: unknown command %r' % t)
		return False


def connection(sx, server, client3, container=tuple):
	class Conn(client3.Connection):
		def read_messages(self):
			if not self.read:
				if not server.out:
					sx.check(False, 'waits for a message although the server has answered everything')
				n = len(server.out)
				if n > 1 and server.cuts:
					n = server.choose('batch', n) + 1
					server.cuts -= n < len(server.out)
				self.read = container(server.out[:n])
				del server.out[:n]
			return True
		standard_read_messages = read_messages

		def write_messages(self, messages):
			server.receive(messages)
			return True
		standard_write_messages = write_messages

	c = Conn(Factory, ())
	c.xact = None
	return c

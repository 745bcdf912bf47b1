"""P29: the notification loop."""
import time as _time
import select as _select
BOUNDS = ('up to 2 connections (3 in the thorough tier); up to 4 (6) events taken from the loop with an action between them (none, a request that receives '
	'notifications, a connection closed, removed, added, used by a COPY, the time-out changed); up to 2 (4) waits, each with any connections readable (with 0, 1 or '
	'2 notifications, or failing after 0 or 1), exceptional or silent; no time-out, a time-out of zero, and any positive time-out, with any '
	'amount of time passing at each reading of the clock and in each wait')
OUTSIDE = 'concurrent use by several threads; subclasses overriding queue and trash; failures to decode'
ASSUMPTIONS = ('select() returns no connection only after the whole duration asked for; the clock does not go backwards',)
REACH = ('busy', 'event', 'idle', 'stopped', 'polled', 'failed', 'exceptional', 'failed after receiving', 'closed', 'removed', 'added', 'silent', 'no notification')


class Done(Exception):
	pass


class Typio:
	def decode(self, x):
		return ('text', x)


class Notify:
	def __init__(self, channel, payload, pid):
		self.channel, self.payload, self.pid = channel, payload, pid


class Pq:
	xact = None				# the request in progress


class Db:
	def __init__(self, world, i):
		self.world, self.i = world, i
		self.closed = False
		self.typio = Typio()
		self._notifies = []
		self.received = []
		self.delivered = 0
		self.wire = None			# what the next request finds
		self.failed = False
		self.mine = True
		self.pq = Pq()

	def receive(self, n):
		for x in range(n):
			k = (self.i, len(self.received))
			self._notifies.append(Notify(('channel', k), ('payload', k), k))
			self.received.append((('text', ('channel', k)), ('text', ('payload', k)), k))

	def execute(self, q):
		if q.strip().strip(';').strip():
			self.world.sx.fail('the loop executes %r' % (q,))
		if self.pq.xact is not None and self.world.timeout == 0:
			self.world.sx.fail('polling disturbs a request in progress')
		if self.wire is not None:
			n, bad = self.wire
			self.wire = None
			self.receive(n)
			if bad:
				self.failed = True
				if n:
					self.world.sx.reach('failed after receiving')
				raise OSError('connection lost')

	def fileno(self):
		return self.i

	def __hash__(self):
		return self.i

	def __repr__(self):
		return 'db%d' % self.i


class World:
	def __init__(self, sx, waits, kinds):
		self.sx = sx
		self.clock = sx.int('clock0', 0, 10 ** 6)
		self.reads = 0
		self.waits = waits
		self.kinds = kinds
		self.nth = 0
		self.silent = 0
		self.polled = set()
		self.dbs = []
		self.nm = None

	def time(self):
		self.reads += 1
		self.clock = self.clock + self.sx.int('passed%d' % self.reads, 0, 10 ** 6)
		return self.clock

	def select(self, r, w, x, duration=None):
		sx = self.sx
		self.nth += 1
		if self.nth > self.waits:
			raise Done()
		rs, xs = [], []
		for d in sorted(set(r) | set(x), key=lambda d: d.i):
			if d.closed:
				sx.fail('a closed connection is waited on')
			if d.failed or self.nm and d in self.nm.garbage:
				sx.fail('a connection put aside is waited on')
			k = sx.choose('wait%d-%d' % (self.nth, d.i), self.kinds)
			if k == 'x':
				sx.reach('exceptional')
				d.failed = True
				xs.append(d)
			elif k != '-':
				d.wire = (int(k[0]), k[1:] == 'F')
				if k[1:] == 'F':
					sx.reach('failed')
				elif k == '0':
					sx.reach('no notification')
				rs.append(d)
			self.polled.add(d)
		if self.timeout == 0:
			sx.check(duration == 0, 'a poll does not wait')
		if duration is None:
			if not rs and not xs:
				raise Done()
			return rs, [], xs
		sx.check(duration >= 0, 'the duration waited for is not negative')
		if rs or xs:
			self.silent = 0
			if sx.is_symbolic(duration) or duration:
				p = sx.int('waited%d' % self.nth, 0, 10 ** 6)
				sx.assume(p <= duration)
				self.clock = self.clock + p
		else:
			sx.reach('silent')
			self.silent += 1
			self.clock = self.clock + duration
		return rs, [], xs


THE = [None]


def fake_time():
	return THE[0].time()


def fake_select(*args):
	return THE[0].select(*args)


def module(world):
	"""the module, reading the clock and waiting through `world`"""
	from postgresql import notifyman as N
	import types
	THE[0] = world
	sub = {id(_time.time): fake_time, id(_time.monotonic): fake_time, id(_select.select): fake_select}
	fakes = (fake_time, fake_select)
	for k, v in list(vars(N).items()):
		if id(v) in sub:
			setattr(N, k, sub[id(v)])
		elif v is _time:
			setattr(N, k, types.SimpleNamespace(time=fake_time, monotonic=fake_time))
		elif v is _select:
			setattr(N, k, types.SimpleNamespace(select=fake_select))
	for f in list(vars(N.NotificationManager).values()):
		if isinstance(f, types.FunctionType):
			if f.__defaults__:
				f.__defaults__ = tuple(sub.get(id(x), x) for x in f.__defaults__)
			if f.__kwdefaults__:
				f.__kwdefaults__ = {k: sub.get(id(x), x) for k, x in f.__kwdefaults__.items()}
	return N


def loop(sx, n, timeout, events, waits, kinds, actions, late=False):
	world = World(sx, waits, kinds)
	N = module(world)
	dbs = world.dbs = [Db(world, i) for i in range(n)]
	t = timeout if timeout != 'any' else sx.int('timeout', 1, 100)
	start = world.clock
	if late:
		for d in dbs:
			d.receive(sx.choose('before%d' % d.i, 2))
	nm = world.nm = N.NotificationManager(*dbs, timeout=t)
	world.timeout = t
	last = start
	for e in range(events):
		world.silent = 0
		world.polled = set()
		mine = [d for d in dbs if d.mine and not d.failed]
		# what was here before the call
		try:
			ev = next(nm)
		except StopIteration:
			sx.reach('stopped')
			live = [d for d in dbs if d in nm.connections]
			if live and world.timeout != 0:
				sx.fail('the loop stops while connections are watched')
			for d in dbs:
				sx.check(not d.mine or d.delivered == len(d.received), 'the loop stops with notifications undelivered')
			if live:
				sx.reach('polled')
				for d in live:
					sx.check(d in world.polled, 'the loop stops without looking at every connection')
			aside(sx, nm, dbs)
			ev = None
			if world.timeout != 0:
				break
		except Done:
			aside(sx, nm, dbs)
			break
		else:
			if ev is None:
				sx.reach('idle')
				sx.check(world.timeout is not None, 'no idle event without a time-out')
				sx.check(world.timeout != 0, 'no idle event with a time-out of zero')
				sx.check(world.clock >= last + world.timeout, 'idle events are at least the time-out apart')
				last = world.clock
				for d in dbs:
					sx.check(not d.mine or d.delivered + len(d._notifies) == len(d.received), 'an idle event with notifications collected and undelivered')
			else:
				sx.reach('event')
				d, ns = ev
				ns = list(ns)
				sx.check(bool(ns), 'an event without notifications')
				sx.check(d.received[d.delivered:d.delivered + len(ns)] == ns, 'notifications are delivered once, unaltered and in order')
				d.delivered += len(ns)
			aside(sx, nm, dbs)
		if world.timeout is not None and world.timeout != 0:
			sx.check(world.silent <= 2, 'a silent wait of the time-out is followed by an idle event')
		sx.observe('events', (e, repr(ev)))
		a = sx.choose('action%d' % e, actions)
		if a == 'request':
			d = dbs[0]
			if not d.closed and not d.failed:
				d.receive(sx.choose('received%d' % e, (1, 2)))
		elif a == 'busy':
			dbs[0].pq.xact = None if dbs[0].pq.xact else world
			sx.reach('busy')
		elif a == 'close':
			d = dbs[sx.choose('closed%d' % e, len(dbs))]
			if d.mine:
				sx.reach('closed')
				d.receive(sx.choose('last%d' % e, 2) if not d.closed and not d.failed else 0)
				d.closed = True
		elif a == 'remove':
			d = dbs[sx.choose('removed%d' % e, len(dbs))]
			sx.reach('removed')
			nm.connections.discard(d)
			d.mine = False
		elif a == 'add':
			sx.reach('added')
			d = Db(world, len(dbs))
			dbs.append(d)
			nm.connections.add(d)
		elif a == 'timeout':
			world.timeout = sx.choose('timeout%d' % e, (None, 0, 5))
			nm.settimeout(world.timeout)
			sx.check(nm.gettimeout() == world.timeout, 'the time-out is kept')


def aside(sx, nm, dbs):
	for d in dbs:
		if d.mine and not d.failed and not d.closed:
			sx.check(d in nm.connections and d not in nm.garbage, 'a healthy connection is kept')
		elif d.mine and d.failed:
			sx.check(d not in nm.connections and d in nm.garbage, 'a failed connection is put aside')
		elif d.mine:
			sx.check((d in nm.connections) != (d in nm.garbage), 'a closed connection is watched or put aside')


def one(sx, timeout, events, waits):
	"""the iterator of a connection"""
	from postgresql.driver import pq3
	world = World(sx, waits, ('-', '1', '2', '0', '1F', 'x'))
	module(world)
	d = Db(world, 0)
	world.dbs = [d]
	d.receive(sx.choose('before', 3))
	t = timeout if timeout != 'any' else sx.int('timeout', 1, 100)
	world.timeout = t
	got = []
	it = pq3.Connection.iternotifies(d, timeout=t)
	for i in range(events):
		try:
			x = next(it)
		except StopIteration:
			sx.reach('stopped')
			sx.check(d.failed or timeout == 0, 'the loop stops while the connection is watched')
			sx.check(len(got) == len(d.received), 'the loop stops with notifications undelivered')
			break
		except Done:
			break
		if x is None:
			sx.reach('idle')
			sx.check(timeout == 'any', 'idle events only with a time-out')
			sx.check(len(got) + len(d._notifies) == len(d.received), 'an idle event with notifications collected and undelivered')
		else:
			sx.reach('event')
			got.append(x)
			sx.check(d.received[:len(got)] == got, 'notifications are delivered once, unaltered and in order')


def tasks(tier):
	deep = tier == 'thorough'
	out = []
	ALL = ('-', '1', '2', '0', '0F', '1F', 'x')
	def add(fn, **k):
		out.append(dict(fn=fn, params=k, mode='int', weight=k.get('waits', 1)))
	for t in (None, 0, 'any'):
		add('loop', n=2, timeout=t, events=3 if deep else 2, waits=2, kinds=ALL if deep else ALL[:2] + ALL[3:], actions=('',))
		add('loop', n=2, timeout=t, events=3, waits=2, kinds=('-', '1', '1F'), actions=('', 'request', 'close'), late=True)
		add('loop', n=1, timeout=t, events=4 if deep else 3, waits=3 if deep else 2, kinds=('-', '1', '0', '0F'),
			actions=('', 'request', 'remove'))
		add('loop', n=1, timeout=t, events=3 if deep else 2, waits=3 if deep else 2, kinds=('-', '1', '0F'), actions=('', 'add', 'timeout') + (('busy',) if t == 0 else ()))
		add('one', timeout=t, events=6 if deep else 4, waits=4 if deep else 2)
		if deep:
			add('loop', n=2, timeout=t, events=4, waits=4, kinds=('-', '1', '0F'), actions=('',))
			add('loop', n=3, timeout=t, events=3, waits=1, kinds=('-', '2', '1F', 'x'), actions=('', 'close'), late=True)
	return out

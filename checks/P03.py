"""P03: COPY wire tracking."""
BOUNDS = ('streams of up to 13 bytes (16 in the thorough tier), every content, cut at every combination of up to 3 places (empty chunks '
	'included); declared message lengths are symbolic over the whole 0 to 2**31-1 range')
OUTSIDE = 'declared message lengths of 2**31 and more'
REACH = ('inside header', 'inside body', 'between messages', 'not copy data', 'impossible length', 'several messages')


class Ref:
	"""byte by byte reference: state and message boundaries of everything seen"""

	def __init__(self):
		self.done = 0
		self.header = None
		self.left = 0
		self.final = None
		self.bad = False

	def feed(self, sx, c):
		if self.final is not None:
			self.final = self.final + bytes([c])
			return
		if self.header is not None:
			self.header = self.header + bytes([c])
			if len(self.header) == 4:
				h = self.header
				n = h[0] * 16777216 + h[1] * 65536 + h[2] * 256 + h[3]
				sx.assume(n < 0x80000000)
				self.header = None
				if n < 4:
					self.bad = True
					return
				self.left = n - 4
				if self.left == 0:
					self.done += 1
			return
		if self.left > 0:
			self.left = self.left - 1
			if self.left == 0:
				self.done += 1
			return
		if c != 100:
			self.final = bytes([c])
			return
		self.header = b''


def run(sx, n, cuts, kind, impl='py'):
	if impl == 'c':
		WireState = sx.optimized().WireState
	else:
		from postgresql.copyman import WireState
	data = sx.bytes('b', n)
	places = sorted(sx.choose('cut%d' % i, n + 1) for i in range(cuts))
	ends = places + [n]
	ws = WireState()
	ref = Ref()
	pos = total = 0
	for end in ends:
		chunk = data[pos:end]
		for c in chunk:
			ref.feed(sx, c)
			if ref.bad:
				break
		pos = end
		if not len(chunk):
			if ref.final is None:
				sx.check(ws.update(memoryview(chunk)) == 0, 'an empty chunk completed messages')
			continue
		try:
			m = ws.update(memoryview(chunk) if kind == 'memoryview' else chunk)
		except ValueError:
			sx.check(ref.bad, 'possible message length refused')
			sx.reach('impossible length')
			return
		sx.check(not ref.bad, 'impossible message length accepted')
		total = total + m
		sx.observe('s', (total, ws.remaining_bytes, None if ws.final_view is None else bytes(ws.final_view)))
		sx.check(total == ref.done, 'number of completed messages differs')
		if ref.done > 1:
			sx.reach('several messages')
		if ref.final is not None:
			sx.check(ws.final_view is not None, 'a message that is not COPY data was overlooked')
			sx.check(sx.same(bytes(ws.final_view), ref.final), 'the first message that is not COPY data begins elsewhere')
			sx.check(ws.remaining_bytes == 0, 'message incomplete at its end')
			sx.reach('not copy data')
			try:
				ws.update(memoryview(b'd'))
			except RuntimeError:
				return
			sx.fail('the tracker went on after the end')
		sx.check(ws.final_view is None, 'COPY data taken for another message')
		if ref.header is not None:
			sx.check(sx.all(ws.remaining_bytes == -1, sx.same(ws.size_fragment, ref.header)), 'position inside the header differs')
			sx.reach('inside header')
		else:
			sx.check(sx.all(ws.remaining_bytes == ref.left, sx.same(ws.size_fragment, b'')), 'missing bytes differ')
			sx.reach('inside body' if not ref.left == 0 else 'between messages')


def tasks(tier):
	big = tier != 'quick'
	r = []
	for cuts, top in ((0, 13), (1, 11), (2, 9), (3, 7)) if not big else ((0, 16), (1, 14), (2, 11), (3, 9)):
		for n in range(1, top + 1):
			if cuts == 1 or n in (top, top - 1, 5):
				r.append(dict(fn='run', params=dict(n=n, cuts=cuts, kind='bytes' if n % 3 == 0 else 'memoryview'), weight=2 ** n * (1 + cuts), validate=10))
				r.append(dict(fn='run', params=dict(n=n, cuts=cuts, kind='memoryview', impl='c'), weight=2 ** n * (1 + cuts), validate=10))
	return r

"""P13: textual bytea codec."""
BOUNDS = ('byte strings up to 4 bytes (3 in the quick tier), every value; texts up to 8 characters (6 in the quick tier) (every code point up to U+00FF and the Unicode '
	'digits up to U+06FF), every text')
OUTSIDE = 'longer data; hex format text (the codec is the escape format)'
REACH = ('round trip', 'text decoded', 'refused')


def roundtrip(sx, n):
	from postgresql.encodings import bytea
	b = sx.bytes('b', n)
	t = bytea.decode(b)
	sx.observe('t', t)
	for c in t:
		sx.check(sx.all(c > ' ', c < '\x7f'), 'text form is not printable')
	back = bytea.encode(t)
	sx.check(sx.same(back, b), 'bytes changed by the trip')
	st, sb = spec(sx, t)
	sx.check(st, 'text form is not valid bytea text')
	sx.check(sx.same(sb, b), 'text form denotes other bytes')
	r = bytea.Codec.decode(b)
	sx.check(sx.same(r[0], t) and r[1] == n, 'Codec.decode differs')
	r = bytea.Codec.encode(t)
	sx.check(sx.same(r[0], b), 'Codec.encode differs')
	sx.reach('round trip')


def spec(sx, t):
	"""PostgreSQL's byteain for the escape format -> (valid, bytes)"""
	out = []
	i = 0
	n = len(t)
	while i < n:
		c = t[i]
		if c != '\\':
			out.append(ord(c))
			i += 1
			continue
		if i + 1 < n and t[i + 1] == '\\':
			out.append(92)
			i += 2
			continue
		if i + 3 >= n:
			return False, b''
		a, b, d = t[i + 1], t[i + 2], t[i + 3]
		if not (sx.all('0' <= a, a <= '3', '0' <= b, b <= '7', '0' <= d, d <= '7')):
			return False, b''
		out.append((ord(a) - 48) * 64 + (ord(b) - 48) * 8 + (ord(d) - 48))
		i += 4
	return True, bytes(out)


def read(sx, n, hi):
	from postgresql.encodings import bytea
	import struct
	t = sx.str('t', n, 1, hi)
	for c in t:
		# characters beyond Latin-1 only where they could be taken for digits
		if hi > 255:
			sx.assume(sx.any(c <= '\xff', sx.all(c >= '\u0660', c <= '\u0669'), sx.all(c >= '\u06f0', c <= '\u06f9')))
	ok, want = True, b''
	try:
		ok, want = spec(sx, t)
	except ValueError:
		ok = False
	try:
		got = bytea.encode(t)
	except (ValueError, struct.error):
		sx.check(not ok, 'valid text refused')
		sx.reach('refused')
		return
	sx.observe('got', got)
	sx.check(ok, 'invalid text accepted')
	sx.check(sx.same(got, want), 'text read as other bytes')
	sx.reach('text decoded')


def tasks(tier):
	big = tier != 'quick'
	r = []
	for n in range(0, 4 if not big else 5):
		r.append(dict(fn='roundtrip', params=dict(n=n), weight=n * n))
	for n in range(0, 7 if not big else 9):
		r.append(dict(fn='read', params=dict(n=n, hi=255), weight=n * n))
	r.append(dict(fn='read', params=dict(n=4, hi=0x6FF), weight=20))
	return r

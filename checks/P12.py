"""P12: bit strings, network addresses, hstore, UUIDs, identifiers and geometry."""
import struct as _struct
import ipaddress
import uuid
BOUNDS = ('bit strings of 0 to 17 bits (every bit and index), slices of 1, 2 and 4 bits with bounds from -4 to one past the end, pairs of operands up to 9 and 8 bits (15 together); every IPv4 and IPv6 '
	'address with every prefix length; every MAC address in each accepted notation; mappings of up to 3 entries with keys and values of up to '
	'2 characters (every character, NULL values); every UUID; every object, transaction, command and tuple identifier, vectors of up to 3; '
	'points, segments, boxes and circles of every double (boxes without NaN)')
OUTSIDE = ('longer values; the text notations of addresses and UUIDs, which the standard library parses (sampled); IPv6 scopes; paths, polygons '
	'and lines, which the driver transfers as text')
ASSUMPTIONS = ('the host bits of a cidr value are zero and the radius of a circle is not negative, as their types demand',)
REACH = ('bits', 'bit index', 'bit index refused', 'bit slice', 'concatenation', 'one bit', 'inet', 'netmask', 'cidr', 'macaddr', 'hstore',
	'hstore null', 'uuid', 'oid', 'tid', 'vector', 'point', 'lseg', 'box', 'circle')
TRUSTED = ('ipaddress and uuid of the standard library run as part of the code',)
ERRORS = (ValueError, TypeError)


def resolve(oid):
	from postgresql.types import io
	r = io.resolve(oid)
	return r[0], r[1]


class _Typio:
	def encode(self, s):
		return s.encode('utf-8')

	def decode(self, b):
		return bytes(b).decode('utf-8')


# bit strings

def packed(sx, s):
	"""wire form of a text of zeros and ones"""
	out = _struct.pack('!l', len(s))
	for i in range(0, len(s), 8):
		v = 0
		for j in range(8):
			v = v * 2 + ((ord(s[i + j]) - 48) if i + j < len(s) else 0)
		out = out + bytes([v])
	return out


def bits(sx, n, bit):
	from postgresql.types import BITOID, VARBITOID
	from postgresql.types.bitwise import Varbit
	pack, unpack = resolve(BITOID if bit else VARBITOID)
	s = sx.str('s', n, alphabet='01')
	v = Varbit(s)
	sx.check(len(v) == n and v.bits == n, 'length changed')
	w = packed(sx, s)
	sx.check(sx.same(pack(v), w), 'bit string sent wrongly')
	u = unpack(w)
	sx.check(len(u) == n, 'length misread')
	sx.check(u == v, 'bit string misread')
	sx.check(sx.same(str(u), s), 'bit string differs from its text')
	sx.check(sx.same(pack(u), w), 'a received bit string is sent differently')
	sx.check(Varbit(v) is v, 'a bit string is taken apart')
	sx.reach('bits')
	if n == 1:
		sx.reach('one bit')


def bits_bytes(sx, n):
	from postgresql.types.bitwise import Varbit
	b = sx.bytes('b', n)
	v = Varbit(b)
	sx.check(len(v) == 8 * n, 'wrong length')
	for i in range(8 * n):
		sx.check(sx.same(str(v)[i], '1' if (b[i // 8] >> (7 - i % 8)) & 1 else '0'), 'bits differ from the bytes')


def bits_index(sx, n):
	from postgresql.types.bitwise import Varbit, OneBit, ZeroBit
	s = sx.str('s', n, alphabet='01')
	v = Varbit(s)
	i = sx.int('i', -2**31, 2**31 - 1)
	for f in (v.getbit, v.__getitem__):
		try:
			got = f(i)
		except IndexError:
			sx.check(sx.any(i < -n, i >= n), 'a valid index is refused')
			sx.reach('bit index refused')
			continue
		sx.check(sx.all(i >= -n, i < n), 'an invalid index is accepted')
		sx.check(got is OneBit or got is ZeroBit, 'not a bit')
		for k in range(-n, n):
			if i == k:
				sx.check(sx.same(s[k], '1' if got is OneBit else '0'), 'index finds another bit')
				sx.check(sx.same(str(got), s[k]), 'text of a bit')
		sx.reach('bit index')


def bits_slice(sx, n, parts):
	from postgresql.types.bitwise import Varbit
	s = sx.str('s', n, alphabet='01')
	v = Varbit(s)
	b = [sx.pin(sx.int('b%d' % i, -4, n + 1)) if p else None for i, p in enumerate(parts)]
	if b[2] == 0:
		return
	c = slice(*b)
	got = v[c]
	sx.check(isinstance(got, Varbit) and sx.same(str(got), s[c]), 'slice differs from the slice of the text')
	sx.check(len(got) == len(s[c]), 'length of a slice')
	sx.reach('bit slice')


def bits_cat(sx, n, m):
	from postgresql.types.bitwise import Varbit
	s, t = sx.str('s', n, alphabet='01'), sx.str('t', m, alphabet='01')
	a, b = Varbit(s), Varbit(t)
	sx.check(sx.same(str(a + b), s + t), 'concatenation differs from the texts')
	sx.check(len(a + b) == n + m, 'length of a concatenation')
	sx.check((a + b) == Varbit(s + t), 'concatenation differs from the texts')
	sx.check(sx.same(str(a * 2), s + s), 'repetition differs from the text')
	e = a == b
	sx.check(e if n == m and s == t else sx.neg(e), 'comparison differs from that of the texts')
	sx.reach('concatenation')


# network addresses

def inet(sx, v6, given):
	from postgresql.types import INETOID
	pack, unpack = resolve(INETOID)
	n = 16 if v6 else 4
	raw = sx.bytes('a', n)
	full = 8 * n
	p = full if given == 'address' else sx.pin(sx.int('p', 0, full))
	v = ipaddress.ip_address(raw) if given == 'address' else ipaddress.ip_interface((raw, p))
	w = bytes([3 if v6 else 2, p, 0, n]) + raw
	sx.check(sx.same(pack(v), w), 'address sent wrongly')
	u = unpack(w)
	sx.check(sx.same(u.packed, raw), 'address misread')
	sx.check(u.version == (6 if v6 else 4), 'wrong version')
	if p != full:
		sx.check(u.network.prefixlen == p, 'netmask lost')
		sx.reach('netmask')
	else:
		sx.check(u == ipaddress.ip_address(raw), 'address misread')
	sx.check(sx.same(pack(u), w), 'a received address is sent differently')
	sx.reach('inet')


def cidr(sx, v6):
	from postgresql.types import CIDROID
	pack, unpack = resolve(CIDROID)
	n = 16 if v6 else 4
	raw = sx.bytes('a', n)
	p = sx.pin(sx.int('p', 0, 8 * n))
	x = 0
	for b in raw:
		x = x * 256 + b
	sx.assume(x % (1 << (8 * n - p)) == 0)
	v = ipaddress.ip_network((raw, p))
	w = bytes([3 if v6 else 2, p, 1, n]) + raw
	sx.check(sx.same(pack(v), w), 'network sent wrongly')
	u = unpack(w)
	sx.check(sx.same(u.network_address.packed, raw), 'network misread')
	sx.check(u.prefixlen == p, 'prefix length misread')
	sx.check(u.version == (6 if v6 else 4), 'wrong version')
	sx.check(sx.same(pack(u), w), 'a received network is sent differently')
	sx.reach('cidr')


def text_address(sx, text, wire):
	from postgresql.types import INETOID, CIDROID
	if wire[2]:
		pack, unpack = resolve(CIDROID)
	else:
		pack, unpack = resolve(INETOID)
	sx.check(pack(text) == bytes(wire), 'address sent wrongly')
	sx.check(pack(str(unpack(bytes(wire)))) == bytes(wire), 'address misread')


MAC = (('xx:xx:xx:xx:xx:xx'), ('xx-xx-xx-xx-xx-xx'), ('xxxxxx:xxxxxx'), ('xxxxxx-xxxxxx'), ('xxxx.xxxx.xxxx'), ('xxxxxxxxxxxx'))


def macaddr(sx, form, at):
	from postgresql.types import MACADDROID
	pack, unpack = resolve(MACADDROID)
	digits = ''
	for i in range(6):
		d = sx.str('d%d' % i, 2, alphabet='0123456789abcdefABCDEF') if i in (at, at + 3) else '%x%X' % (15 - i, i + 9)
		digits = digits + d
	t, k = '', 0
	for c in MAC[form]:
		if c == 'x':
			t = t + digits[k]
			k += 1
		else:
			t = t + c

	def val(c):
		c = ord(c)
		return sx.ite(c >= 97, c - 87, sx.ite(c >= 65, c - 55, c - 48))
	w = bytes([val(digits[2 * i]) * 16 + val(digits[2 * i + 1]) for i in range(6)])
	sx.check(sx.same(pack(t), w), 'MAC address sent wrongly')
	sx.reach('macaddr')


def macaddr_in(sx, at):
	from postgresql.types import MACADDROID
	pack, unpack = resolve(MACADDROID)
	w = bytes([17, 0, 255, 16, 9, 160][:at]) + sx.bytes('b', 1) + bytes([17, 0, 255, 16, 9, 160][at + 1:])
	u = unpack(w)
	want = ''
	for i, b in enumerate(w):
		for d in (b >> 4, b & 15):
			want = want + chr(sx.ite(d < 10, d + 48, d + 87))
		if i < 5:
			want = want + ':'
	sx.check(sx.same(u, want), 'MAC address misread')
	sx.check(sx.same(pack(u), w), 'a received MAC address is sent differently')


# hstore

def hstore(sx, shape, text):
	"""shape: (length of the key, length of the value or -1)"""
	from postgresql.types.io.contrib_hstore import hstore_factory
	pack, unpack = hstore_factory(0, _Typio())[:2]
	d = {}
	ks = []
	w = _struct.pack('!L', len(shape))
	hi = 0x7f if text == 'ascii' else 0x10FFFF
	for i, (a, b) in enumerate(shape):
		k = sx.str('k%d' % i, a, 1, hi)
		for o in ks:
			sx.assume(sx.neg(sx.same(k, o)))
		ks.append(k)
		v = sx.str('v%d' % i, b, 1, hi) if b >= 0 else None
		d[k] = v
		ke = k.encode('utf-8')
		w = w + _struct.pack('!L', len(ke)) + ke
		if v is None:
			w = w + b'\xff\xff\xff\xff'
			sx.reach('hstore null')
		else:
			ve = v.encode('utf-8')
			w = w + _struct.pack('!L', len(ve)) + ve
	sx.check(sx.same(pack(d), w), 'mapping sent wrongly')
	sx.check(sx.same(pack(list(d.items())), w), 'pairs sent wrongly')
	sx.check(sx.same(unpack(w), d), 'mapping misread')
	sx.reach('hstore')


# identifiers

def uuids(sx):
	from postgresql.types import UUIDOID
	pack, unpack = resolve(UUIDOID)
	raw = sx.bytes('u', 16)
	u = uuid.UUID(bytes=raw)
	sx.check(sx.same(pack(u), raw), 'UUID sent wrongly')
	r = unpack(raw)
	sx.check(isinstance(r, uuid.UUID) and sx.same(r.bytes, raw), 'UUID misread')
	sx.check(r == u, 'UUID misread')
	t = '0123abcd-4567-89ab-cdef-0123456789ab'
	sx.check(pack(t) == bytes.fromhex(t.replace('-', '')), 'UUID text sent wrongly')
	sx.reach('uuid')


def ids(sx, name):
	from postgresql import types as T
	pack, unpack = resolve(getattr(T, name))
	v = sx.int('v', 0, 2**32 - 1)
	w = _struct.pack('!L', v)
	sx.check(sx.same(pack(v), w), 'identifier sent wrongly')
	sx.check(sx.same(unpack(w), v), 'identifier misread')
	sx.reach('oid')


def tid(sx):
	from postgresql.types import TIDOID
	pack, unpack = resolve(TIDOID)
	b, o = sx.int('b', 0, 2**32 - 1), sx.int('o', 0, 65535)
	w = _struct.pack('!L', b) + _struct.pack('!H', o)
	sx.check(sx.same(pack((b, o)), w), 'tuple identifier sent wrongly')
	sx.check(sx.same(tuple(unpack(w)), (b, o)), 'tuple identifier misread')
	sx.reach('tid')


def vector(sx, kind, n):
	from postgresql.types.io import lib
	if kind == 'oid':
		vs = [sx.int('v%d' % i, 0, 2**32 - 1) for i in range(n)]
		ws, oid, f = [_struct.pack('!L', v) for v in vs], 26, (lib.oidvector_pack, lib.oidvector_unpack)
	else:
		vs = [sx.int('v%d' % i, -2**15, 2**15 - 1) for i in range(n)]
		ws, oid, f = [_struct.pack('!h', v) for v in vs], 21, (lib.int2vector_pack, lib.int2vector_unpack)
	w = _struct.pack('!llLll', 1, 0, oid, n, 0)
	for x in ws:
		w = w + _struct.pack('!l', len(x)) + x
	sx.check(sx.same(f[0](vs), w), 'vector sent wrongly')
	sx.check(sx.same(list(f[1](w)), vs), 'vector misread')
	sx.reach('vector')


# geometry

def doubles(sx, n, nan=True):
	out = []
	for i in range(n):
		f = sx.float_bits('f%d' % i)
		if not nan:
			sx.assume(f == f)
		out.append(f)
	return out


def dpack(*fs):
	w = b''
	for f in fs:
		w = w + _struct.pack('!d', f)
	return w


def point(sx):
	from postgresql.types import POINTOID
	from postgresql.types.geometry import Point
	pack, unpack = resolve(POINTOID)
	x, y = doubles(sx, 2)
	w = dpack(x, y)
	p = Point((x, y))
	sx.check(sx.same((p.x, p.y), (x, y)), 'coordinates changed')
	sx.check(sx.same(pack(p), w) and sx.same(pack((x, y)), w), 'point sent wrongly')
	r = unpack(w)
	sx.check(isinstance(r, Point) and sx.same(tuple(r), (x, y)), 'point misread')
	sx.check(sx.same(pack(r), w), 'a received point is sent differently')
	sx.reach('point')


def lseg(sx):
	from postgresql.types import LSEGOID
	from postgresql.types.geometry import Lseg
	pack, unpack = resolve(LSEGOID)
	a, b, c, d = doubles(sx, 4)
	w = dpack(a, b, c, d)
	v = Lseg(((a, b), (c, d)))
	sx.check(sx.same(tuple(v.one), (a, b)) and sx.same(tuple(v.two), (c, d)), 'ends of the segment changed')
	sx.check(sx.same(pack(v), w), 'segment sent wrongly')
	r = unpack(w)
	sx.check(isinstance(r, Lseg) and sx.same((tuple(r[0]), tuple(r[1])), ((a, b), (c, d))), 'segment misread')
	sx.check(sx.same(pack(r), w), 'a received segment is sent differently')
	sx.reach('lseg')


def box(sx):
	from postgresql.types import BOXOID
	from postgresql.types.geometry import Box
	pack, unpack = resolve(BOXOID)
	a, b, c, d = doubles(sx, 4, False)
	v = Box(((a, b), (c, d)))
	hx, lx = (a, c) if a > c else (c, a)
	hy, ly = (b, d) if b > d else (d, b)
	sx.check(sx.all(v.high.x == hx, v.high.y == hy, v.low.x == lx, v.low.y == ly), 'corners of the box misplaced')
	sx.check(sx.same(pack(v), dpack(v.high.x, v.high.y, v.low.x, v.low.y)), 'box sent wrongly')
	# what a server sends has the high corner first
	w = dpack(hx, hy, lx, ly)
	r = unpack(w)
	sx.check(isinstance(r, Box) and sx.all(r.high.x == hx, r.high.y == hy, r.low.x == lx, r.low.y == ly), 'box misread')
	sx.reach('box')


def circle(sx):
	from postgresql.types import CIRCLEOID
	from postgresql.types.geometry import Circle
	pack, unpack = resolve(CIRCLEOID)
	x, y, r = doubles(sx, 3)
	w = dpack(x, y, r)
	if r < 0:
		for f in (lambda: Circle(((x, y), r)), lambda: unpack(w)):
			try:
				f()
			except ValueError:
				pass
			else:
				sx.fail('negative radius accepted')
		return
	v = Circle(((x, y), r))
	sx.check(sx.same(pack(v), w), 'circle sent wrongly')
	u = unpack(w)
	sx.check(isinstance(u, Circle) and sx.same((u.center.x, u.center.y, u.radius), (x, y, r)), 'circle misread')
	sx.reach('circle')


def tasks(tier):
	deep = tier == 'thorough'
	out = []
	for n in range(0, 18 if not deep else 26):
		out.append({'fn': 'bits', 'params': {'n': n, 'bit': n % 2 == 1}, 'weight': 2 ** (n // 8)})
	for n in range(0, 2):
		out.append({'fn': 'bits_bytes', 'params': {'n': n}})
	for n in (0, 1, 2, 7, 8, 9, 16, 17):
		out.append({'fn': 'bits_index', 'params': {'n': n}, 'weight': n})
	for n in (1, 2, 4) if not deep else (1, 2, 4, 5, 9):
		for p in ([1, 1, 0], [1, 0, 1], [0, 1, 1], [0, 0, 1]):
			out.append({'fn': 'bits_slice', 'params': {'n': n, 'parts': p}, 'weight': n * 2})
	for n in (0, 1, 2, 7, 8, 9):
		for m in (0, 1, 3, 8):
			if n + m < 16 or deep:
				out.append({'fn': 'bits_cat', 'params': {'n': n, 'm': m}, 'weight': n + m})
	for v6 in (False, True):
		for g in ('address', 'interface'):
			out.append({'fn': 'inet', 'params': {'v6': v6, 'given': g}, 'weight': 20})
		out.append({'fn': 'cidr', 'params': {'v6': v6}, 'weight': 20})
	for t, w in (('1.2.3.4', [2, 32, 0, 4, 1, 2, 3, 4]), ('10.1.2.3/9', [2, 9, 0, 4, 10, 1, 2, 3]), ('::1', [3, 128, 0, 16] + [0] * 15 + [1]),
			('fe80::/10', [3, 10, 1, 16, 0xfe, 0x80] + [0] * 14), ('10.0.0.0/8', [2, 8, 1, 4, 10, 0, 0, 0])):
		out.append({'fn': 'text_address', 'params': {'text': t, 'wire': w}})
	for f in range(len(MAC)):
		for a in range(3):
			out.append({'fn': 'macaddr', 'params': {'form': f, 'at': a}, 'weight': 5})
	for a in range(6):
		out.append({'fn': 'macaddr_in', 'params': {'at': a}})
	for text in ('ascii', 'all'):
		for shape in ([], [[1, 1]], [[2, 0]], [[0, 2]], [[1, -1]], [[1, 1], [1, -1]], [[1, 0], [0, 1]], [[1, 1], [2, 1]]):
			if text == 'ascii' or sum(a + max(b, 0) for a, b in shape) < 4:
				out.append({'fn': 'hstore', 'params': {'shape': shape, 'text': text}, 'weight': 9})
		if text == 'ascii':
			out.append({'fn': 'hstore', 'params': {'shape': [[1, 1], [1, -1], [1, 2]], 'text': text}, 'weight': 9})
	out.append({'fn': 'uuids'})
	for n in ('OIDOID', 'XIDOID', 'CIDOID'):
		out.append({'fn': 'ids', 'params': {'name': n}})
	out.append({'fn': 'tid'})
	for n in range(4):
		out.append({'fn': 'vector', 'params': {'kind': 'oid', 'n': n}})
		out.append({'fn': 'vector', 'params': {'kind': 'int2', 'n': n}})
	for f in ('point', 'lseg', 'box', 'circle'):
		out.append({'fn': f})
	return out

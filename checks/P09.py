"""P09: dates and times."""
import struct as _struct
import datetime as _dt
BOUNDS = ('integer formats: every date, time, datetime, UTC offset (to the second) and interval Python can represent, and every 32 and 64 bit '
	'value a server can send; floating point formats: every time of day, timestamps within 2**31 seconds of 2000-01-01 and intervals of up to '
	'2**31 seconds, every microsecond')
OUTSIDE = ('floating point values further away, where a double does not hold the microsecond; time zones with daylight saving; 24:00:00, '
	'which datetime.time cannot represent; the warning given for intervals with months')
ASSUMPTIONS = ('the first and last date and datetime of Python stand for -infinity and infinity, as the driver documents',)
REACH = ('date', 'date in', 'timestamp', 'timestamp in', 'timestamptz', 'timestamptz in', 'time', 'time in', 'timetz', 'timetz in',
	'interval', 'interval in', 'infinite', 'refused')
TRUSTED = ('model of datetime arithmetic (sx/dt.py)', 'double rounding as a bounded error (sx/reals.py)')
EPOCH = _dt.date(2000, 1, 1).toordinal()
MAXORD = _dt.date.max.toordinal()
M = 1000000
DAY = 86400
LIM = 1 << 31


class _Zone(_dt.tzinfo):
	def __init__(self, off):
		self.off = _dt.timedelta(0, off)

	def utcoffset(self, x):
		return self.off

	def dst(self, x):
		return _dt.timedelta(0)

	def tzname(self, x):
		return None


class _Db:
	def __init__(self, ints, old):
		self.settings = {'integer_datetimes': 'on' if ints else 'off'}
		self.version_info = (8, 0, 3, 'final', 0) if old else (8, 4, 0, 'final', 0)


class _Typio:
	def __init__(self, ints, old):
		self.database = _Db(ints, old)


def io(oid, ints=True, old=False):
	from postgresql.types.io import stdlib_datetime as m
	x = m.oid_to_io[oid]
	if callable(x):
		x = x(oid, _Typio(ints, old))
	return x[0], x[1]


def wall(sx, p, ints):
	"""an ordinal, a second of the day and a microsecond"""
	o = sx.int(p + 'day', 1, MAXORD) if ints else sx.int(p + 'day', EPOCH - LIM // DAY, EPOCH + LIM // DAY)
	s, u = sx.int(p + 'sec', 0, DAY - 1), sx.int(p + 'us', 0, M - 1)
	return o, s, u, _dt.datetime.fromordinal(o) + _dt.timedelta(0, s, u)


def near(sx, v, sec, us):
	d = (sx.exact(v) - sec) * M - us
	return sx.all(d * 5 < 2, d * 5 > -2)


def fields(t):
	d = t.replace(tzinfo=None) - _dt.datetime(2000, 1, 1)
	return d.days + EPOCH, d.seconds, d.microseconds


def extreme(sx, o, s, u):
	return sx.any(sx.all(o == 1, s == 0, u == 0), sx.all(o == MAXORD, s == DAY - 1, u == M - 1))


def date(sx):
	from postgresql.types import DATEOID
	pack, unpack = io(DATEOID)
	o = sx.int('day', 1, MAXORD)
	data = pack(_dt.date.fromordinal(o))
	if sx.any(o == 1, o == MAXORD):
		sx.check(sx.same(data, b'\x7f\xff\xff\xff' if o == MAXORD else b'\x80\0\0\0'), 'wrong infinity sent')
		sx.reach('infinite')
	else:
		sx.check(len(data) == 4 and _struct.unpack('!l', data)[0] == o - EPOCH, 'wrong day sent')
	got = unpack(data)
	sx.check(type(got) is _dt.date and got.toordinal() == o, 'date changed by the trip')
	sx.reach('date')


def date_in(sx):
	from postgresql.types import DATEOID
	pack, unpack = io(DATEOID)
	v = sx.int('v', -(1 << 31), (1 << 31) - 1)
	try:
		got = unpack(_struct.pack('!l', v))
	except (ValueError, OverflowError):
		sx.check(sx.any(v + EPOCH < 1, v + EPOCH > MAXORD), 'a representable date was refused')
		sx.reach('refused')
		return
	if v == (1 << 31) - 1:
		sx.check(got == _dt.date.max, 'wrong infinity')
	elif v == -(1 << 31):
		sx.check(got == _dt.date.min, 'wrong infinity')
	else:
		sx.check(got.toordinal() == v + EPOCH, 'date misread')
	sx.reach('date in')


def timestamp(sx, ints):
	from postgresql.types import TIMESTAMPOID
	pack, unpack = io(TIMESTAMPOID, ints)
	o, s, u, x = wall(sx, '', ints)
	data = pack(x)
	sx.check(len(data) == 8, 'timestamp of a wrong size')
	if ints:
		if extreme(sx, o, s, u):
			sx.check(sx.same(data, b'\x80' + b'\0' * 7 if o == 1 else b'\x7f' + b'\xff' * 7), 'wrong infinity sent')
			sx.reach('infinite')
		else:
			sx.check(_struct.unpack('!q', data)[0] == ((o - EPOCH) * DAY + s) * M + u, 'wrong timestamp sent')
	else:
		sx.check(near(sx, _struct.unpack('!d', data)[0], (o - EPOCH) * DAY + s, u), 'wrong timestamp sent')
	got = unpack(data)
	sx.check(got.tzinfo is None, 'a timestamp without time zone got one')
	a, b, c = fields(got)
	sx.check(sx.all(a == o, b == s, c == u), 'timestamp changed by the trip')
	sx.reach('timestamp')


def in_range(sx, v):
	return sx.all(v >= (1 - EPOCH) * DAY * M, v < (MAXORD + 1 - EPOCH) * DAY * M)


def timestamp_in(sx, tz):
	from postgresql.types import TIMESTAMPOID, TIMESTAMPTZOID
	pack, unpack = io(TIMESTAMPTZOID if tz else TIMESTAMPOID)
	v = sx.int('v', -(1 << 63), (1 << 63) - 1)
	try:
		got = unpack(_struct.pack('!q', v))
	except (ValueError, OverflowError):
		sx.check(sx.neg(in_range(sx, v)), 'a representable timestamp was refused')
		sx.reach('refused')
		return
	a, b, c = fields(got)
	if v == (1 << 63) - 1:
		sx.check(sx.all(a == MAXORD, b == DAY - 1, c == M - 1), 'wrong infinity')
	elif v == -(1 << 63):
		sx.check(sx.all(a == 1, b == 0, c == 0), 'wrong infinity')
	else:
		sx.check(((a - EPOCH) * DAY + b) * M + c == v, 'timestamp misread')
		if tz:
			sx.check(got.tzinfo is not None and got.utcoffset() == _dt.timedelta(0), 'not in UTC')
	sx.reach('timestamptz in' if tz else 'timestamp in')


def timestamptz(sx, ints):
	from postgresql.types import TIMESTAMPTZOID
	pack, unpack = io(TIMESTAMPTZOID, ints)
	o, s, u, x = wall(sx, '', ints)
	off = sx.int('off', -DAY + 1, DAY - 1)
	x = x.replace(tzinfo=_Zone(off))
	sec = (o - EPOCH) * DAY + s - off
	try:
		data = pack(x)
	except OverflowError:
		sx.check(sx.neg(in_range(sx, sec * M)), 'a representable instant was refused')
		sx.reach('refused')
		return
	sx.check(len(data) == 8, 'timestamp of a wrong size')
	if ints:
		sx.check(_struct.unpack('!q', data)[0] == sec * M + u, 'wrong instant sent')
	else:
		sx.check(near(sx, _struct.unpack('!d', data)[0], sec, u), 'wrong instant sent')
	got = unpack(data)
	a, b, c = fields(got)
	sx.check(got.tzinfo is not None and got.utcoffset() == _dt.timedelta(0), 'not in UTC')
	sx.check(sx.all((a - EPOCH) * DAY + b == sec, c == u), 'not the same instant after the trip')
	sx.reach('timestamptz')


def clock(sx):
	h, m, s, u = sx.int('h', 0, 23), sx.int('m', 0, 59), sx.int('s', 0, 59), sx.int('u', 0, M - 1)
	return h, m, s, u, _dt.time(h, m, s, u)


def time(sx, ints):
	from postgresql.types import TIMEOID
	pack, unpack = io(TIMEOID, ints)
	h, m, s, u, x = clock(sx)
	data = pack(x)
	sec = h * 3600 + m * 60 + s
	sx.check(len(data) == 8, 'time of a wrong size')
	if ints:
		sx.check(_struct.unpack('!q', data)[0] == sec * M + u, 'wrong time sent')
	else:
		sx.check(near(sx, _struct.unpack('!d', data)[0], sec, u), 'wrong time sent')
	got = unpack(data)
	sx.check(sx.all(got.hour == h, got.minute == m, got.second == s, got.microsecond == u), 'time changed by the trip')
	sx.check(got.tzinfo is None, 'a time without time zone got one')
	sx.reach('time')


def time_in(sx, tz):
	from postgresql.types import TIMEOID, TIMETZOID
	pack, unpack = io(TIMETZOID if tz else TIMEOID)
	v = sx.int('v', -(1 << 63), (1 << 63) - 1)
	data = _struct.pack('!q', v)
	if tz:
		z = sx.int('z', -DAY + 1, DAY - 1)
		data = data + _struct.pack('!l', z)
	try:
		got = unpack(data)
	except (ValueError, OverflowError):
		sx.check(sx.any(v < 0, v >= DAY * M), 'a representable time was refused')
		sx.reach('refused')
		return
	sx.check(((got.hour * 60 + got.minute) * 60 + got.second) * M + got.microsecond == v, 'time misread')
	if tz:
		d = got.utcoffset()
		# PostgreSQL sends the seconds west of UTC
		sx.check(d.days * DAY + d.seconds == -z, 'time zone misread')
		sx.check(d.microseconds == 0, 'time zone misread')
	sx.reach('timetz in' if tz else 'time in')


def timetz(sx, ints):
	from postgresql.types import TIMETZOID
	pack, unpack = io(TIMETZOID, ints)
	h, m, s, u, x = clock(sx)
	off = sx.int('off', -DAY + 1, DAY - 1)
	data = pack(x.replace(tzinfo=_Zone(off)))
	sec = h * 3600 + m * 60 + s
	sx.check(len(data) == 12, 'time with time zone of a wrong size')
	if ints:
		sx.check(_struct.unpack('!q', data[:8])[0] == sec * M + u, 'wrong time sent')
	else:
		sx.check(near(sx, _struct.unpack('!d', data[:8])[0], sec, u), 'wrong time sent')
	sx.check(_struct.unpack('!l', data[8:])[0] == -off, 'wrong time zone sent')
	got = unpack(data)
	sx.check(sx.all(got.hour == h, got.minute == m, got.second == s, got.microsecond == u), 'time changed by the trip')
	d = got.utcoffset()
	sx.check(d.days * DAY + d.seconds == off, 'time zone changed by the trip')
	sx.reach('timetz')


def interval(sx, ints, old):
	from postgresql.types import INTERVALOID
	pack, unpack = io(INTERVALOID, ints, old)
	top = (999999999 if not old else 106751990) if ints else (LIM // DAY if old else 999999999)
	d, s, u = sx.int('d', -top, top), sx.int('s', 0, DAY - 1), sx.int('u', 0, M - 1)
	x = _dt.timedelta(d, s, u)
	data = pack(x)
	sx.check(len(data) == (12 if old else 16), 'interval of a wrong size')
	total = s + (d * DAY if old else 0)
	if ints:
		sx.check(_struct.unpack('!q', data[:8])[0] == total * M + u, 'wrong time sent')
	else:
		sx.check(near(sx, _struct.unpack('!d', data[:8])[0], total, u), 'wrong time sent')
	if old:
		sx.check(sx.same(data[8:], b'\0\0\0\0'), 'wrong months sent')
	else:
		sx.check(_struct.unpack('!l', data[8:12])[0] == d, 'wrong days sent')
		sx.check(sx.same(data[12:], b'\0\0\0\0'), 'wrong months sent')
	got = unpack(data)
	sx.check(sx.all(got.days == d, got.seconds == s, got.microseconds == u), 'interval changed by the trip')
	sx.reach('interval')


def interval_in(sx, old):
	from postgresql.types import INTERVALOID
	pack, unpack = io(INTERVALOID, True, old)
	v = sx.int('v', -(1 << 63), (1 << 63) - 1)
	d = 0 if old else sx.int('d', -(1 << 31), (1 << 31) - 1)
	data = _struct.pack('!q', v) + (b'' if old else _struct.pack('!l', d)) + b'\0\0\0\0'
	total = d * DAY * M + v
	try:
		got = unpack(data)
	except (ValueError, OverflowError):
		sx.check(sx.any(total < -999999999 * DAY * M, total >= 1000000000 * DAY * M), 'a representable interval was refused')
		sx.reach('refused')
		return
	sx.check((got.days * DAY + got.seconds) * M + got.microseconds == total, 'interval misread')
	sx.reach('interval in')


def special(sx):
	"""the words for infinity; servers that do not say which format they use"""
	from postgresql.types.io import stdlib_datetime as m
	from postgresql.types import TIMESTAMPOID, TIMESTAMPTZOID, DATEOID
	word = sx.choose('word', ['infinity', '-infinity'])
	neg = word[0] == '-'
	ints = sx.choose('ints', [True, False])
	for oid in (TIMESTAMPOID, TIMESTAMPTZOID):
		pack, unpack = io(oid, ints)
		w = (b'\x80' + b'\0' * 7 if neg else b'\x7f' + b'\xff' * 7) if ints else (b'\xff\xf0' if neg else b'\x7f\xf0') + b'\0' * 6
		sx.check(pack(word) == w, 'wrong infinity sent')
		x = unpack(w)
		sx.check(x == (_dt.datetime.min if neg else _dt.datetime.max), 'infinity misread')
		sx.check(pack(x) == w, 'infinity changed by the trip')
	pack, unpack = io(DATEOID)
	w = b'\x80\0\0\0' if neg else b'\x7f\xff\xff\xff'
	sx.check(pack(word) == w and unpack(w) == (_dt.date.min if neg else _dt.date.max), 'infinite date changed')
	t = _Typio(ints, False)
	for v, want in ((True, True), (False, False), ('on', True), ('ON', True), ('off', False), ('t', True), ('false', False)):
		t.database.settings = {'integer_datetimes': v}
		sx.check(m.time_type(t) is want, 'wrong server format assumed')
	t.database.settings = {}
	for v, want in (((9, 0, 0), True), ((8, 4, 0), False), ((14, 1), True)):
		t.database.version_info = v
		sx.check(m.time_type(t) is want, 'wrong server format assumed')


def tasks(tier):
	r = []
	for fn, ps in (('date', [{}]), ('date_in', [{}]), ('timestamp', [dict(ints=True), dict(ints=False)]),
			('timestamptz', [dict(ints=True), dict(ints=False)]), ('timestamp_in', [dict(tz=False), dict(tz=True)]),
			('time', [dict(ints=True), dict(ints=False)]), ('timetz', [dict(ints=True), dict(ints=False)]),
			('time_in', [dict(tz=False), dict(tz=True)]), ('interval_in', [dict(old=False), dict(old=True)]),
			('interval', [dict(ints=a, old=b) for a in (True, False) for b in (True, False)]), ('special', [{}])):
		for p in ps:
			r.append(dict(fn=fn, params=p, mode='int', abstract=p.get('ints') is False, validate=30))
	return r

"""datetime.date, time, datetime and timedelta with symbolic fields."""
import datetime as D
from . import core
from .values import Sym, SymInt, SymBool, is_sym, intlike, sand, as_zbool, mkbool

__sx_transformed__ = True
NATIVE = (D.date, D.time, D.timedelta)
DAY = 86400
MAXORD = D.date.max.toordinal()


def _bad(self, *a, **k):
	core.E.unsupported('operation on a symbolic date or time')


def deep(x):
	if is_sym(x):
		return True
	d = getattr(x, '__dict__', None)
	return bool(d) and any(is_sym(v) for v in d.values())


class SymTimedelta(Sym):
	__slots__ = ('days', 'seconds', 'microseconds')

	def __init__(self, d, s, u):
		self.days, self.seconds, self.microseconds = d, s, u

	@property
	def __class__(self):
		return D.timedelta

	@staticmethod
	def norm(d, s, u):
		c, u = divmod(u, 1000000)
		s = s + c
		c, s = divmod(s, DAY)
		d = d + c
		if not sand(d >= -999999999, d <= 999999999):
			raise OverflowError('days=%d; must have magnitude <= 999999999')
		if type(d) is SymInt:
			d = SymInt.make(d.e, max(d.lo, -999999999), min(d.hi, 999999999))
		if not any(is_sym(x) for x in (d, s, u)):
			return D.timedelta(d, s, u)
		return SymTimedelta(d, s, u)

	@staticmethod
	def of(x):
		if type(x) is SymTimedelta:
			return x
		if isinstance(x, D.timedelta):
			return SymTimedelta(x.days, x.seconds, x.microseconds)
		return None

	def __add__(self, o):
		if isinstance(o, D.datetime):
			return SymDatetime.of(o) + self
		o = SymTimedelta.of(o)
		if o is None:
			return NotImplemented
		return SymTimedelta.norm(self.days + o.days, self.seconds + o.seconds, self.microseconds + o.microseconds)
	__radd__ = __add__

	def __sub__(self, o):
		o = SymTimedelta.of(o)
		if o is None:
			return NotImplemented
		return SymTimedelta.norm(self.days - o.days, self.seconds - o.seconds, self.microseconds - o.microseconds)

	def __rsub__(self, o):
		if isinstance(o, D.datetime):
			return SymDatetime.of(o) - self
		o = SymTimedelta.of(o)
		return NotImplemented if o is None else o - self

	def __neg__(self):
		return SymTimedelta.norm(-self.days, -self.seconds, -self.microseconds)

	def __pos__(self):
		return self

	def __abs__(self):
		return -self if self.days < 0 else self

	def __mul__(self, o):
		if type(o) is not int and type(o) is not SymInt:
			core.E.unsupported('timedelta times a float')
		return SymTimedelta.norm(self.days * o, self.seconds * o, self.microseconds * o)
	__rmul__ = __mul__

	def total(self):
		return (self.days * DAY + self.seconds) * 1000000 + self.microseconds

	def total_seconds(self):
		if core.E.mode != 'int':
			core.E.unsupported('total_seconds')
		return self.total() / 1000000

	def __floordiv__(self, o):
		t = self.total()
		if isinstance(o, D.timedelta):
			o = SymTimedelta.of(o).total()
			return t // o
		q = t // o
		return SymTimedelta.norm(0, 0, q)

	def __mod__(self, o):
		return SymTimedelta.norm(0, 0, self.total() % SymTimedelta.of(o).total())

	def __divmod__(self, o):
		return self // o, self % o

	def __truediv__(self, o):
		if isinstance(o, D.timedelta) and core.E.mode == 'int':
			return self.total() / SymTimedelta.of(o).total()
		core.E.unsupported('timedelta division')

	def _c(self, o, op):
		o = SymTimedelta.of(o)
		if o is None:
			return NotImplemented
		return getattr(self.total(), op)(o.total()) if is_sym(self.total()) else getattr(o.total(), {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}[op])(self.total())

	def __eq__(self, o):
		o = SymTimedelta.of(o)
		if o is None:
			return False
		return sand(self.days == o.days, self.seconds == o.seconds, self.microseconds == o.microseconds)

	def __ne__(self, o):
		r = self == o
		return mkbool(__import__('z3').Not(r.e)) if type(r) is SymBool else not r

	def __lt__(self, o):
		return self._c(o, '__lt__')

	def __le__(self, o):
		return self._c(o, '__le__')

	def __gt__(self, o):
		return self._c(o, '__gt__')

	def __ge__(self, o):
		return self._c(o, '__ge__')

	def __bool__(self):
		return not (self == D.timedelta(0))

	def __repr__(self):
		return '<SymTimedelta>'
	__hash__ = Sym.__hash__
	__str__ = _bad


class SymDate(Sym):
	__slots__ = ('ord',)

	def __init__(self, o):
		self.ord = o

	@property
	def __class__(self):
		return D.date

	@staticmethod
	def make(o):
		if not sand(o >= 1, o <= MAXORD):
			raise ValueError('ordinal must be in range')
		if type(o) is not SymInt:
			return D.date.fromordinal(o)
		return SymDate(SymInt.make(o.e, max(o.lo, 1), min(o.hi, MAXORD)))

	@staticmethod
	def of(x):
		if type(x) is SymDate:
			return x
		if isinstance(x, D.date) and not isinstance(x, D.datetime):
			return SymDate(x.toordinal())
		return None

	def toordinal(self):
		return self.ord

	def weekday(self):
		return (self.ord + 6) % 7

	def isoweekday(self):
		return self.ord % 7 or 7

	def __add__(self, o):
		if not isinstance(o, D.timedelta):
			return NotImplemented
		n = self.ord + o.days
		if not sand(n >= 1, n <= MAXORD):
			raise OverflowError('date value out of range')
		return SymDate.make(n)
	__radd__ = __add__

	def __sub__(self, o):
		if isinstance(o, D.timedelta):
			n = self.ord - o.days
			if not sand(n >= 1, n <= MAXORD):
				raise OverflowError('date value out of range')
			return SymDate.make(n)
		o = SymDate.of(o)
		if o is None:
			return NotImplemented
		return SymTimedelta.norm(self.ord - o.ord, 0, 0)

	def __rsub__(self, o):
		o = SymDate.of(o)
		if o is None:
			return NotImplemented
		return SymTimedelta.norm(o.ord - self.ord, 0, 0)

	def __eq__(self, o):
		o = SymDate.of(o)
		return False if o is None else self.ord == o.ord

	def __ne__(self, o):
		o = SymDate.of(o)
		return True if o is None else self.ord != o.ord

	def __lt__(self, o):
		return self.ord < SymDate.of(o).ord

	def __le__(self, o):
		return self.ord <= SymDate.of(o).ord

	def __gt__(self, o):
		return self.ord > SymDate.of(o).ord

	def __ge__(self, o):
		return self.ord >= SymDate.of(o).ord

	year = month = day = property(_bad)
	isoformat = timetuple = strftime = replace = isocalendar = ctime = _bad

	def __repr__(self):
		return '<SymDate>'
	__hash__ = Sym.__hash__
	__str__ = _bad


class SymTime(Sym):
	__slots__ = ('hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold')

	def __init__(self, h, m, s, u, tz=None):
		self.hour, self.minute, self.second, self.microsecond, self.tzinfo = h, m, s, u, tz
		self.fold = 0

	@property
	def __class__(self):
		return D.time

	def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, **k):
		return m_time(self.hour if hour is None else hour, self.minute if minute is None else minute,
			self.second if second is None else second, self.microsecond if microsecond is None else microsecond,
			self.tzinfo if tzinfo is True else tzinfo)

	def utcoffset(self):
		return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

	def dst(self):
		return None if self.tzinfo is None else self.tzinfo.dst(None)

	def key(self):
		return ((self.hour * 60 + self.minute) * 60 + self.second) * 1000000 + self.microsecond

	@staticmethod
	def of(x):
		if type(x) is SymTime:
			return x
		if isinstance(x, D.time):
			return SymTime(x.hour, x.minute, x.second, x.microsecond, x.tzinfo)
		return None

	def __eq__(self, o):
		o = SymTime.of(o)
		if o is None:
			return False
		a, b = self.utcoffset(), o.utcoffset()
		if (a is None) != (b is None):
			return False
		if a is None:
			return sand(self.hour == o.hour, self.minute == o.minute, self.second == o.second, self.microsecond == o.microsecond)
		return self.key() - SymTimedelta.of(a).total() == o.key() - SymTimedelta.of(b).total()

	def __ne__(self, o):
		return mkbool(__import__('z3').Not(as_zbool(self == o)))

	__lt__ = __le__ = __gt__ = __ge__ = _bad
	isoformat = strftime = _bad

	def __repr__(self):
		return '<SymTime>'
	__hash__ = Sym.__hash__
	__str__ = _bad


class SymDatetime(Sym):
	"""day ordinal, second of the day, microsecond, time zone"""
	__slots__ = ('ord', 'sec', 'microsecond', 'tzinfo', 'fold')

	def __init__(self, o, s, u, tz=None):
		self.ord, self.sec, self.microsecond, self.tzinfo = o, s, u, tz
		self.fold = 0

	@property
	def __class__(self):
		return D.datetime

	@staticmethod
	def of(x):
		if type(x) is SymDatetime:
			return x
		if isinstance(x, D.datetime):
			return SymDatetime(x.toordinal(), x.hour * 3600 + x.minute * 60 + x.second, x.microsecond, x.tzinfo)
		return None

	@staticmethod
	def norm(o, s, u, tz):
		c, u = divmod(u, 1000000)
		s = s + c
		c, s = divmod(s, DAY)
		o = o + c
		if not sand(o >= 1, o <= MAXORD):
			raise OverflowError('date value out of range')
		if type(o) is SymInt:
			o = SymInt.make(o.e, max(o.lo, 1), min(o.hi, MAXORD))
		return SymDatetime(o, s, u, tz)

	hour = property(lambda self: self.sec // 3600)
	minute = property(lambda self: self.sec // 60 % 60)
	second = property(lambda self: self.sec % 60)
	year = month = day = property(_bad)

	def toordinal(self):
		return self.ord

	def date(self):
		return SymDate.make(self.ord)

	def time(self):
		return SymTime(self.hour, self.minute, self.second, self.microsecond)

	def timetz(self):
		return SymTime(self.hour, self.minute, self.second, self.microsecond, self.tzinfo)

	def utcoffset(self):
		return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

	def dst(self):
		return None if self.tzinfo is None else self.tzinfo.dst(self)

	def replace(self, *a, tzinfo=True, microsecond=None, **k):
		if a or k:
			core.E.unsupported('datetime.replace')
		return SymDatetime(self.ord, self.sec, self.microsecond if microsecond is None else microsecond,
			self.tzinfo if tzinfo is True else tzinfo)

	def astimezone(self, tz=None):
		if tz is None or self.tzinfo is None:
			core.E.unsupported('local time zone')
		if tz is self.tzinfo:
			return self
		u = self - self.utcoffset()
		u = SymDatetime(u.ord, u.sec, u.microsecond, tz)
		# tzinfo.fromutc for zones without daylight saving
		off = tz.utcoffset(u)
		if tz.dst(u) != D.timedelta(0):
			core.E.unsupported('time zone with daylight saving')
		return u + off

	def __add__(self, o):
		o = SymTimedelta.of(o)
		if o is None:
			return NotImplemented
		return SymDatetime.norm(self.ord + o.days, self.sec + o.seconds, self.microsecond + o.microseconds, self.tzinfo)
	__radd__ = __add__

	def __sub__(self, o):
		t = SymTimedelta.of(o)
		if t is not None:
			return SymDatetime.norm(self.ord - t.days, self.sec - t.seconds, self.microsecond - t.microseconds, self.tzinfo)
		o = SymDatetime.of(o)
		if o is None:
			return NotImplemented
		r = SymTimedelta.norm(self.ord - o.ord, self.sec - o.sec, self.microsecond - o.microsecond)
		if self.tzinfo is o.tzinfo:
			return r
		a, b = self.utcoffset(), o.utcoffset()
		if (a is None) != (b is None):
			raise TypeError("can't subtract offset-naive and offset-aware datetimes")
		if a is None:
			return r
		return r + b - a

	def __rsub__(self, o):
		o = SymDatetime.of(o)
		return NotImplemented if o is None else o - self

	def __eq__(self, o):
		o = SymDatetime.of(o)
		if o is None:
			return False
		a, b = self.utcoffset(), o.utcoffset()
		if (a is None) != (b is None):
			return False
		if a is None or self.tzinfo is o.tzinfo:
			return sand(self.ord == o.ord, self.sec == o.sec, self.microsecond == o.microsecond)
		x, y = self - o, None
		return SymTimedelta.of(x) == D.timedelta(0)

	def __ne__(self, o):
		return mkbool(__import__('z3').Not(as_zbool(self == o)))

	def _cmp(self, o, op):
		o = SymDatetime.of(o)
		if o is None:
			return NotImplemented
		d = SymTimedelta.of(self - o)
		return getattr(d, op)(D.timedelta(0))

	def __lt__(self, o):
		return self._cmp(o, '__lt__')

	def __le__(self, o):
		return self._cmp(o, '__le__')

	def __gt__(self, o):
		return self._cmp(o, '__gt__')

	def __ge__(self, o):
		return self._cmp(o, '__ge__')

	isoformat = timetuple = utctimetuple = strftime = isocalendar = ctime = timestamp = weekday = isoweekday = _bad

	def __repr__(self):
		return '<SymDatetime>'
	__hash__ = Sym.__hash__
	__str__ = _bad


def _anysym(a, k):
	return any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values())


def m_timedelta(*a, **k):
	if not _anysym(a, k):
		return D.timedelta(*a, **k)

	def f(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
		for x in (days, seconds, microseconds, milliseconds, minutes, hours, weeks):
			if intlike(x) is None:
				core.E.unsupported('timedelta of a float')
		return SymTimedelta.norm(days + weeks * 7, seconds + minutes * 60 + hours * 3600, microseconds + milliseconds * 1000)
	return f(*a, **k)


def m_time(*a, **k):
	if not _anysym(a, k):
		return D.time(*a, **k)

	def f(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
		out = []
		for x, n, what in ((hour, 24, 'hour'), (minute, 60, 'minute'), (second, 60, 'second'), (microsecond, 1000000, 'microsecond')):
			x = intlike(x)
			if x is None:
				raise TypeError('integer argument expected')
			if not sand(x >= 0, x < n):
				raise ValueError('%s must be in 0..%d' % (what, n - 1))
			if type(x) is SymInt:
				x = SymInt.make(x.e, max(x.lo, 0), min(x.hi, n - 1))
			out.append(x)
		if tzinfo is not None and not isinstance(tzinfo, D.tzinfo):
			raise TypeError('tzinfo argument must be None or of a tzinfo subclass')
		return SymTime(*out, tzinfo)
	return f(*a, **k)


def m_date(*a, **k):
	if not _anysym(a, k):
		return D.date(*a, **k)
	core.E.unsupported('date(year, month, day)')


def m_datetime(*a, **k):
	if not _anysym(a, k):
		return D.datetime(*a, **k)
	core.E.unsupported('datetime(year, ...)')


def m_combine(d, t, tzinfo=True):
	t = SymTime.of(t)
	d = SymDate.of(d) or SymDate(d.toordinal())
	return SymDatetime(d.ord, t.hour * 3600 + t.minute * 60 + t.second, t.microsecond, t.tzinfo if tzinfo is True else tzinfo)


CLASSMETHODS = {
	(D.date, 'fromordinal'): SymDate.make,
	(D.datetime, 'fromordinal'): lambda o: SymDatetime(SymDate.make(o).ord, 0, 0),
	(D.datetime, 'combine'): m_combine,
}


def native_method(s, name, a, k):
	"""a method of a concrete date or time called with symbolic arguments"""
	for cls in (D.datetime, D.date, D.time, D.timedelta):
		if isinstance(s, cls):
			sym = {D.datetime: SymDatetime, D.date: SymDate, D.time: SymTime, D.timedelta: SymTimedelta}[cls].of(s)
			break
	return getattr(sym, name)(*a, **k)


def canon(m, x, mval):
	t = type(x)
	if t is SymTimedelta:
		return ['td', mval(m, x.days), mval(m, x.seconds), mval(m, x.microseconds)]
	if t is SymDate:
		return ['date', mval(m, x.ord)]
	if t is SymTime:
		return ['time', mval(m, x.hour), mval(m, x.minute), mval(m, x.second), mval(m, x.microsecond)]
	if t is SymDatetime:
		s = mval(m, x.sec)
		return ['dt', mval(m, x.ord), s, mval(m, x.microsecond)]

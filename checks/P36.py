"""P36: version strings."""
BOUNDS = ('1 to 3 numeric components of up to 3 digits, all values; state class none, alpha, beta, rc, devel, a, b with an absent or '
	'up to 2 digit level')
OUTSIDE = 'components that do not start with a digit; leading zeros; more than 3 components'
REACH = ('final', 'state with level', 'state without level', 'ordered')
STATES = ('', 'alpha', 'beta', 'rc', 'devel', 'a', 'b', 'dev')
PRIORITY = {'dev': 0, 'devel': 0, 'a': 1, 'alpha': 1, 'b': 2, 'beta': 2, 'rc': 3, '': 4}


def number(sx, name, digits):
	"""canonical decimal numeral -> (text, value)"""
	t = sx.str(name, digits, alphabet='0123456789')
	if digits > 1:
		sx.assume(t[0] != '0')
	v = 0
	for c in t:
		v = v * 10 + (ord(c) - 48)
	return t, v


def version(sx, tag, digits, state, level):
	parts = [number(sx, '%s%d' % (tag, i), d) for i, d in enumerate(digits)]
	s = '.'.join([t for t, v in parts]) + state
	lv = None
	if state and level:
		t, lv = number(sx, tag + 'l', level)
		s = s + t
	return s, [v for t, v in parts], lv


def parse(sx, digits, state, level):
	from postgresql import versionstring as V
	s, nums, lv = version(sx, 'n', digits, state, level)
	got = V.split(s)
	sx.observe('got', got)
	want = nums + [None] * (3 - len(nums)) + [state or None, lv]
	sx.check(sx.same(list(got), want), 'components differ')
	if not state:
		sx.reach('final')
	else:
		sx.reach('state with level' if level else 'state without level')
	sx.check(sx.same(V.unsplit(got), s), 'written back differently')
	n = V.normalize(got)
	sx.check(sx.same(list(n), [x if x is not None else 0 for x in want[:3]] + [state or 'final', lv or 0]), 'normalized differs')
	sx.check(sx.same(list(V.split(' ' + s + '\n')), want), 'white space matters')


def order(sx, d1, s1, l1, d2, s2, l2):
	from postgresql import versionstring as V
	a, na, la = version(sx, 'a', d1, s1, l1)
	b, nb, lb = version(sx, 'b', d2, s2, l2)
	if {s1, s2} == {'rc', ''} and sx.known('rc-after-final'):
		return
	if 'devel' in (s1, s2) and {s1, s2} & {'a', 'alpha', 'b', 'beta'} and sx.known('devel-after-beta'):
		return
	ka = tuple(na + [0] * (3 - len(na)) + [PRIORITY[s1], la or 0])
	kb = tuple(nb + [0] * (3 - len(nb)) + [PRIORITY[s2], lb or 0])
	x, y = V.normalize(V.split(a)), V.normalize(V.split(b))
	lt = x < y
	sx.check(lt == (ka < kb), 'normalized versions order differently')
	eq = x == y
	if s1 == s2:
		sx.check(eq == (ka == kb), 'normalized versions compare equal differently')
	sx.reach('ordered')


def tasks(tier):
	r = []
	ds = ([1], [2], [1, 1], [2, 1], [1, 2, 1], [2, 1, 2], [3, 3], [1, 1, 1]) if tier == 'quick' else \
		([1], [2], [1, 1], [2, 1], [1, 2, 1], [2, 1, 2], [3, 3], [1, 1, 1], [2, 2, 2], [3, 3, 3], [1, 3])
	for d in ds:
		for st in STATES:
			for lv in ((0, 1, 2) if st else (0,)):
				r.append(dict(fn='parse', params=dict(digits=d, state=st, level=lv), weight=sum(d), validate=5))
	for s1, l1 in (('', 0), ('beta', 1), ('rc', 1), ('alpha', 2), ('beta', 2), ('devel', 0)):
		for s2, l2 in (('', 0), ('beta', 1), ('rc', 1), ('alpha', 1)):
			for d1, d2 in (([1, 1], [1, 1]), ([2], [1, 1, 1]), ([2, 1], [1, 1])):
				r.append(dict(fn='order', params=dict(d1=d1, s1=s1, l1=l1, d2=d2, s2=s2, l2=l2), weight=3, validate=5))
	return r

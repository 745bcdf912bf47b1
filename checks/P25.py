"""P25: connection IRIs."""
BOUNDS = ('parameters with any of user, password, host, port, UNIX socket, database, path, driver parameters, settings and search_path; the values of up to 2 of '
	'them at a time are any strings of 1 to 3 characters below U+0400 (all at once over representative characters); IRI texts of up to 4 characters (5 in the thorough tier), also after each of 5 beginnings, over '
	+ repr('%:/?#@[]&=,a2 '))
OUTSIDE = ('longer values; a password without a user and a port without a host, which have no representation; empty hosts without a port, and empty names of '
	'databases, settings and driver parameters; host names with brackets or, without being addresses, colons; socket paths with ":" or "]"; setting names in brackets; the "ssl" parameter; '
	'percent escapes of multi-byte encodings')
REACH = ('escaped', 'user', 'password', 'host', 'IPv6', 'unix', 'database', 'path', 'driver parameter', 'setting', 'search_path', 'obscured', 'text', 'rejected')
SPECIAL = '%:/?#@[]&=,a2 '


def iri():
	from postgresql import iri as I
	return I


def text(sx, name, n, alphabet):
	return sx.str(name, n, alphabet=alphabet) if alphabet else sx.str(name, n, lo=0, hi=0x3ff)


def has(sx, s, chars):
	return sx.any(*[c == x for c in s for x in chars])


def build(sx, fields, n, alphabet):
	d = {}
	for f in fields:
		t = lambda name: text(sx, name, n, alphabet)
		if f == 'user':
			d['user'] = t('user')
		elif f == 'u':
			d['user'] = 'u'
		elif f == 'd':
			d['database'] = 'd'
		elif f == 'password':
			d['password'] = t('password')
		elif f == 'host':
			h = t('host')
			sx.assume(sx.neg(has(sx, h, '[]:')))
			d['host'] = h
		elif f == 'host6':
			d['host'] = '::1' + ''.join(['%', t('zone')])
			sx.assume(sx.neg(has(sx, d['host'][3:], '[]')))
			sx.reach('IPv6')
		elif f == 'port':
			d['port'] = sx.choose('port', ('1', '5432', 'ssh'))
		elif f == 'unix':
			u = t('unix')
			sx.assume(sx.neg(has(sx, u, ':]')))
			d['unix'] = '/' + u
		elif f == 'database':
			d['database'] = t('database')
		elif f == 'path':
			d['path'] = [t('path0'), 'p']
		elif f == 'driver':
			k = t('key')
			sx.assume(sx.neg(sx.any(*[k == x for x in ('user', 'host', 'port', 'path', 'ssl', 'ipv', 'unix')])))
			d[k] = text(sx, 'value', 1, alphabet)
		elif f == 'sslmode':
			d['sslmode'] = t('sslmode')
		elif f == 'setting':
			k = t('name')
			sx.assume(sx.neg(sx.all(k[:1] == '[', k[-1:] == ']')))
			d.setdefault('settings', {})[k] = text(sx, 'setting', 1, alphabet)
		elif f == 'settings':
			d.setdefault('settings', {})['a'] = t('a')
			d.setdefault('settings', {})['b'] = 'x'
		elif f == 'search_path':
			d.setdefault('settings', {})['search_path'] = [t('schema'), 'public']
	for k, r in (('user', 'user'), ('password', 'password'), ('host', 'host'), ('unix', 'unix'), ('database', 'database'), ('path', 'path'), ('settings', 'setting')):
		if k in d:
			sx.reach(r)
	if 'search_path' in d.get('settings', ()):
		sx.reach('search_path')
	if 'driver' in fields or 'sslmode' in fields:
		sx.reach('driver parameter')
	return d


def roundtrip(sx, fields, n, alphabet=None):
	I = iri()
	d = build(sx, fields, n, alphabet)
	s = I.serialize(d)
	sx.observe('iri', s)
	got = I.parse(s)
	sx.observe('got', got)
	if '%' in s:
		sx.reach('escaped')
	sx.check(got == d, 'reading gives back what was written')
	sx.check(I.serialize(got) == s, 'writing again gives the same text')


def plain(sx, n):
	"""None, numbers and text where text and lists are usual"""
	I = iri()
	k = sx.choose('kind', ('number', 'none', 'driver number', 'driver none', 'port', 'search_path'))
	t = text(sx, 'v', n, None)
	d = {'host': 'h', 'settings': {'z': t}}
	want = {'host': 'h', 'settings': {'z': t}}
	v = sx.choose('number', (0, 1, 200, True, 1.5))
	if k == 'number':
		d['settings']['a'], want['settings']['a'] = v, str(v)
	elif k == 'none':
		d['settings']['a'] = want['settings']['a'] = None
	elif k == 'driver number':
		d['a'], want['a'] = v, str(v)
	elif k == 'driver none':
		d['a'] = want['a'] = None
	elif k == 'port':
		d['port'], want['port'] = 5432, '5432'
	else:
		d['settings']['search_path'], want['settings']['search_path'] = 'a,"b c"', ['a', 'b c']
	got = I.parse(I.serialize(d))
	sx.observe('got', got)
	sx.check(got == want, 'values that are not text are written as text')


def obscured(sx, n, m):
	"""a password is only written when asked for"""
	I = iri()
	fields = sx.choose('fields', (('user', 'host'), ('user', 'unix', 'database'), ('user', 'settings')))
	d = build(sx, fields, n, 'a%@')
	a, b = dict(d, password=text(sx, 'one', n, None)), dict(d, password=text(sx, 'two', m, None))
	x, y = I.serialize(a, obscure_password=True), I.serialize(b, obscure_password=True)
	sx.observe('iri', (x, y))
	sx.reach('obscured')
	sx.check(x == y, 'the text does not depend on the password')
	sx.check(I.parse(x) == dict(d, password='***'), 'only the password is replaced')
	sx.check(I.serialize(d, obscure_password=True) == I.serialize(d), 'nothing is replaced without a password')


def texts(sx, n, prefix=''):
	"""any text that can be read is read again from what is written for it"""
	I = iri()
	s = prefix + sx.str('iri', n, alphabet=SPECIAL)
	try:
		d = I.parse(s)
	except ValueError:
		sx.reach('rejected')
		sx.check('://' in s, 'only a scheme can be rejected')
		return
	sx.observe('parsed', d)
	# what has no representation
	h = d.get('host')
	if h is not None:
		sx.assume(sx.any(h != '', 'port' in d))
		sx.assume(sx.neg(has(sx, h, '[]')))
	u = d.get('unix')
	if u is not None:
		sx.assume(sx.neg(has(sx, u, ':]')))
	sx.assume('database' in d or 'path' not in d)
	if 'database' in d:
		sx.assume(d['database'] != '')
	for k in list(d) + list(d.get('settings', ())):
		if k not in ('user', 'password', 'host', 'port', 'unix', 'database', 'path', 'settings', 'search_path'):
			sx.assume(k != '')
			sx.assume(k not in ('ssl', 'ipv', 'path'))
	for k in d.get('settings', ()):
		if k != 'search_path':
			sx.assume(sx.neg(sx.all(k[:1] == '[', k[-1:] == ']')))
	sx.reach('text')
	t = I.serialize(d)
	sx.observe('written', t)
	e = I.parse(t)
	sx.check(e == d, 'reading again gives the same parameters')


def decoded(sx, where):
	"""an escape is decoded once, wherever it is"""
	I = iri()
	# %25 and two more characters, which together with "%" may form an escape
	x = sx.str('x', 2, alphabet='0124567aAfFg')
	v = '%' + x
	form, path = {
		'user': ('pq://%s@h/d', ('user',)), 'password': ('pq://u:%s@h/d', ('password',)), 'host': ('pq://u@%s/d', ('host',)), 'host6': ('pq://[::1%s]:1/d', ('host',)),
		'port': ('pq://h:%s', ('port',)), 'unix': ('pq://[unix:%s]/d', ('unix',)), 'database': ('pq://h/%s', ('database',)), 'path': ('pq://h/d/%s', ('path', 0)),
		'driver': ('pq://h/d?[sslmode]=%s&a=b', ('sslmode',)), 'driver name': ('pq://h/d?[%s]=v', None), 'setting': ('pq://h/d?a=%s#f', ('settings', 'a')),
		'setting name': ('pq://h/d?%s=v', None), 'search_path': ('pq://h/d#a,%s', ('settings', 'search_path', 1)),
	}[where]
	a, b = form.split('%s')
	got = I.parse(a + '%25' + x + b)
	sx.observe('got', got)
	sx.reach('escaped')
	if path:
		for k in path:
			got = got[k]
		sx.check(got == ('::1' if where == 'host6' else '') + v, 'an escaped percent sign is a percent sign')
	else:
		if where == 'setting name':
			got = got['settings']
		sx.check(got.get(v) == 'v', 'an escaped percent sign in a name is a percent sign')


def schemes(sx):
	I = iri()
	k = sx.choose('scheme', ('pq', 'postgres', 'postgresql', 'PQ', 'http', 'pqs', 'p', ''))
	try:
		got = I.parse(k + '://u@h/d')
	except ValueError:
		sx.check(k in ('http', 'pqs', 'p', ''), 'a scheme of PostgreSQL is accepted')
	else:
		sx.check(k.lower() in ('pq', 'postgres', 'postgresql'), 'another scheme is refused')
		sx.check(got == {'user': 'u', 'host': 'h', 'database': 'd'}, 'the scheme is not a parameter')


def pieces(sx, n):
	"""resource indicators: splitting loses nothing"""
	from postgresql.resolved import riparse as R
	s = sx.str('ri', n, alphabet=':/?#@a')
	t = R.split(s)
	sx.observe('split', t)
	sx.check(len(t) == 5, 'five parts')
	sx.check(R.unsplit(t) == s, 'the parts make the whole')


def indicators(sx, fields, n):
	"""resource indicators: structure"""
	from postgresql.resolved import riparse as R
	d = {}
	t = lambda name: text(sx, name, n, None)
	for f in fields:
		if f in ('user', 'password', 'fragment', 'port'):
			d[f] = t(f)
			if f == 'port':
				d['host'] = 'h'
				if 'user' not in d:
					sx.assume(sx.neg(has(sx, d[f], '@')))
			if f == 'password':
				d.setdefault('user', 'u')
		elif f == 'host':
			d[f] = t(f)
			sx.assume(sx.neg(has(sx, d[f], ':[]')))
		elif f == 'path':
			d[f] = [t('path0'), t('path1')]
		elif f == 'query':
			d[f] = [(t('key'), t('value')), ('k', None), (t('key2'), '')]
	s = R.serialize(dict(d, scheme='pq'))
	sx.observe('ri', s)
	got = R.parse(s)
	sx.check(got == dict(d, scheme='pq'), 'reading gives back what was written')


FIELDS = ('user', 'password', 'host', 'host6', 'unix', 'database', 'path', 'driver', 'sslmode', 'setting', 'settings', 'search_path')


def tasks(tier):
	deep = tier == 'thorough'
	t = []

	def add(fn, weight=1, **k):
		t.append(dict(fn=fn, params=k, weight=weight))

	def complete(fs):
		fs = tuple(fs)
		if 'password' in fs and 'user' not in fs:
			fs = ('u',) + fs
		if 'path' in fs and 'database' not in fs:
			fs = fs + ('d',)
		return fs
	for f in FIELDS:
		for n in (1, 2, 3) if deep else (1, 2):
			add('roundtrip', n=n, fields=complete((f,)))
		if f in ('host', 'host6'):
			add('roundtrip', n=1, fields=('user', 'password', f, 'port', 'database'), alphabet=SPECIAL)
	ex = {('host', 'host6'), ('host', 'unix'), ('host6', 'unix'), ('setting', 'settings')}
	for i, f in enumerate(FIELDS):
		for g in FIELDS[i + 1:]:
			if (f, g) not in ex:
				add('roundtrip', n=1, fields=complete((f, g)))
	for h in (('host', 'port'), ('host6', 'port'), ('unix',)):
		for fs in ((('database', 'path', 'sslmode', 'settings', 'search_path'),) if deep else (('database', 'path', 'search_path'), ('sslmode', 'settings'))):
			add('roundtrip', n=1, fields=('user', 'password') + h + fs, alphabet='a%', weight=3)
	add('plain', n=1)
	add('schemes')
	for n, m in ((1, 1), (1, 2), (2, 0)):
		add('obscured', n=n, m=m)
	for n in range(1, 6 if deep else 5):
		add('texts', n=n, weight=n)
	for p in ('u@h/', 'pq://[', 'h/d?[', 'pq://h/d#', 'pq://u:'):
		add('texts', n=4 if deep else 3, prefix=p, weight=3)
	for w in ('user', 'password', 'host', 'host6', 'port', 'unix', 'database', 'path', 'driver', 'driver name', 'setting', 'setting name', 'search_path'):
		add('decoded', where=w)
	for n in range(1, 8 if deep else 7):
		add('pieces', n=n, weight=n)
	for fs in (('user', 'password'), ('user', 'host'), ('password', 'port'), ('path',), ('query',), ('fragment', 'host'), ('path', 'fragment'), ('query', 'fragment') if deep else ('fragment',)):
		add('indicators', n=1, fields=fs)
	return t

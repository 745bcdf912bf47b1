"""P26: password file lookup."""
BOUNDS = ('files of up to 3 lines; each line is either any text up to 8 characters over ' + repr(":\\*a# ") + ' or 5 fields of up to 2 '
	'characters each; every connection value up to 2 characters')
OUTSIDE = 'longer lines and values; backslash before a character other than ":" or "\\" (not an escape of the format); NUL'
REACH = ('found', 'not found', 'comment', 'malformed', 'wildcard', 'escaped colon')
ALPHA = ":\\*a# "


def spec_split(sx, line):
	"""-> list of 5 fields or None"""
	if line[-1:] == '\n':
		line = line[:-1]
	if len(line) and line[0] == '#':
		sx.reach('comment')
		return None
	out = ['']
	i = 0
	while i < len(line):
		c = line[i]
		if c == '\\':
			if i + 1 < len(line) and (line[i + 1] == ':' or line[i + 1] == '\\'):
				if line[i + 1] == ':':
					sx.reach('escaped colon')
				out[-1] = out[-1] + line[i + 1]
				i += 2
				continue
			# not an escape: outside the domain
			sx.assume(False)
		if c == ':':
			out.append('')
		else:
			out[-1] = out[-1] + c
		i += 1
	if len(out) != 5:
		sx.reach('malformed')
		return None
	return out


def spec(sx, lines, uhpd):
	user, host, port, db = uhpd
	for l in lines:
		f = spec_split(sx, l)
		if f is None:
			continue
		for w, v in zip(f, (host, port, db, user)):
			if w == '*':
				sx.reach('wildcard')
			elif w != v:
				break
		else:
			return f[4]
	return None


def run(sx, lines, uhpd):
	from postgresql import pgpassfile as P
	want = spec(sx, lines, uhpd)
	got = P.lookup_password(P.parse(lines), uhpd)
	sx.observe('got', got)
	if want is None:
		sx.check(got is None, 'a password was found where none matches')
		sx.reach('not found')
	else:
		sx.check(got is not None, 'the matching entry was not found')
		sx.check(sx.same(got, want), 'wrong password')
		sx.reach('found')


def free(sx, n, eol):
	"""one line of any text"""
	line = sx.str('line', n, alphabet=ALPHA)
	uhpd = tuple(sx.str(k, 1, alphabet='a#*: \\') for k in ('user', 'host', 'port', 'db'))
	run(sx, [line + eol], uhpd)


def fields(sx, lens, vals, alpha=ALPHA):
	line = ''
	for i, n in enumerate(lens):
		line = line + (':' if i else '') + sx.str('f%d' % i, n, alphabet=alpha)
	uhpd = tuple(sx.str(k, n, 1, 0xFF) for k, n in zip(('user', 'host', 'port', 'db'), vals))
	run(sx, [line + '\n'], uhpd)


def passwords(sx, n):
	"""any password is returned exactly"""
	from postgresql import pgpassfile as P
	pw = sx.str('pw', n, 1, 0x17F)
	esc = ''
	for c in pw:
		sx.assume(sx.all(c != '\n', c != '\r'))
		if c == ':' or c == '\\':
			esc = esc + '\\'
		esc = esc + c
	got = P.lookup_password(P.parse(['other:*:*:*:no\n', '*:5432:*:u:' + esc + '\n', '*:*:*:*:late\n']), ('u', 'h', '5432', 'd'))
	sx.observe('got', got)
	sx.check(got is not None and sx.same(got, pw), 'password is not returned exactly')


def several(sx, n):
	"""the first matching line wins"""
	lines = []
	for i in range(n):
		f = [sx.str('f%d_%d' % (i, k), 1, alphabet='*ab') for k in range(4)]
		kind = sx.choose('kind%d' % i, 4)
		l = ':'.join(f) + ':p%d' % i
		lines.append([l, '#' + l, l + ':x', ''][kind] + '\n')
	run(sx, lines, tuple(sx.str(k, 1, alphabet='ab') for k in ('user', 'host', 'port', 'db')))


def tasks(tier):
	big = tier != 'quick'
	r = []
	for n in (0, 4, 6) + ((7, 8) if big else ()):
		r.append(dict(fn='free', params=dict(n=n, eol='\n' if n % 4 else ''), weight=n * n))
	for lens, vals in (([1, 1, 1, 1, 2], [1, 1, 1, 1]), ([2, 1, 0, 1, 1], [1, 2, 0, 1]), ([0, 1, 1, 2, 0], [2, 0, 1, 1])):
		r.append(dict(fn='fields', params=dict(lens=lens, vals=vals, alpha=':\\*a'), weight=60))
	for n in range(0, 4 if not big else 5):
		r.append(dict(fn='passwords', params=dict(n=n), weight=n * 5))
	for n in (1, 2) + ((3,) if big else ()):
		r.append(dict(fn='several', params=dict(n=n), weight=n * 30))
	return r

"""P24: splitting SQL at quotes and separators; DB-API parameter markers."""
from checks.sqllex import lex

ALPHA = "Ee'\"$\\;a1_ \n\u00e9"
BOUNDS = ('texts up to 4 characters (3 for the comparison with the reference lexer) over ' + repr(ALPHA) + ', one or two more over a smaller alphabet, every text of each length; '
	'texts made of up to 3 symbolic pieces around concrete quoted sections; DB-API queries of up to 4 pieces, each piece a '
	'marker, an escaped percent, a quoted section or a symbolic character')
OUTSIDE = ('SQL comments (documented as not recognized); identifiers containing "$"; '
	'unterminated quotes in the lexer comparison')
REACH = ('round trip', 'quoted section', 'separator inside quotes', 'statements', 'positional', 'keyword', 'no marker')


def roundtrip(sx, n, alpha=ALPHA):
	from postgresql import string as S
	t = sx.str('t', n, alphabet=alpha)
	parts = list(S.split(t))
	for i, p in enumerate(parts):
		sx.check(isinstance(p, tuple) == bool(i % 2), 'quoted and unquoted parts do not alternate')
	sx.check(sx.same(S.unsplit(parts), t), 'unsplit(split(text)) differs from text')
	sx.reach('round trip')
	if len(parts) > 1:
		sx.reach('quoted section')
	st = list(S.split_sql(t))
	sx.check(sx.same(';'.join([S.unsplit(x) for x in st]), t), 'joining split_sql differs from text')
	st = list(S.split_sql_str(t))
	sx.check(sx.same(';'.join(st), t), 'joining split_sql_str differs from text')


def in_domain(sx, t, toks):
	"""texts the reference lexer and the documented scope of split() agree to speak about"""
	for k in toks:
		if not k[4]:
			return False
		if k[0] == 'p' and k[1] == '$':
			# not SQL
			return False
	n = len(t)
	for i in range(n):
		c = t[i]
		if i and c == '$':
			p = t[i - 1]
			if ('a' <= p and p <= 'z') or ('A' <= p and p <= 'Z') or p == '_' or p > '\x7f' or ('0' <= p and p <= '9'):
				# part of an identifier or junk after a number, unless it closes a dollar quote
				if not any(k[0] == 'd' and k[2] <= i < k[3] or k[0] in ('s', 'i', 'e') and k[2] <= i < k[3] for k in toks):
					return False
	for a, b in zip(toks, toks[1:]):
		# identifier or number immediately followed by a dollar quote or an escape literal
		if a[3] == b[2] and a[0] in ('w', 'n', 'd') and b[0] in ('d', 'e', 'w', 'n'):
			return False
	return True


def lexed(sx, n, alpha=ALPHA, pieces=None):
	"""the quoted parts are exactly the literals, quoted identifiers and dollar quotes the server sees"""
	from postgresql import string as S
	if pieces is None:
		t = sx.str('t', n, alphabet=alpha)
	else:
		t = ''
		for i, p in enumerate(pieces):
			t = t + (sx.str('t%d' % i, p, alphabet=alpha) if isinstance(p, int) else p)
	toks = lex(t)
	if not in_domain(sx, t, toks):
		return
	want = [(k[2], k[3]) for k in toks if k[0] in 's i e d']
	parts = list(S.split(t))
	pos = 0
	got = []
	for i, p in enumerate(parts):
		if i % 2:
			body = p[0] + p[1] + ("'" if len(p[0]) == 2 and p[0][1] == "'" else p[0])
			got.append((pos, pos + len(body)))
			sx.check(sx.same(t[pos:pos + len(body)], body), 'a quoted part is not the text it stands for')
			pos += len(body)
		else:
			sx.check(sx.same(t[pos:pos + len(p)], p), 'an unquoted part is not the text it stands for')
			pos += len(p)
	sx.check(pos == len(t), 'parts do not cover the text')
	sx.check(got == want, 'quoted parts are not the quoted sections of the text')
	# statements
	seps = [k[2] for k in toks if k[0] == 'p' and k[1] == ';']
	bounds = [-1] + seps + [len(t)]
	st = [t[a + 1:b] for a, b in zip(bounds, bounds[1:])]
	got = list(S.split_sql_str(t))
	sx.check(sx.same(got, st), 'statements are not those the separators delimit')
	sx.reach('statements')
	for k in toks:
		if k[0] in 's i e d' and any(t[j] == ';' for j in range(k[2], k[3])):
			sx.reach('separator inside quotes')


def cursor():
	from postgresql.driver.dbapi20 import Cursor
	return Cursor(None)


PIECES = ('%s', '%(a)s', '%(b)s', '%%', 'c', "'%s'", '"%%"', '$x$%(a)s;%s\n$x$')


def convert(sx, n, allow):
	"""_convert_query against a reference: markers outside quotes are numbered, %% is an escape, the rest is unchanged"""
	c = cursor()
	q = ''
	pos = 0
	keys = []
	want = []
	npos = 0
	marks = 0
	kinds = []
	for i in range(n):
		k = sx.choose('k%d' % i, allow)
		p = PIECES[k]
		kinds.append(p)
		if p == 'c':
			x = sx.str('c%d' % i, 1, 1, 0xFF)
			sx.assume(sx.neg(sx.any(x == '%', x == "'", x == '"', x == '$', x == 'E', x == 'e')))
			p = x
		if kinds[-1] == '%s':
			npos += 1
			want.append('$' + str(npos))
		elif kinds[-1] in ('%(a)s', '%(b)s'):
			key = kinds[-1][2]
			if key not in keys:
				keys.append(key)
			want.append('$' + str(keys.index(key) + 1))
		elif kinds[-1] == '%%':
			want.append(None)
		else:
			want.append(p)
		# separators keep neighbouring pieces from forming one quote
		q = q + p + ' '
	marked = bool(npos or keys)
	exp = ''
	for w in want:
		exp = exp + (('%' if marked else '%%') if w is None else w) + ' '
	try:
		sql, pxf, count = c._convert_query(q)
	except (TypeError, ValueError, KeyError):
		sx.check(npos and keys, 'a valid query was refused')
		return
	sx.check(not (npos and keys), 'keyword and positional markers were mixed without an error')
	sx.check(sx.same(sql, exp), 'converted query is wrong')
	sx.check(count == (npos or len(keys)), 'wrong number of parameters')
	if keys:
		sx.reach('keyword')
		vals = {'a': 'A', 'b': 'B', 'zz': 'Z'}
		sx.check(list(pxf(vals)) == [vals[x] for x in keys], 'keyword parameters in the wrong order')
	elif npos:
		sx.reach('positional')
		sx.check(list(pxf(list(range(npos)))) == list(range(npos)), 'parameters in the wrong order')
	else:
		sx.reach('no marker')


def tasks(tier):
	big = tier != 'quick'
	r = []
	for n in range(0, 5 if not big else 6):
		r.append(dict(fn='roundtrip', params=dict(n=n), weight=n * n, validate=40))
	for n in (5,) + ((6,) if big else ()):
		r.append(dict(fn='roundtrip', params=dict(n=n, alpha="E'$a;"), weight=n * n, validate=40))
	for n in range(1, 4 if not big else 5):
		r.append(dict(fn='lexed', params=dict(n=n), weight=n * n * 2, validate=40))
	r.append(dict(fn='lexed', params=dict(n=4, alpha="e'$;a"), weight=50))
	if big:
		r.append(dict(fn='lexed', params=dict(n=5, alpha="E'\\;$"), weight=50))
	A = ";'$\n\\a"
	for pc in ([1, "'", 2, "'", 1], [1, "E'", 2, "'", 1], [1, "e'", 2, "'", 1], [1, '"', 2, '"', 1], [1, '$$', 2, '$$', 1],
			[1, '$a$', 2, '$a$', 1], [1, '$a$', 1, '$$', 1, '$a$', 1], ['; ', "E'", 3, "'"], ["$b$", 3, "$b$;"],
			["''", 2, "''", 1], ["E''", 2, "E'\\", 1, "'"]):
		r.append(dict(fn='lexed', params=dict(n=0, pieces=pc, alpha=A), weight=30))
	for n in (1, 2, 3):
		r.append(dict(fn='convert', params=dict(n=n, allow=list(range(len(PIECES)))), weight=n * 8))
	r.append(dict(fn='convert', params=dict(n=4, allow=[0, 3, 4, 5]), weight=40))
	r.append(dict(fn='convert', params=dict(n=4, allow=[1, 2, 3, 6]), weight=40))
	if big:
		r.append(dict(fn='convert', params=dict(n=4, allow=list(range(len(PIECES)))), weight=100))
	return r

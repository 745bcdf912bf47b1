"""P23: quoting of literals and identifiers."""
from checks.sqllex import lex

BOUNDS = ('strings up to 5 characters, every character any code point from U+0001 to U+10FFFF (surrogates excluded); quoting by need: U+0001 to U+017F (single characters further); qualified '
	'names of up to 3 parts and 4 characters in all; channel names up to 4 characters')
OUTSIDE = 'longer strings; reserved words (quoting by need is judged on spelling rules, not on the keyword list)'
REACH = ('literal', 'identifier', 'bare identifier', 'quoted by need', 'qname', 'listen', 'notify', 'savepoint')
MAXC = 0x10FFFF


def literal(sx, n):
	from postgresql import string as S
	s = sx.str('s', n, 1, MAXC)
	q = S.quote_literal(s)
	sx.observe('q', q)
	t = lex(q)
	sx.check(len(t) == 1 and t[0][0] == 's' and t[0][4] and t[0][2] == 0 and t[0][3] == len(q), 'literal is not one token')
	sx.check(sx.same(t[0][1], s), 'literal denotes another string')
	e = "'" + S.escape_literal(s) + "'"
	t = lex(e)
	sx.check(len(t) == 1 and t[0][4] and t[0][3] == len(e), 'escaped literal is not one token')
	sx.check(sx.same(t[0][1], s), 'escaped literal denotes another string')
	sx.reach('literal')


def ident(sx, n):
	from postgresql import string as S
	s = sx.str('s', n, 1, MAXC)
	for q in (S.quote_ident(s), '"' + S.escape_ident(s) + '"'):
		t = lex(q)
		sx.check(len(t) == 1 and t[0][0] == 'i' and t[0][4] and t[0][3] == len(q), 'identifier is not one token')
		sx.check(sx.same(t[0][1], s), 'identifier denotes another name')
	sx.reach('identifier')


def ident_if_needed(sx, n, hi):
	"""whatever the form chosen, the server reads the same name"""
	from postgresql import string as S
	s = sx.str('s', n, 1, hi)
	q = S.quote_ident_if_needed(s)
	sx.observe('q', q)
	t = lex(q)
	sx.check(len(t) == 1 and t[0][4] and t[0][2] == 0 and t[0][3] == len(q), 'not one token')
	sx.check(t[0][0] in ('i', 'w'), 'not an identifier')
	sx.reach('bare identifier' if t[0][0] == 'w' else 'quoted by need')
	sx.check(sx.same(t[0][1], s), 'denotes another name')


def read_qname(sx, q, parts):
	t = lex(q)
	sx.check(len(t) == 2 * len(parts) - 1, 'wrong number of tokens')
	for i, x in enumerate(t):
		if i % 2:
			sx.check(x[0] == 'p' and x[1] == '.', 'not a separator')
		else:
			sx.check(x[0] in ('i', 'w') and x[4], 'not an identifier')
			sx.check(sx.same(x[1], parts[i // 2]), 'part denotes another name')


def qname(sx, lens, hi):
	from postgresql import string as S
	parts = [sx.str('p%d' % i, k, 1, hi) for i, k in enumerate(lens)]
	q = S.qname(*parts)
	read_qname(sx, q, parts)
	got = S.split_qname(q)
	sx.check(sx.same(list(got), parts), 'split_qname(qname(...)) differs')
	sx.reach('qname')


def qname_needed(sx, lens, hi):
	from postgresql import string as S
	parts = [sx.str('p%d' % i, k, 1, hi) for i, k in enumerate(lens)]
	q = S.qname_if_needed(*parts)
	read_qname(sx, q, parts)
	got = S.split_qname(q)
	sx.check(sx.same(list(got), parts), 'split_qname(qname_if_needed(...)) differs')


def idents_list(sx, lens, hi, sep):
	"""a list of quoted identifiers splits back (search_path and the like)"""
	from postgresql import string as S
	parts = [sx.str('p%d' % i, k, 1, hi) for i, k in enumerate(lens)]
	q = (sep + ' ').join([S.quote_ident(x) for x in parts])
	got = S.split_ident(q, sep=sep)
	sx.check(sx.same(list(got), parts), 'split_ident of quoted identifiers differs')


def connection():
	from postgresql.driver.pq3 import Connection

	class C(Connection):
		def __init__(self):
			self.sent = []

		def execute(self, q):
			self.sent.append(q)
	return C()


def statements(sx, q):
	"""tokens of each statement of a query"""
	out = [[]]
	for t in lex(q):
		if t[0] == 'p' and t[1] == ';':
			out.append([])
		else:
			out[-1].append(t)
	return [x for x in out if x]


def listen(sx, lens, word):
	c = connection()
	ch = [sx.str('c%d' % i, k, 1, 0x2FF) for i, k in enumerate(lens)]
	getattr(c, word)(*ch)
	sx.check(len(c.sent) == 1, 'one query expected')
	st = statements(sx, c.sent[0])
	sx.check(len(st) == len(ch), 'wrong number of statements')
	for s, name in zip(st, ch):
		sx.check(len(s) == 2 and s[0][0] == 'w' and s[0][1] == word, 'not a %s statement' % word)
		if s[1][0] == 'p' and s[1][1] == '*' and word == 'unlisten':
			# UNLISTEN * : every channel
			sx.check(sx.same(name, '*'), 'wildcard sent for another name')
			continue
		sx.check(s[1][0] in ('i', 'w') and s[1][4], 'not an identifier')
		sx.check(sx.same(s[1][1], name), 'channel name changed')
	sx.reach('listen')


def notify(sx, kinds, n):
	"""kinds: 'n' plain name, 't' (name, payload), 'k' keyword name=payload"""
	c = connection()
	args, kw, want = [], {}, []
	for i, k in enumerate(kinds):
		name = sx.str('c%d' % i, n, 1, 0x2FF)
		pay = sx.str('p%d' % i, n, 1, 0x2FF)
		if k == 'n':
			args.append(name)
			want.append((name, None))
		elif k == 't':
			args.append((name, pay))
			want.append((name, pay))
		else:
			kw['chan'] = pay
			want.append(('chan', pay))
	c.notify(*args, **kw)
	sx.check(len(c.sent) == 1, 'one query expected')
	st = statements(sx, c.sent[0])
	sx.check(len(st) == len(want), 'wrong number of statements')
	for s, (name, pay) in zip(st, want):
		sx.check(len(s) == (2 if pay is None else 4), 'wrong statement')
		sx.check(s[0][0] == 'w' and s[0][1] == 'notify', 'not a notify statement')
		sx.check(s[1][0] in ('i', 'w') and s[1][4] and sx.same(s[1][1], name), 'channel name changed')
		if pay is not None:
			sx.check(s[2][0] == 'p' and s[2][1] == ',', 'no comma')
			sx.check(s[3][0] == 's' and s[3][4] and sx.same(s[3][1], pay), 'payload changed')
	sx.reach('notify')


def do(sx, n):
	"""Connection.do: the language and the source stay inside their quotes"""
	c = connection()
	lang = sx.str('lang', n, 1, 0x2FF)
	src = sx.str('src', n, 1, 0x2FF)
	c.do(lang, src)
	st = statements(sx, c.sent[0])
	sx.check(len(c.sent) == 1 and len(st) == 1 and len(st[0]) == 4, 'not one DO statement')
	a, b, l, d = st[0]
	sx.check(a[1] == 'do' and l[1] == 'language', 'not a DO statement')
	sx.check(b[0] == 's' and b[4] and sx.same(b[1], src), 'source changed')
	sx.check(d[0] in ('i', 'w') and d[4] and sx.same(d[1], lang), 'language changed')


def savepoint(sx, n):
	"""the savepoint statements of one identifier all name the same savepoint"""
	from postgresql.driver.pq3 import Transaction as T
	s = sx.str('s', n, 1, 0x2FF)
	names = []
	for q, words in ((T._savepoint_xact_string(s), [['savepoint']]), (T._release_string(s), [['release']]),
			(T._rollback_to_string(s), [['rollback', 'to'], ['release']])):
		st = statements(sx, q)
		sx.check(len(st) == len(words), 'wrong number of statements')
		for t, w in zip(st, words):
			sx.check([x[1] for x in t[:-1]] == w, 'wrong statement')
			sx.check(t[-1][0] == 'i' and t[-1][4], 'not an identifier')
			names.append(t[-1][1])
	for x in names[1:]:
		sx.check(sx.same(names[0], x), 'savepoint names differ')
	sx.reach('savepoint')


def tasks(tier):
	big = tier != 'quick'
	r = []
	for n in range(0, 6 if not big else 8):
		r.append(dict(fn='literal', params=dict(n=n), weight=n))
		r.append(dict(fn='ident', params=dict(n=n), weight=n))
	for n in range(0, 4 if not big else 5):
		r.append(dict(fn='ident_if_needed', params=dict(n=n, hi=0x17F), weight=n * 2))
	r.append(dict(fn='ident_if_needed', params=dict(n=1, hi=MAXC if big else 0x2FFF), weight=9))
	for lens in ([0], [1], [2], [3], [1, 1], [2, 1], [1, 2], [0, 1], [1, 1, 1], [2, 2]) + (
			([4], [3, 1], [1, 3], [2, 1, 1], [3, 2], [2, 2, 1]) if big else ()):
		r.append(dict(fn='qname', params=dict(lens=lens, hi=0x17F), weight=sum(lens) * 3))
	for lens in ([1], [2], [1, 1], [0, 1]) + (([3], [2, 1], [1, 1, 1]) if big else ()):
		r.append(dict(fn='qname_needed', params=dict(lens=lens, hi=0x17F), weight=sum(lens) * 3))
	for lens in ([1], [2, 1], [1, 2]):
		r.append(dict(fn='idents_list', params=dict(lens=lens, hi=0x17F, sep=','), weight=sum(lens) * 3))
	for lens in ([1], [2], [1, 1], [3]) + (([4], [2, 2]) if big else ()):
		for w in ('listen', 'unlisten'):
			r.append(dict(fn='listen', params=dict(lens=lens, word=w), weight=sum(lens) * 3))
	for kinds in ('n', 't', 'k', 'nt', 'tk', 'nn'):
		r.append(dict(fn='notify', params=dict(kinds=kinds, n=1 if len(kinds) > 1 else 2), weight=4))
	r.append(dict(fn='do', params=dict(n=2), weight=4))
	for n in (1, 2, 3):
		r.append(dict(fn='savepoint', params=dict(n=n), weight=n))
	return r

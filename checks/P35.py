"""P35: SQL library files."""
from .sqlserver import SQL, database

BOUNDS = ('files of up to 5 lines, each a section marker (names of 1 or 2 letters, every type and method and an invalid one, blanks around it), a comment, a reference or any '
	'text of up to 3 characters over ' + repr('[]*-:&a \t') + '; libraries bound to a connection: symbols of every type and method, references of 1 or 2 rows and columns, '
	'2 uses of each, categories of up to 2 libraries with and without other names')
OUTSIDE = ('two sections of one name; references to symbols that were not defined before, or to procedures; section markers with brackets inside or more than three '
	'components; procedures on the server')
REACH = ('preface', 'section', 'reference', 'comment', 'reference symbol', 'invalid type', 'invalid method', 'proc', 'preload', 'bound', 'const', 'transient', 'kept',
	'bound reference', 'category', 'other name', 'name taken', 'unknown symbol')
TYPES = ('', 'static', 'preload', 'const', 'proc', 'transient', 'some')
METHODS = ('', 'all', 'first', 'rows', 'chunks', 'declare', 'load_chunks', 'load_rows', 'column', 'some')
ALPHA = '[]*-:&a \t'


def blank(c):
	return c == ' ' or c == '\t' or c == '\n'


def trimmed(t):
	i, j = 0, len(t)
	while i < j and blank(t[i]):
		i += 1
	while i < j and blank(t[j - 1]):
		j -= 1
	return t[i:j]


def split(t, c):
	out = ['']
	for x in t:
		if x == c:
			out.append('')
		else:
			out[-1] = out[-1] + x
	return out


def spec(sx, lines):
	"""-> preface, [(name, is reference, type, method, source)]"""
	preface, sections = '', []
	for l in lines:
		t = trimmed(l)
		if len(t) > 1 and t[0] == '[' and t[-1] == ']':
			for c in t[1:-1]:
				sx.assume(sx.all(c != '[', c != ']'))
			p = split(t[1:-1], ':')
			sx.assume(len(p) <= 3)
			p += [''] * (3 - len(p))
			isref = len(p[0]) > 0 and p[0][0] == '&'
			name = p[0][1:] if isref else p[0]
			sx.assume(sx.all(*[sx.neg(sx.same(name, s[0])) for s in sections]))
			sections.append([name, isref, p[1], p[2], '', False])
			sx.reach('section')
			if isref:
				sx.reach('reference symbol')
		elif not sections:
			preface = preface + l
			sx.reach('preface')
		else:
			s = sections[-1]
			if l[:2] == '*[' and ']' in l:
				i = 0
				while l[i] != ']':
					i += 1
				for r in sections[:-1]:
					if r[0] == l[2:i]:
						sx.assume(r[2] != 'proc')
						l = r[4] + l[i + 1:]
						sx.reach('reference')
						break
				else:
					sx.assume(False)
			if not s[5] and l[:3] == '-- ':
				# documentation
				sx.reach('comment')
			else:
				s[5] = True
				s[4] = s[4] + l
	for s in sections:
		if s[2] == 'proc':
			s[4] = trimmed(s[4])
	return preface, sections


def text(sx, i, kind, sections):
	if kind == 'h':
		before, after = sx.choose('before%d' % i, ('', ' ')), sx.choose('after%d' % i, ('\n', ' \n'))
		# (the kinds of names, types and methods are tried one at a time)
		k = sx.choose('header%d' % i, ('plain', 'reference', 'type', 'method', 'both')) if not sections else 'plain'
		n = sx.str('name%d' % i, 1 + sections % 2, alphabet='ab') if k in ('plain', 'reference', 'method') else sx.choose('word%d' % i, ('a', 'ba'))
		if k in ('plain', 'reference'):
			t = ('&' if k == 'reference' else '') + n
		elif k == 'type':
			t = n + ':' + sx.choose('type%d' % i, TYPES)
		elif k == 'method':
			t = n + '::' + sx.choose('method%d' % i, METHODS)
		else:
			t = n + ':' + sx.choose('type%d' % i, ('preload', 'const')) + ':' + sx.choose('method%d' % i, METHODS)
		return before + '[' + t + ']' + after
	if kind == 'H':
		return '[' + sx.str('name%d' % i, 1, alphabet='ab') + ']\n'
	if kind == 'c':
		return '-- ' + sx.str('comment%d' % i, 1, alphabet=ALPHA) + '\n'
	if kind == 'r':
		return '*[' + sx.str('ref%d' % i, 1, alphabet='ab') + ']' + sx.str('rest%d' % i, 1, alphabet=ALPHA) + '\n'
	return sx.str('text%d' % i, int(kind), alphabet=ALPHA) + '\n'


def parsing(sx, kinds):
	from postgresql import lib
	lines = []
	for i, k in enumerate(kinds):
		lines.append(text(sx, i, k, (kinds[:i].count('h') + kinds[:i].count('H'))))
	preface, want = spec(sx, lines)
	bad = False
	for s in want:
		if s[2] not in TYPES[:-1]:
			sx.reach('invalid type')
			bad = True
		elif s[3] not in METHODS[:-1]:
			sx.reach('invalid method')
			bad = True
	try:
		l = lib.ILF.from_lines(lines)
	except ValueError:
		sx.check(bad, 'a good file is refused')
		return
	sx.check(not bad, 'a bad file is not refused')
	sx.check(sx.same(l.preface, preface), 'the preface is different')
	sx.check(len(list(l.symbols())) == len(want), 'the symbols are not those of the file')
	for name, isref, type, method, source, _ in want:
		s = l.get_symbol(name)
		sx.check(s is not None, 'a symbol is missing')
		sx.check(sx.same(s.name, name), 'the name is different')
		sx.check(sx.same(str(s), source), 'the source is different')
		sx.check(s.reference == isref, 'a reference symbol and a symbol are mixed up')
		sx.check(s.method == (method if method not in ('', 'all') else None), 'the method is different')
		sx.check((s.name in l.preload) == (type == 'preload'), 'the symbols to be prepared at once are different')
		sx.check(s.type == type or type in ('', 'preload') and not s.type, 'the type is different')
		if type in ('proc', 'preload'):
			sx.reach(type)


def rows(sx, name, n, columns):
	rs = [[sx.bytes('%s%d%d' % (name, i, c), 1) for c in range(columns)] for i in range(n)]
	for r in rs:
		for c in r:
			sx.assume(c[0] < 0x80)
	return rs


def result(method, rs):
	"""what a symbol of this method gives"""
	rs = [[c.decode('ascii') for c in r] for r in rs]
	if method == 'first':
		return None if not rs else rs[0][0] if len(rs[0]) == 1 else rs[0]
	if method == 'column':
		return [r[0] for r in rs]
	return rs


def given(method, x):
	if method == 'chunks':
		x = [r for c in x for r in c]
	if method == 'declare':
		x = x.read()
	if method == 'first':
		return x if x is None or isinstance(x, str) else list(x)
	if method == 'column':
		return list(x)
	return [list(r) for r in x]


def binding(sx, type, columns, n, isref=False, status='I'):
	from postgresql import lib
	from postgresql.protocol import element3 as e
	method = sx.choose('method', ('', 'first', 'rows', 'chunks', 'column', 'declare') if type != 'const' else ('', 'first', 'rows', 'chunks', 'column'))
	results = {b'SELECT x\n': rows(sx, 'x', n, columns)}
	l = ['[%ss:%s:%s]\n' % ('&' if isref else '', type, method), 'SELECT x\n', '[other]\n', 'SELECT y\n']
	if isref:
		# its rows make up the statement
		k = sx.choose('form', 4)
		parts = [[[b'SELECT x\n']], [[b'SELECT', b'x\n']], [[b'SELECT x'], [b'']], [[b'SELECT', b'x'], [b'', b'']]][k]
		l[1] = 'SELECT ref\n'
		results[b'SELECT ref\n'] = parts
		results[b'SELECT x\n '] = results[b'SELECT x\n']
	server = SQL(sx, e, results, status=status.encode(), type=25, columns=len(parts[0]) if isref else columns)
	if isref:
		# the columns of the reference and of the statement differ
		sx.assume(columns == len(parts[0]))
	db = database(sx, server)
	library = lib.ILF.from_lines(l)
	b = lib.Binding(db, library)
	prepared = [v for v in server.statements.values()]
	sx.check((results and (b'SELECT x\n' in prepared)) == (type == 'preload' and not isref), 'what is prepared when the library is bound is different')
	if not isref:
		sx.check((b'SELECT ref\n' not in prepared), 'prepared something else')
	want = result(method, results[b'SELECT x\n'])
	try:
		b.none
		sx.check(False, 'a symbol out of nothing')
	except AttributeError:
		sx.reach('unknown symbol')
	sx.reach('bound')
	seen = []
	for i in range(2):
		s = b.s
		seen.append(s)
		if isref:
			sx.reach('bound reference')
			if type != 'const':
				s = s()
			s = s()
		elif type != 'const':
			s = s()
		else:
			sx.reach('const')
		sx.check(sx.same(given(method, s), want), 'the result is not that of the statement')
	if type == 'transient':
		sx.check(seen[0] is not seen[1], 'a symbol that should not be kept is kept')
		sx.reach('transient')
	else:
		sx.check(seen[0] is seen[1], 'the symbol is made again')
		sx.reach('kept')


def category(sx, direct, named, taken=False):
	from postgresql import lib
	from postgresql.protocol import element3 as e
	server = SQL(sx, e, {b'SELECT x\n': rows(sx, 'x', 1, 1)}, type=25)
	db = database(sx, server)
	libs = []
	for i in range(2):
		l = lib.ILF.from_lines(['[s]\n', 'SELECT x\n'])
		l._name = sx.choose('name%d' % i, ('la', 'lb', 'lc'))
		libs.append(l)
	sx.assume(libs[0].name != libs[1].name)
	used = [libs[i].name for i in direct]
	names = {}
	for j, i in enumerate(named):
		k = sx.choose('alias%d' % j, ('la', 'na', 'nb'))
		sx.assume(k not in names and k not in used)
		names[k] = libs[i]
	cat = lib.Category(*[libs[i] for i in direct], **names)
	if taken:
		t = sx.choose('taken', tuple(used + list(names)))
		setattr(db, t, 'mine')
		try:
			cat(db)
			sx.check(False, 'something is replaced')
		except AttributeError:
			sx.reach('name taken')
		sx.check(getattr(db, t) == 'mine', 'something is replaced')
		return
	cat(db)
	sx.reach('category')
	where = dict(names)
	where.update((libs[i].name, libs[i]) for i in direct)
	for n in ('la', 'lb', 'lc', 'na', 'nb'):
		sx.check(hasattr(db, n) == (n in where), 'the libraries are at other names')
		if n in names:
			sx.reach('other name')
		if n in where:
			sx.check(getattr(db, n).__symbol_library__ is where[n], 'another library')
			sx.check([list(r) for r in getattr(db, n).s()] == [[server.results[b'SELECT x\n'][0][0].decode('ascii')]], 'the result is not that of the statement')


def tasks(tier):
	F = lambda *k: dict(fn='parsing', params=dict(kinds=list(k)), weight=3)
	t = [F('h'), F('h', '1'), F('h', 'c', '1'), F('2', 'h', '0'), F('r', 'H', '1'), F('2', '2'), F('3', 'H', '1'), F('H', 'c', '2'), F('H', '3'), F('H', '2', '1'), F('H', '1', '2'),
		F('H', '2', 'H', '1'), F('H', '1', 'H', 'r'), F('H', '2', 'H', 'r'), F('H', 'c', 'H', 'c', 'r'), F('H', '1', 'H', 'r', '1'), F('H', '0', 'H', 'r', 'c'), F('H', 'c', 'c', '1'),
		F('H', '0', 'c', '1'), F('H', '0', 'H', '1', 'r'), F('H', '0', 'H', '0', 'H', 'r'), F('h', 'h')]
	for type in ('', 'static', 'preload', 'const', 'transient'):
		for ref in (False, True):
			for st in ('I', 'T'):
				t += [dict(fn='binding', params=dict(type=type, columns=c, n=n, isref=ref, status=st), weight=2) for c in (1, 2) for n in (0, 1, 2)]
	C = lambda d, n, **k: dict(fn='category', params=dict(direct=d, named=n, **k))
	t += [C([0], []), C([0, 1], []), C([], [0]), C([0], [1]), C([0], [0]), C([0], [0, 1]), C([], [0, 0]), C([0], [1], taken=True), C([0, 1], [], taken=True)]
	if tier == 'thorough':
		t += [F('H', '3', '2'), F('H', '2', '3'), F('h', '1', 'H', 'r'), F('H', '2', 'H', 'r', '1'), F('H', '1', 'H', 'r', 'H', 'r'), F('3', 'h', '1'), F('h', '2', 'h'), F('H', '4'),
			F('H', '1', 'H', '1', 'r'), F('H', '1', 'H', 'r', 'c')]
	return t

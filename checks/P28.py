"""P28: editing configuration files."""
import io
import os
import shutil
import tempfile
BOUNDS = ('a line of up to 6 characters (7 in the thorough tier) over ' + repr("a1_.=#' \n") + '; files of up to 3 lines of 12 forms (set, commented, with a '
	'comment, quoted, empty, prose), with values of up to 2 symbolic characters; alterations of 1 or 2 settings to any value of up to 3 characters below U+0100 '
	'or to nothing; up to 3 operations on a ConfigFile')
OUTSIDE = ('malformed lines, such as unterminated quotes; lines without "="; the same name in different cases; line ends in values; backslash escapes; crashes '
	'while the file is written')
REACH = ('set', 'commented', 'quoted', 'changed', 'uncommented', 'added', 'removed', 'kept', 'duplicate', 'nothing', 'empty file')
NAME = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.'
SPACE = ' \t\n'


def space(sx, c):
	return sx.any(c == ' ', c == '\t', c == '\n')


class Line:
	"""what a line says: [#...] name = value [rest]"""
	def __init__(self, sx, l):
		self.key = None
		self.commented = False
		i = 0
		n = len(l)
		while i < n and (space(sx, l[i]) or l[i] == '#'):
			if l[i] == '#':
				self.commented = True
			i += 1
		k = i
		while i < n and not (space(sx, l[i]) or l[i] == '#' or l[i] == '=' or l[i] == "'"):
			i += 1
		key = l[k:i]
		while i < n and space(sx, l[i]):
			i += 1
		if i == n or l[i] != '=' or not len(key):
			# not a setting; an uncommented line that is neither is malformed
			self.prose = True
			self.malformed = '=' in l and not self.commented and not len(key)
			return
		self.prose = False
		self.malformed = False
		i += 1
		while i < n and l[i] != '\n' and space(sx, l[i]):
			i += 1
		v = ''
		self.start = i
		self.quoted = False
		if i < n and l[i] == "'":
			self.quoted = True
			i += 1
			while True:
				if i == n:
					self.malformed = True
					break
				if l[i] == "'":
					if i + 1 < n and l[i + 1] == "'":
						v = v + "'"
						i += 2
						continue
					i += 1
					break
				v = v + l[i]
				i += 1
			if i < n and not space(sx, l[i]) and l[i] != '#':
				self.malformed = True
		else:
			while i < n and not space(sx, l[i]) and l[i] != '#':
				if l[i] == "'":
					self.malformed = True
				v = v + l[i]
				i += 1
		self.key = key
		self.value = v
		self.rest = l[i:]
		r = self.rest.strip()
		if not self.commented and len(r) and r[0] != '#':
			self.malformed = True


def spec_read(sx, lines):
	d = {}
	for l in lines:
		p = Line(sx, l)
		sx.assume(not p.malformed)
		if p.key is not None and not p.commented:
			d[p.key] = p.value
	return d


def module():
	from postgresql import configfile as C
	return C


def read(sx, n, extra):
	"""one line of any text"""
	C = module()
	l = sx.str('line', n, alphabet="a1_.=#' \n")
	for c in l[:-1]:
		sx.assume(c != '\n')
	lines = [l] + (["b = 'x'\n"] if extra else [])
	want = spec_read(sx, lines)
	got = C.read_config(lines)
	sx.observe('got', got)
	sx.reach('set' if len(want) > extra else 'nothing')
	sx.check(got == want, 'the settings read are the ones the lines set')


FORMS = ('%s = %s', '%s=%s', '#%s = %s', ' # %s = %s  # c', '\t%s = %s # c', "%s = '%s'", "#%s='%s'#c", '%s =', '# prose %s: %s', '#\n', '', '%s = %s#c=d')


def build(sx, forms, keys, alphabet='xyZ9'):
	lines = []
	for i, f in enumerate(forms):
		if '%s' in f:
			k = keys[i]
			if f.count('%s') == 2:
				v = sx.str('value%d' % i, 1, alphabet=alphabet + "# '" if "'" in f else alphabet)
				if "'" in f:
					sx.reach('quoted')
					if v == "'":
						v = "''"
				a, b, c = f.split('%s')
				l = a + k + b + v + c
			else:
				l = f % k
		else:
			l = f
		lines.append(l if l[-1:] == '\n' else l + '\n')
	return lines


def judge(sx, lines, changes, got):
	"""`got`: the lines after `changes`"""
	C = module()
	before = [Line(sx, l) for l in lines]
	for p in before:
		sx.assume(not p.malformed)
	want = spec_read(sx, lines)
	for k, v in changes.items():
		if v is None:
			if k in want:
				sx.reach('removed')
				del want[k]
		else:
			sx.reach('changed' if k in want else 'added')
			want[k] = v
	sx.check(C.read_config(got) == want, 'reading gives the new values of the altered settings and the old values of the others')
	after = [Line(sx, l) for l in got]
	w = {}
	for l, p in zip(got, after):
		sx.check(not p.malformed, 'no line is malformed')
		if p.key is not None and not p.commented:
			w[p.key] = p.value
	sx.check(w == want, 'the file says the new values of the altered settings and the old values of the others')
	sx.check(len(got) >= len(lines), 'no line is removed')
	for i, (l, p) in enumerate(zip(lines, before)):
		g = got[i]
		if i == len(lines) - 1 and l[-1:] != '\n' and g[-1:] == '\n':
			g = g[:-1]			# completed for another line to follow
		if p.key is None or p.key not in changes:
			sx.reach('kept')
			sx.check(g == l, 'other lines are not changed')
			continue
		v = changes[p.key]
		# unchanged, commented out, or changed in its value only
		if g == l:
			continue
		if not p.commented and g == '#' + l:
			continue
		q = after[i]
		if q.commented or p.commented and v is None:
			sx.fail('a line is changed otherwise than in its value: %r' % (g,))
		if p.commented:
			sx.reach('uncommented')
		sx.check(q.key == p.key and v is not None, 'a changed line is about the same setting')
		r = p.rest.strip()
		sx.check(q.rest.strip() == (r if not len(r) or r[0] == '#' else '#' + r), 'the comment of the line is kept')
		sx.check(not p.commented or p.value == v or p.key not in [b.key for j, b in enumerate(before) if b.key == p.key and not b.commented and b.value == v],
			'a line that says the same is left')
	for p in after[len(lines):]:
		sx.check(p.key in changes and not p.commented, 'only altered settings are added')
	keys = [p.key for p in after if p.key is not None and not p.commented and p.key in changes]
	if len([1 for p in before if p.key is not None and not p.commented and p.key in changes]) > len(changes):
		sx.reach('duplicate')
	sx.check(len(keys) == len(set(keys)), 'an altered setting is set once')


def value(sx, name, n):
	v = sx.str(name, n, lo=1, hi=0xff)
	for c in v:
		for x in '\n\r\x0b\x0c\x1c\x1d\x1e\x85':
			sx.assume(c != x)
	return v


def alter(sx, n, size, what, forms=FORMS):
	"""files of usual lines"""
	C = module()
	forms = [sx.choose('form%d' % i, tuple(forms)) for i in range(n)]
	keys = [sx.choose('key%d' % i, ('a', 'b.c')) if '%s' in f else 'a' for i, f in enumerate(forms)]
	lines = build(sx, forms, keys)
	if not lines:
		sx.reach('empty file')
	elif '=' in lines[-1] and sx.choose('unfinished', 2):
		lines[-1] = lines[-1][:-1]
	changes = {}
	for w in what:
		k, kind = w.split(':')
		if kind == 'none':
			changes[k] = None
		elif kind == 'same':
			changes[k] = sx.str('new ' + k, 1, alphabet='xyZ9')
		else:
			changes[k] = value(sx, 'new ' + k, size)
	for l in lines:
		if l[:1] == '#':
			sx.reach('commented')
	kept = list(lines)
	got = C.alter_config(dict(changes), iter(lines))
	sx.observe('got', got)
	sx.check(lines == kept, 'the lines given are not altered')
	judge(sx, lines, changes, got)


def free(sx, n, size):
	"""a line of any text"""
	C = module()
	l = sx.str('line', n, alphabet="a=#' x") + '\n'
	lines = [l] + [['b = 1\n'], ['#a = 1\n'], ['a = 2\n'], []][sx.choose('second', 4)]
	v = None if sx.choose('none', 2) else value(sx, 'new', size)
	changes = {'a': v}
	got = C.alter_config(dict(changes), iter(lines))
	sx.observe('got', got)
	judge(sx, lines, changes, got)


class Files:
	"""a file in memory"""
	def __init__(self, text):
		self.text = text
		self.writes = 0

	def open(self, path, mode='r'):
		assert path == 'p'
		return File(self, mode)


class File:
	def __init__(self, fs, mode):
		self.fs, self.mode, self.out = fs, mode, ''
		if 'w' in mode:
			fs.text = ''

	def __enter__(self):
		return self

	def __exit__(self, *exc):
		self.close()

	def close(self):
		if 'w' in self.mode:
			self.fs.text = self.out
			self.fs.writes += 1

	def write(self, s):
		self.out = self.out + s

	def writelines(self, ls):
		for l in ls:
			self.write(l)

	def __iter__(self):
		return iter(self.readlines())

	def read(self):
		return self.fs.text

	def readlines(self):
		out, cur = [], ''
		for c in self.fs.text:
			cur = cur + c
			if c == '\n':
				out.append(cur)
				cur = ''
		if len(cur):
			out.append(cur)
		return out


def mapping(sx, n, ops):
	"""the file as a mapping"""
	C = module()
	text = sx.choose('text', ('', "a = 1\n# c\nb = 'x y' # d\n", "#a = 1\nb=2"))
	model = {'': {}, 'a': {'a': '1', 'b': 'x y'}, '#': {'b': '2'}}[text[:1]]
	fs = Files(text)
	cf = C.ConfigFile('p', open=fs.open)
	stack = []
	for i in range(n):
		op = sx.choose('op%d' % i, ops)
		k = sx.choose('key%d' % i, ('a', 'b')) if op not in ('update', 'with') else 'a'
		if op == 'set':
			model[k] = v = value(sx, 'v%d' % i, 1)
			cf[k] = v
		elif op == 'del':
			model.pop(k, None)
			del cf[k]
		elif op == 'update':
			v = value(sx, 'v%d' % i, 1)
			model['a'] = v
			model.pop('b', None)
			model['c'] = 'q'
			cf.update({'a': v, 'b': None, 'c': 'q'})
		elif op == 'with':
			v = value(sx, 'v%d' % i, 1)
			inner = dict(model, a=v, d='t')
			try:
				with cf(a=v, d='t'):
					agree(sx, cf, inner)
					if sx.choose('raises%d' % i, 2):
						raise KeyError('inner')
			except KeyError as e:
				sx.check(e.args == ('inner',), 'another error')
		agree(sx, cf, model)
	sx.observe('text', fs.text)


def agree(sx, cf, model):
	sx.check(dict(cf.items()) == model, 'items()')
	sx.check(sorted(cf.keys()) == sorted(model) and sorted(iter(cf)) == sorted(model) and len(cf) == len(model), 'keys()')
	sx.check(list(cf.values()) == [dict(cf.items())[k] for k in cf.keys()], 'values()')
	for k in ('a', 'b', 'c'):
		sx.check(cf.get(k, 'absent') == model.get(k, 'absent'), 'get()')
		try:
			v = cf[k]
		except KeyError:
			sx.check(k not in model, 'a setting is missing')
		else:
			sx.check(k in model and v == model[k], 'an item')
	sx.check(cf.getset(['a', 'b', 'zz']) == {'a': model.get('a'), 'b': model.get('b'), 'zz': None}, 'getset()')


def dotconf(sx):
	"""the command that edits a file"""
	from postgresql.bin import pg_dotconf as D
	C = module()
	tmp = tempfile.mkdtemp(prefix='p28-')
	try:
		f, g = os.path.join(tmp, 'conf'), os.path.join(tmp, 'more')
		with open(f, 'w') as o:
			o.write("a = 1 # one\n#b = 2\nc = 3\n# end\n")
		with open(g, 'w') as o:
			o.write("# a = 9\n  c = 'x y' # z\n")
		args = ['pg_dotconf'] + (['-f', g] if sx.choose('file', 2) else []) + [f]
		want = {'a': '1', 'c': '3'}
		if '-f' in args:
			want['c'] = 'x y'
		for k in ('a', 'b', 'c'):
			w = sx.choose('arg ' + k, ('', 'set', 'clear'))
			if w == 'set':
				args.append(k + '= v=' + k)
				want[k] = ' v=' + k
			elif w:
				args.append(k)
				want.pop(k, None)
		r = D.command(args)
		with open(f) as o:
			text = o.read()
		sx.observe('text', text)
		sx.check(r == 0 and C.read_config(text.splitlines(True)) == want, 'the arguments are applied after the files')
		sx.check(text.endswith('# end\n') or '# end\n' in text, 'comments are kept')
	finally:
		shutil.rmtree(tmp)


def tasks(tier):
	deep = tier == 'thorough'
	t = []

	def add(fn, weight=1, **k):
		t.append(dict(fn=fn, params=k, weight=weight))
	for n in range(1, 8 if deep else 7):
		add('read', n=n, extra=1 if n < 4 else 0, weight=n)
	for what in (('a:new',), ('a:none',), ('a:same',), ('a:new', 'b.c:none'), ('b.c:same', 'a:same')):
		for n in (0, 1, 2):
			add('alter', n=n, size=1 if n == 2 and not deep else 2, what=what, weight=n)
	add('alter', n=3, size=1, what=('a:same',), forms=FORMS[:1] + FORMS[2:3] + FORMS[7:9], weight=4)
	if deep:
		for f in FORMS:
			add('alter', n=3, size=1, what=('a:same',), forms=[f] + [x for x in (FORMS[0], FORMS[2], FORMS[5]) if x != f], weight=4)
		add('alter', n=1, size=3, what=('a:new',), weight=4)
	for n in range(1, 6 if deep else 5):
		add('free', n=n, size=1, weight=n)
	add('mapping', n=1, ops=('set', 'del', 'update', 'with'))
	add('mapping', n=3 if deep else 2, ops=('set', 'del', 'update', 'with'), weight=3)
	add('dotconf')
	return t

"""P27: where connection parameters come from, and which source wins."""
import os
import shutil
import sys
import tempfile
import types
BOUNDS = ('every pair of the 17 documented environment variables, each present or not in the environment, in the given parameters and 0 to 2 times in the '
	'options, with and without the defaults, values of up to 2 symbolic characters; 2 settings given by every source; up to 4 denormalized parameters of '
	'up to 3 paths; service files in the 3 places a service is looked for, present or not, with and without the section; an IRI between 2 options; every command '
	'line option once and twice; passwords of up to 2 symbolic characters')
OUTSIDE = 'Windows; LDAP services; a password file consulted without user, host or port; files that cannot be read; the grammar of service files'
ASSUMPTIONS = ('optparse, configparser and the file system behave as documented',)
REACH = ('defaults', 'parameters', 'environment', 'option', 'repeated option', 'merged', 'service', 'no service', 'IRI', 'prompted', 'read from stdin', 'looked up',
	'kept', 'opened', 'unix')

# documented: variable -> where it goes
ENV = {
	'USER': ('user',), 'DATABASE': ('database',), 'HOST': ('host',), 'HOSTADDR': ('host',), 'PORT': ('port',), 'PASSWORD': ('password',),
	'SSLMODE': ('sslmode',), 'REQUIRESSL': ('sslmode',), 'SSLKEY': ('sslkey',), 'CONNECT_TIMEOUT': ('connect_timeout',), 'REALM': ('kerberos4_realm',),
	'KRBSRVNAME': ('kerberos5_service',), 'PASSFILE': ('pgpassfile',), 'TZ': ('settings', 'timezone'), 'DATESTYLE': ('settings', 'datestyle'),
	'CLIENTENCODING': ('settings', 'client_encoding'), 'GEQO': ('settings', 'geqo'),
}
NAMES = tuple(ENV)


class Patched:
	def __init__(self, N, user='usr', home='/nonexistent-home'):
		self.N, self.user, self.home = N, user, home

	def __enter__(self):
		self.old = (self.N.getuser, os.path.expanduser)
		self.N.getuser = lambda: self.user
		os.path.expanduser = lambda p: p.replace('~' + self.user, self.home, 1) if p.startswith('~') else p

	def __exit__(self, *exc):
		self.N.getuser, os.path.expanduser = self.old


def put(d, path, v):
	for k in path[:-1]:
		d = d.setdefault(k, {})
	d[path[-1]] = v


def module():
	from postgresql import clientparameters as N
	return N


def value(sx, name):
	return sx.str(name, 2, lo=33, hi=126)


def sources(sx, a, prefix='PG'):
	"""two variables in every source"""
	N = module()
	b = sx.choose('second', NAMES[NAMES.index(a):])
	names = (a,) if b == a else (a, b)
	env, par, opts, want = {}, {}, [], {}
	nodef = sx.choose('no defaults', 2)
	if not nodef:
		sx.reach('defaults')
		want.update(user='usr', host='localhost', port=5432)
	for n in names:
		if sx.choose('in parameters ' + n, 2):
			sx.reach('parameters')
			v = value(sx, 'par' + n)
			put(par, ENV[n], v)
	for k, v in par.items():
		if k == 'settings':
			want.setdefault('settings', {}).update(v)
		else:
			want[k] = v
	for n in names:
		if sx.choose('in environment ' + n, 2):
			sx.reach('environment')
			if n == 'REQUIRESSL':
				v = sx.choose('requiressl', ('1', '0', ' 1', ''))
			else:
				v = value(sx, 'env' + n)
			env[prefix + n] = v
	# the two that are overridden by another of the environment
	for n in ('REQUIRESSL',) + tuple(x for x in NAMES if x not in ('REQUIRESSL', 'HOSTADDR')) + ('HOSTADDR',):
		if prefix + n in env:
			if n != 'REQUIRESSL':
				put(want, ENV[n], env[prefix + n])
			elif env[prefix + n].strip() == '1':
				put(want, ENV[n], 'require')
	for n in names:
		for i in range(sx.choose('options ' + n, 3)):
			v = value(sx, 'opt%s%d' % (n, i))
			sx.reach('repeated option' if i else 'option')
			opts.append((ENV[n], v))
	if len(opts) > 1 and sx.choose('reversed', 2):
		opts.reverse()
	for k, v in opts:
		put(want, k, v)
	kept = (dict(env), {k: dict(v) if k == 'settings' else v for k, v in par.items()})
	with Patched(N):
		got = N.collect(parsed_options=types.SimpleNamespace(db_client_parameters=list(opts)), no_defaults=bool(nodef), environ=env,
			environ_prefix=prefix, parameters=par, prompt_title=None)
	sx.observe('got', got)
	sx.check(got == want, 'the parameters are those of the last source that gives each')
	sx.check((env, par) == kept, 'the sources are not altered')


def merged(sx, n):
	"""denormalized parameters"""
	N = module()
	paths = (('a',), ('b',), ('settings', 'x'), ('settings', 'y'))
	items = []
	want = {}
	for i in range(n):
		p = sx.choose('path%d' % i, paths)
		v = value(sx, 'v%d' % i)
		items.append((p, v))
		put(want, p, v)
	got = N.normalize(iter(items))
	sx.observe('got', got)
	sx.reach('merged')
	sx.check(got == want, 'a later parameter replaces an earlier one key by key')
	again = N.normalize(N.denormalize_parameters(got))
	sx.check(again == want, 'denormalizing keeps every parameter')
	sx.check(again is not got and again.get('settings', 1) is not got.get('settings', 2), 'the given dictionary is not shared')
	sx.check(N.normalize(N.extrapolate(iter(items))) == want, 'plain parameters are not changed by expansion')


def expanded(sx, n):
	"""sources are expanded where they are"""
	N = module()
	items, flat = [], []

	def make(i, depth):
		k = sx.choose('kind%d' % i, ('p', 'q', 's', 'x', 'c', 'u') if depth else ('p', 'q', 's', 'u'))
		v = value(sx, 'v%d' % i)
		if k == 'x':
			# a source of two parameters, the second perhaps a source
			inner = [(('p',), v), make(i + 10, False)]
			return ('src', inner)
		if k == 'c':
			return ('config-name', v)
		if k == 'u':
			return ('unknown', v)
		return ((k,) if k != 's' else ('settings', 'z'), v)

	def lay(it):
		k, v = it
		if k == 'src':
			for x in v:
				lay(x)
		elif type(k) is tuple:
			flat.append(it)
	config = {'at': 'start'}
	cbs = {'src': lambda v, c: list(v), 'unused': None}
	for i in range(n):
		it = make(i, True)
		items.append(it)
		lay(it)
	got = list(N.extrapolate(iter(items), config=config, callbacks=cbs))
	sx.observe('got', got)
	sx.check(got == flat, 'sources are expanded in place')
	cs = [v for k, v in items if k == 'config-name']
	if cs:
		sx.check(config.get('name') == cs[-1], 'configuration of the sources is kept')


def service(sx):
	N = module()
	tmp = tempfile.mkdtemp(prefix='p27-')
	try:
		home, sys1, sys2 = [os.path.join(tmp, x) for x in ('home', 'sys1', 'sys2')]
		for x in (home, sys1, sys2):
			os.mkdir(x)
		own = os.path.join(tmp, 'own.conf')
		places = {'home': os.path.join(home, '.pg_service.conf'), 'own': own, 'sys1': os.path.join(sys1, 'pg_service.conf'), 'sys2': os.path.join(sys2, 'pg_service.conf')}
		use_own = sx.choose('own file', ('', 'environment', 'argument'))
		use_sys = sx.choose('system directory', ('', 'environment', 'argument', 'both'))
		order = ['own' if use_own else 'home']
		if use_sys:
			order.append('sys2' if use_sys == 'argument' else 'sys1')
		found = None
		for p in order:
			k = sx.choose('file ' + p, ('absent', 'another', 'here'))
			if k == 'absent':
				continue
			with open(places[p], 'w') as f:
				f.write('[other]\nhost=wrong\nfoo=wrong\n[%s]\nDBNAME=db-%s\nhostaddr=h-%s\nport=1\nuser=u-%s\nsslmode=require\n'
					'pg_service=x\nwork_mem=w-%s\n[third]\nhost=wrong\n' % ('svc' if k == 'here' else 'nosvc', p, p, p, p))
			if k == 'here' and found is None:
				found = p
		env = {'PGSERVICE': 'svc', 'PGUSER': 'env', 'PGGEQO': 'on', 'PGPASSWORD': 'pw'}
		kw = {}
		if use_own == 'environment':
			env['PGSERVICEFILE'] = own
		elif use_own:
			kw['pg_service_file'] = own
		if use_sys in ('environment', 'both'):
			env['PGSYSCONFDIR'] = sys1
		if use_sys in ('argument', 'both'):
			kw['default_pg_sysconfdir'] = sys2
		opts = types.SimpleNamespace(db_client_parameters=[(('port',), '2')] if sx.choose('option', 2) else [])
		with Patched(N, home=home):
			try:
				got = N.collect(parsed_options=opts, environ=env, prompt_title=None, parameters={'user': 'par', 'host': 'par', 'settings': {'work_mem': 'par', 'm': 'n'}}, **kw)
			except N.ServiceDoesNotExistError:
				got = None
		sx.observe('got', got)
		if found is None:
			sx.reach('no service')
			sx.check(got is None, 'a service that is not defined is an error')
			return
		sx.reach('service')
		want = dict(user='u-' + found, host='h-' + found, database='db-' + found, port='2' if opts.db_client_parameters else '1', password='pw', sslmode='require',
			settings={'work_mem': 'w-' + found, 'm': 'n', 'geqo': 'on'})
		sx.check(got == want, 'a service overrides the environment and is overridden by options')
	finally:
		shutil.rmtree(tmp)


OPTIONS = (
	(('-U', 'o1'), ('user',), 'o1'), (('--username=o2',), ('user',), 'o2'), (('-h', 'o3'), ('host',), 'o3'), (('--host', 'o4'), ('host',), 'o4'),
	(('-p', '5'), ('port',), '5'), (('--port=6',), ('port',), '6'), (('-d', 'o7'), ('database',), 'o7'), (('--database', 'o8'), ('database',), 'o8'),
	(('-W',), ('prompt_password',), True), (('--unix', '/s'), ('unix',), '/s'), (('-s', 'n=a=b'), ('settings', 'n'), 'a=b'),
	(('--setting', 'm='), ('settings', 'm'), ''), (('-s', 'n=2'), ('settings', 'n'), '2'), (('--ssl-mode', 'allow'), ('sslmode',), 'allow'),
	(('--ssl-mode=require',), ('sslmode',), 'require'),
)
IRIS = (
	(('-I', 'pq://iu:ipw@ih:7/idb?[sslmode]=prefer&n=iri'), {('user',): 'iu', ('password',): 'ipw', ('host',): 'ih', ('port',): '7', ('database',): 'idb',
		('sslmode',): 'prefer', ('settings', 'n'): 'iri'}),
	(('--iri', 'pq://[unix::t]/?k=v'), {('unix',): '/t', ('settings', 'k'): 'v'}),
	(('--iri=h2',), {('host',): 'h2'}),
)


def options(sx, n):
	"""the command line"""
	N = module()
	argv, flat = [], []
	for i in range(n):
		o = sx.choose('option%d' % i, len(OPTIONS) + len(IRIS))
		if o < len(OPTIONS):
			args, path, v = OPTIONS[o]
			flat.append((path, v))
			sx.reach('option')
		else:
			args, d = IRIS[o - len(OPTIONS)]
			flat.extend(d.items())
			sx.reach('IRI')
		argv.extend(args)
	env = {'PGUSER': 'e', 'PGHOST': 'e', 'PGPORT': 'e', 'PGDATABASE': 'e', 'PGSSLMODE': 'e'}
	want = dict(user='e', host='e', port='e', database='e', sslmode='e')
	for p, v in flat:
		put(want, p, v)
	with Patched(N):
		co, ca = N.DefaultParser().parse_args(argv + ['rest'])
		got = N.collect(parsed_options=co, environ=env, prompt_title=None)
	sx.observe('got', got)
	sx.check(ca == ['rest'], 'arguments that are not options are left')
	sx.check(got == want, 'options override the environment in their order')


def bad_options(sx):
	N = module()
	import io
	for argv in (['-s', 'novalue'], ['--ssl-mode', 'sometimes'], ['-U']):
		old = sys.stderr
		sys.stderr = io.StringIO()
		try:
			N.DefaultParser().parse_args(argv)
			sx.fail('%r is accepted' % (argv,))
		except SystemExit as e:
			sx.check(e.code == 2, 'a usage error')
		finally:
			sys.stderr = old


class Stdin:
	def __init__(self, tty, line):
		self.tty, self.line = tty, line

	def isatty(self):
		return self.tty

	def readline(self):
		return self.line


def password(sx):
	N = module()
	tmp = tempfile.mkdtemp(prefix='p27-')
	old = sys.stdin
	try:
		passfile = os.path.join(tmp, 'pass')
		file_ = sx.choose('file', ('no', 'missing', 'found', 'other'))
		if file_ in ('found', 'other'):
			with open(passfile, 'w') as f:
				f.write('h:1:%s:usr:secret\n' % ('d' if file_ == 'found' else 'x'))
		given = sx.choose('given', ('no', 'none', 'yes'))
		prompt = sx.choose('prompt', ('no', 'false', 'yes'))
		tty = bool(sx.choose('tty', 2))
		title = sx.choose('title', (None, '', 'TITLE'))
		keyed = sx.choose('keyed', ('no', 'KEYED'))
		typed = sx.str('typed', 2, lo=33, hi=126)
		base = {'user': 'usr', 'host': 'h', 'port': 1, 'database': 'd', 'settings': {'a': 'b'}}
		prompts = []

		def getpass(p):
			prompts.append(p)
			return typed
		kw = {}
		if title is not None:
			kw['prompt_title'] = title
		results = []
		for who in ('one', 'two'):
			p = dict(base)
			if file_ != 'no':
				p['pgpassfile'] = passfile
			if given != 'no':
				p['password'] = None if given == 'none' else sx.str('given-' + who, 2, lo=33, hi=126)
			if prompt != 'no':
				p['prompt_password'] = prompt == 'yes'
			if keyed != 'no':
				p['prompt_title'] = keyed
			before = p.get('password')
			sys.stdin = Stdin(tty, typed + '\n')
			N.resolve_password(p, getpass=getpass, **kw)
			want = dict(base)
			if prompt == 'yes':
				sx.reach('prompted' if tty else 'read from stdin')
				want['password'] = typed
			elif given == 'yes':
				sx.reach('kept')
				want['password'] = before
			elif file_ == 'found':
				sx.reach('looked up')
				want['password'] = 'secret'
			elif p.get('password') is None:
				p.pop('password', None)
			sx.check(p == want, 'the password is the one typed, the one given, or else the one of the file')
		sx.observe('prompts', prompts)
		sx.check(len(prompts) == (2 if prompt == 'yes' and tty else 0), 'the user is asked only when told to')
		if prompts:
			sx.check(prompts[0] == prompts[1], 'the prompt does not show the password')
			t = title or (keyed if keyed != 'no' else '')
			sx.check(t in prompts[0], 'the prompt shows the title')
			sx.check('KEYED' not in prompts[0] or t == 'KEYED', 'the title given is the one shown')
	finally:
		sys.stdin = old
		shutil.rmtree(tmp)


def opened(sx):
	"""postgresql.open: the environment, then the IRI, then the keywords"""
	import postgresql
	from postgresql import driver
	N = module()
	iri, d = sx.choose('iri', ((None, {}), ('&pq://iu:ipw@ih:7/idb/more?[sslmode]=prefer&n=iri', {('user',): 'iu', ('password',): 'ipw', ('host',): 'ih', ('port',): '7',
		('database',): 'idb', ('sslmode',): 'prefer', ('settings', 'n'): 'iri'}), ('&pq://[unix::t]/db?k=v', {('unix',): '/t', ('database',): 'db', ('settings', 'k'): 'v'}),
		('&h/db', {('host',): 'h', ('database',): 'db'})))
	kw = {}
	for k in ('user', 'host', 'unix', 'sslmode'):
		if sx.choose('keyword ' + k, 2):
			if k != 'unix' or 'host' not in kw:
				kw[k] = value(sx, k)
	if sx.choose('settings', 2):
		kw['settings'] = {'n': value(sx, 'n'), 'o': value(sx, 'o')}
	env = {'PGUSER': 'e', 'PGPASSWORD': 'e', 'PGGEQO': 'e'}
	if sx.choose('environment', 2):
		env.update(PGHOST='e', PGPORT='e', PGDATABASE='e')
	want = dict(user='usr', host='localhost', port=5432)
	for n in ENV:
		if 'PG' + n in env:
			put(want, ENV[n], env['PG' + n])
	unix = 'unix' in kw or ('unix',) in d
	if unix:
		sx.reach('unix')
		want.pop('host')
		want.pop('port')
	for p, v in d.items():
		put(want, p, v)
	for k, v in kw.items():
		if k == 'settings':
			want.setdefault(k, {}).update(v)
		else:
			want[k] = v
	calls = []

	class Connection:
		def connect(self):
			calls.append('connect')

	def fit(**kw):
		calls.append(kw)
		return Connection
	saved = {k: os.environ[k] for k in os.environ if k.startswith('PG')}
	dfit = driver.default.__dict__.get('fit')
	try:
		for k in saved:
			del os.environ[k]
		os.environ.update(env)
		driver.default.fit = fit
		with Patched(N):
			if iri is None:
				r = postgresql.open(**kw)
			else:
				r = postgresql.open(iri, **kw)
	finally:
		del driver.default.fit
		for k in env:
			os.environ.pop(k, None)
		os.environ.update(saved)
	sx.observe('calls', calls)
	sx.reach('opened')
	sx.check(calls[0] == want, 'keywords override the IRI, which overrides the environment')
	if iri is None:
		sx.check(type(r) is Connection and calls[1:] == ['connect'], 'the connection is opened')
	else:
		sx.check(r is Connection and len(calls) == 1, 'the connector is given')


def tasks(tier):
	deep = tier == 'thorough'
	t = [dict(fn='sources', params=dict(a=a), weight=len(NAMES) - i) for i, a in enumerate(NAMES)]
	t += [dict(fn='sources', params=dict(a='HOST', prefix='PG_SRC_'))]
	t += [dict(fn='merged', params=dict(n=n)) for n in ((3, 5) if deep else (2, 4))]
	t += [dict(fn='expanded', params=dict(n=4 if deep else 3)), dict(fn='service', params={}), dict(fn='options', params=dict(n=1)),
		dict(fn='options', params=dict(n=3 if deep else 2)), dict(fn='bad_options', params={}), dict(fn='password', params={}), dict(fn='opened', params={})]
	return t

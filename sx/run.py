"""Runs the symbolic tasks of one property's check."""
import json
import multiprocessing as mp
import os
import queue as _queue
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = os.environ.get('VERIF_VENV_PY', '/opt/venv/bin/python')
if not os.path.exists(VENV_PY):
	VENV_PY = sys.executable

_mod = None
_conc = {}


def _init(modname):
	global _mod
	sys.path.insert(0, VERIF)
	sys.setrecursionlimit(20000)
	from . import loader
	loader.install(VERIF)
	import importlib
	try:
		_mod = importlib.import_module(modname)
	except BaseException:
		_mod = traceback.format_exc()


def _get_tasks(tier):
	if isinstance(_mod, str):
		raise RuntimeError('cannot load the check or the code under test:\n' + _mod)
	meta = {k: getattr(_mod, k, None) for k in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS', 'REACH', 'TRUSTED')}
	return _plain(list(_mod.tasks(tier))), _plain(meta)


def _plain(x):
	if isinstance(x, dict):
		return {_plain(k): _plain(v) for k, v in x.items()}
	if isinstance(x, (list, tuple)):
		return [_plain(y) for y in x]
	return x


class Conc:
	"""concrete worker process"""

	def __init__(self, native=False):
		env = dict(os.environ)
		if native:
			from . import native as N
			env = N.env(os.environ['VERIF_NATIVE_SO'])
		env.update(PYTHONHASHSEED='0', VERIF_REPO=REPO)
		env.pop('PYTHONPATH', None)
		self.p = subprocess.Popen([VENV_PY, os.path.join(VERIF, 'conc_worker.py')], stdin=subprocess.PIPE,
			stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/')

	def ask(self, module, fn, params, values, known):
		q = json.dumps(dict(module=module, fn=fn, params=params, values=values, known=known))
		self.p.stdin.write(q.encode() + b'\n')
		self.p.stdin.flush()
		line = self.p.stdout.readline()
		if not line:
			raise RuntimeError('concrete worker died (%s)' % self.p.wait())
		return json.loads(line)

	def close(self):
		try:
			self.p.stdin.close()
			self.p.wait(5)
		except Exception:
			self.p.kill()


def _profile_first(fn, funcs):
	def prof(frame, event, arg):
		if event == 'call':
			co = frame.f_code
			if co.co_filename.startswith(REPO + '/postgresql'):
				funcs.add('%s:%s' % (co.co_filename[len(REPO) + 1:], co.co_qualname))
	sys.setprofile(prof)
	try:
		fn()
	finally:
		sys.setprofile(None)


def _run_task(a):
	idx, task, tier, known = a
	t0 = time.time()
	out = {'idx': idx, 'task': task, 'status': 'error', 'detail': '', 'stats': {}, 'reached': {}, 'samples': [],
		'validated': 0, 'functions': []}
	try:
		_run_task2(task, tier, known, out)
	except Exception:
		out['status'] = 'error'
		out['detail'] = traceback.format_exc()
	out['wall'] = time.time() - t0
	return out


class Longer(BaseException):
	"""the loop limit was met by a path that does end"""


def _run_task2(task, tier, known, out):
	t0 = time.time()
	while True:
		try:
			return _run_task3(task, tier, known, out)
		except Longer:
			limit = task.get('limit', 600 if tier == 'quick' else 3600)
			task = dict(task, ticks=task.get('ticks', 5000) * 16, limit=limit - (time.time() - t0))
			out.update(samples=[], validated=0)


def _run_task3(task, tier, known, out):
	from . import core, ctx as _ctx
	fn = getattr(_mod, task['fn'])
	params = task.get('params', {})
	limit = task.get('limit', 600 if tier == 'quick' else 3600)
	E = core.Engine(mode=task.get('mode', 'bv'), max_paths=task.get('max_paths', 500000),
		query_timeout_ms=task.get('query_timeout_ms', 60000), deadline=time.time() + limit, max_ticks=task.get('ticks', 5000))
	task = dict(task, known=known)
	C = _ctx.SymCtx(E, task)
	nval = task.get('validate', 25)
	modname = _mod.__name__
	state = {'n': 0, 'val': 0}
	funcs = set()
	def ask(vals, label):
		r = _conc_ask(modname, task['fn'], params, vals, known)
		return r['status'] in ('violation', 'exception') and r['label'] == label
	C.ask = ask

	def once():
		C.path_reset()
		try:
			if state['n'] < 3:
				state['n'] += 1
				_profile_first(lambda: fn(C, **params), funcs)
			else:
				fn(C, **params)
		except core.SxHang:
			E.max_ticks += E.max_ticks
			v = core.SxViolation('hang')
			v.label = 'does not end'
			v.values = C.values(E.get_model())
			if not ask(v.values, v.label):
				raise Longer()
			raise v
		except Exception as e:
			if E.poison is not None:
				raise E.poison
			if any(w in str(e) for w in ("'Sym", "'Sx", 'Sym object', 'SymStr', 'SymBytes', 'SymInt')):
				raise core.SxUnsupported('native code met a symbolic value: %s\n%s' % (e, traceback.format_exc()[-700:]))
			v = core.SxViolation('exception')
			v.label = 'uncaught %s: %s' % (type(e).__name__, str(e)[:300])
			v.tb = traceback.format_exc()[-2500:]
			v.values = C.values(E.get_model())
			raise v

	def on_path(E):
		n = E.stats['paths']
		# validate early paths, then ever more sparsely
		if state['val'] < nval and (n <= nval // 2 or n % max(1, n // 8) == 0):
			state['val'] += 1
			m = E.get_model()
			vals = C.values(m)
			obs = [[k, _ctx.mval(m, v)] for k, v in C.obs]
			if len(out['samples']) < 3:
				out['samples'].append({'fn': task['fn'], 'params': params, 'inputs': vals})
			r = _conc_ask(modname, task['fn'], params, vals, known)
			if r['status'] in ('violation', 'exception'):
				v = core.SxViolation('concrete')
				v.label = r['label'] + ' (on a solver model of a path found safe symbolically)'
				v.values = vals
				raise v
			if r['status'] != 'ok':
				raise core.SxInconclusive('concrete run of a path ended with %r for %r' % (r, vals))
			a = json.loads(json.dumps(obs, default=repr))
			if a != r['obs'] and not E.inputs.get('__hashes__'):
				raise core.SxInconclusive('symbolic and concrete runs differ on %r:\n  symbolic %r\n  concrete %r' % (
					vals, a, r['obs']))
			out['validated'] += 1

	try:
		E.explore(once, on_path)
		out['status'] = 'ok'
	except core.SxViolation as v:
		out['status'] = 'violation'
		out['label'] = v.label
		out['values'] = v.values
		out['detail'] = getattr(v, 'tb', '')
	except core.SxInconclusive as e:
		out['status'] = 'inconclusive'
		out['detail'] = str(e)
	except core.SxUnsupported as e:
		out['status'] = 'unsupported'
		out['detail'] = str(e) + '\n' + ''.join(traceback.format_tb(e.__traceback__)[-12:])
	E.stats['labels'] = sorted(E.labels)
	out['stats'] = E.stats
	out['reached'] = C.reached
	out['functions'] = sorted(funcs) + C.c_functions()


def _conc_ask(modname, fn, params, vals, known):
	"""runs it on the unmodified code"""
	native = params.get('impl') == 'c'
	for again in (1, 1, 0):
		if native not in _conc:
			_conc[native] = Conc(native)
		try:
			return _conc[native].ask(modname, fn, params, vals, known)
		except (RuntimeError, OSError) as e:
			_conc.pop(native).close()
			if not again:
				if native:
					return {'status': 'violation', 'label': 'crash: %s' % e}
				raise


def replay_file(pid, modname, res, known, outdir):
	os.makedirs(outdir, exist_ok=True)
	p = os.path.join(outdir, '%s-%s.json' % (pid, res['task']['fn']))
	with open(p, 'w') as f:
		json.dump({'property': pid, 'module': modname, 'fn': res['task']['fn'], 'params': res['task'].get('params', {}),
			'values': res['values'], 'label': res['label'], 'known': list(known), 'native': res['task'].get('params', {}).get('impl') == 'c',
			'how': 'python conc_worker.py --replay <this file>'}, f, indent=1)
	return p


def run_replay(path):
	env = dict(os.environ, PYTHONHASHSEED='0', VERIF_REPO=REPO)
	env.pop('PYTHONPATH', None)
	r = subprocess.run([VENV_PY, os.path.join(VERIF, 'conc_worker.py'), '--replay', path], capture_output=True,
		text=True, timeout=180, env=env, cwd='/')
	return r.returncode, (r.stdout + r.stderr)[-3000:]


def run_symbolic(modname, tier, known, jobs=None, only=None, verbose=False, keep=False):
	"""-> (results list, meta)"""
	jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
	ctx = mp.get_context('fork')
	pool = ctx.Pool(1, _init, (modname,))
	try:
		tasks, meta = pool.apply(_get_tasks, (tier,))
	finally:
		pool.terminate()
	if only:
		tasks = [t for t in tasks if t['fn'] == only or only in json.dumps(t)]
	made = None
	if any(t.get('params', {}).get('impl') == 'c' for t in tasks):
		made = prepare_c()
	try:
		results, stop = _run_all(ctx, modname, tasks, tier, known, jobs, verbose, keep)
	finally:
		if made:
			from . import native
			native.remove(made)
	return results, meta, tasks, stop


def prepare_c():
	"""the IR and a native build of the C source, once"""
	from . import native, cmod
	so = native.build()
	d = os.path.dirname(so)
	ir = cmod.compile_ir(d)
	p = os.path.join(d, 'module.ll')
	with open(p, 'w') as f:
		f.write(ir)
	os.environ['VERIF_IR'] = p
	os.environ['VERIF_NATIVE_SO'] = so
	return so


def _run_all(ctx, modname, tasks, tier, known, jobs, verbose, keep):
	results = []
	stop = False
	# long tasks first, but never only long ones
	q = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('weight', 1))
	order = []
	while q:
		order.append(q.pop(0))
		for j in range(3):
			if q:
				order.append(q.pop())
	pool = ctx.Pool(min(jobs, max(1, len(tasks))), _init, (modname,))
	try:
		for r in pool.imap_unordered(_run_task, [(i, tasks[i], tier, known) for i in order]):
			results.append(r)
			if verbose:
				print('  %-10s %6.1fs paths=%-6s q=%-6s %s %s' % (r['status'], r['wall'], r['stats'].get('paths'),
					r['stats'].get('queries'), r['task']['fn'], r['task'].get('params', {})), file=sys.stderr, flush=True)
				if r['status'] not in ('ok',):
					print('    ', r.get('label', ''), r.get('values', ''), r['detail'][-1200:], file=sys.stderr, flush=True)
			if r['status'] == 'violation':
				stop = True
				if not keep:
					break
	finally:
		pool.terminate()
		pool.join()
	return results, stop

"""Concrete side: run harness functions on the unmodified /repo code.

  conc_worker.py                      JSON lines on stdin -> JSON lines on stdout
  conc_worker.py --replay FILE        run one recorded counterexample; exit 1 if it fails
"""
import importlib
import importlib.util
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


class Block:
	def find_spec(self, name, path=None, target=None):
		if name == 'postgresql.port.optimized':
			raise ImportError('blocked: the pure-Python code is under test')


def run_native(f):
	"""a replay with a fresh sanitized build of the extension"""
	from sx import native
	so = native.build()
	try:
		p = subprocess.run([native.VENV_PY, os.path.abspath(__file__), '--replay', f], env=native.env(so), capture_output=True, text=True)
		sys.stdout.write(p.stdout)
		sys.stdout.write(p.stderr[-3000:])
		return 0 if p.returncode == 0 else 1
	finally:
		native.remove(so)


def main():
	from sx import conc
	if len(sys.argv) > 2 and sys.argv[1] == '--replay':
		with open(sys.argv[2]) as f:
			r = json.load(f)
		if r.get('native') and not os.environ.get('VERIF_NATIVE'):
			return run_native(sys.argv[2])
		sys.meta_path.insert(0, Block())
		m = importlib.import_module(r['module'])
		res = conc.run(getattr(m, r['fn']), r['params'], r['values'], r.get('known', ()))
		print(json.dumps(res, indent=1, default=repr))
		return 1 if res['status'] in ('violation', 'exception') else 0
	sys.meta_path.insert(0, Block())
	out = os.fdopen(os.dup(1), 'w')
	os.dup2(2, 1)
	for line in sys.stdin:
		q = json.loads(line)
		m = importlib.import_module(q['module'])
		res = conc.run(getattr(m, q['fn']), q['params'], q['values'], q.get('known', ()))
		out.write(json.dumps(res, default=repr) + '\n')
		out.flush()
	return 0


if __name__ == '__main__':
	sys.exit(main())

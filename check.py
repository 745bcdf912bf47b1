#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree.

exit 0: held within the bounds; exit 1: VIOLATION line; anything else: no answer.
"""
import argparse
import importlib
import importlib.util
import json
import os
import sys
import shutil
import time

if importlib.util.find_spec('z3') is None:
	# the solver's Python
	vt = shutil.which('python3-vt')
	if vt is None or os.environ.get('VERIF_REEXEC'):
		sys.exit('no Python with z3')
	os.environ['VERIF_REEXEC'] = '1'
	os.execv(vt, [vt] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
OUT = os.path.join(VERIF, 'out')


def known_findings(pid):
	p = os.path.join(VERIF, 'known_findings.json')
	if not os.path.exists(p):
		return []
	with open(p) as f:
		return [x for x in json.load(f)['findings'] if x['property'] == pid and x['status'] == 'known']


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('pid')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
	ap.add_argument('--only')
	ap.add_argument('-v', action='store_true')
	ap.add_argument('-k', action='store_true', help='report every violation')
	ap.add_argument('--no-py', action='store_true')
	ap.add_argument('-j', type=int)
	a = ap.parse_args()
	t0 = time.time()
	pid = a.pid
	seed = int(os.environ.get('VERIF_SEED') or 1)
	from sx import run as R
	findings = known_findings(pid)
	known = [x['key'] for x in findings]
	modname = 'checks.' + pid
	rc = 0
	lines = []
	results, meta, tasks = [], {}, []
	problems = []
	violation = None
	havepy = os.path.exists(os.path.join(VERIF, 'checks', pid + '.py'))
	if havepy and not a.no_py:
		results, meta, tasks, stop = R.run_symbolic(modname, a.tier, known, a.j, a.only, a.v, a.k)
		for r in results:
			if r['status'] == 'violation' and violation is None:
				path = R.replay_file(pid, modname, r, known, OUT)
				code, text = R.run_replay(path)
				if code == 1:
					violation = (path, r['label'])
				else:
					problems.append('counterexample did not replay (%s): %s %s\n%s\n%s' % (code, r['label'],
						json.dumps(r['values']), text, r['detail']))
			elif r['status'] not in ('ok', 'violation'):
				problems.append('%s in %s %s: %s' % (r['status'], r['task']['fn'], r['task'].get('params'), r['detail']))
	# vacuity
	reached = {}
	for r in results:
		for k, n in r['reached'].items():
			reached[k] = reached.get(k, 0) + n
	if violation is None and not problems and not a.only and not a.no_py:
		for want in (meta.get('REACH') or ()):
			if not reached.get(want):
				problems.append('vacuous: no path reached %r' % want)
		if havepy and not sum(r['stats'].get('paths', 0) for r in results):
			problems.append('vacuous: no path completed')
	# known findings still fail?
	for x in findings:
		code, text = R.run_replay(os.path.join(VERIF, x['replay']))
		if code == 1:
			print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
		else:
			print('note: known finding %s no longer fails' % x['key'])
	st = lambda k: sum(r['stats'].get(k, 0) or 0 for r in results)
	funcs = sorted(set(f for r in results for f in r['functions']))
	samples = [s for r in results for s in r['samples']][:6]
	native = any(t.get('params', {}).get('impl') == 'c' for t in tasks)
	cov = {
		'explanation': 'Solver-decided: bounded symbolic execution of the real Python functions (z3 decides every branch and '
			'every obligation over all inputs within the bounds)' + ('; the C extension is executed symbolically from the LLVM IR that clang makes of its '
			'current source, with every memory access and reference count checked' if native else '') + '.',
		'functions_encoded': funcs,
		'bounds': meta.get('BOUNDS') or '', 'outside_the_bounds': meta.get('OUTSIDE') or '',
		'tasks': len(results), 'paths_completed': st('paths'), 'paths_vacuous': st('aborted'),
		'paths_cut_at_bound': st('cut'), 'solver_queries': st('queries'), 'solver_time_s': round(st('solver_s'), 3),
		'branch_decisions': st('decisions'), 'obligations': st('obligations'),
		'discharged': st('discharged'),
		'solver_unknown': st('unknown'),
		'values_concretized': st('concretized'),
		'native_functions_run_on_enumerated_values': sorted(set(l for r in results for l in r['stats'].get('labels', ()))),
		'paths_validated_on_unmodified_code': sum(r['validated'] for r in results),
		'reachability_markers': reached,
		'samples': samples or ['none'],
		'exhaustive': not problems and violation is None,
		'problems': problems[:5],
	}
	ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
		'coverage': cov, 'assumptions': list(meta.get('ASSUMPTIONS') or ()),
		'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
		json.dump(ev, f, indent=1, default=repr)
	print('%s: %d tasks, %d paths, %d queries (%.1fs solver), %d/%d obligations discharged, %d validated, %.1fs' % (
		pid, len(results), st('paths'), st('queries'), st('solver_s'), cov['discharged'], cov['obligations'],
		cov['paths_validated_on_unmodified_code'], time.time() - t0))
	if violation:
		print('violated: %s' % violation[1])
		print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
		return 1
	if problems:
		for p in problems[:5]:
			print('NO ANSWER: ' + p)
		return 2
	return 0


if __name__ == '__main__':
	sys.exit(main())

#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
	'P37': 'the outcome is decided by operating-system processes (postmaster start and exit, files, signals); cluster.py only polls them, '
		'there is no finite code path whose symbolic execution says anything about them',
	'P38': 'the oracle is the C code of the PostgreSQL server, which is not part of this repository; what can be decided of it here '
		'(the documented binary formats) is P07 to P12',
	'P39': 'the library does not lock the connection object (its documentation tells the user to), there is no guarantee of the code to decide',
}
checks, na = [], []
for p in props:
	pid = p['id']
	src = os.path.join(V, 'checks', pid + '.py')
	if not os.path.exists(src):
		na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
		continue
	c = "impl='c'" in open(src).read() or "impl = 'c'" in open(src).read() or "'c'" in open(src).read() and 'optimized' in open(src).read()
	tech = 'bounded symbolic execution of the Python code with z3'
	if c:
		tech += ", and of the C extension's LLVM IR (clang) with z3"
	checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s' % pid, thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
		evidence_file='evidence/%s.json' % pid, technique=tech, level='other',
		level_note='Solver verdict for every value within the bounds printed in the evidence (bounds, outside_the_bounds). Trusts the '
			'symbolic models of Python built-ins in sx/ ' + ('and of the CPython API (sx/cmod.py) ' if c else '') +
			'(compared with the unmodified code on solver models of the explored paths), z3' +
			(" and clang's translation to IR (validation and replays use a gcc build with ASAN)" if c else '') +
			'. Every reported counterexample has been replayed on the unmodified code.'))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
	hooks=dict(guard='none', enable='no hooks: the checks load /repo unmodified', source_commits=[]),
	notes='See DESIGN.md')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

"""profile one task: prof.py PID fn '{"params"}' [seconds]"""
import sys, json, time, cProfile, pstats
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sx import run as R, core
R._init('checks.' + sys.argv[1])
if isinstance(R._mod, str): print(R._mod); sys.exit(1)
params = json.loads(sys.argv[3])
lim = float(sys.argv[4]) if len(sys.argv) > 4 else 15
task = dict(fn=sys.argv[2], params=params, limit=lim)
for t in R._get_tasks('quick')[0]:
	if t['fn'] == sys.argv[2]: task = dict(t, params=params or t['params'], limit=lim); break
out = {}
out.update({'idx': 0, 'task': task, 'status': 'error', 'detail': '', 'stats': {}, 'reached': {}, 'samples': [], 'validated': 0, 'functions': []})
p = cProfile.Profile()
p.enable()
try:
	R._run_task2(task, 'quick', [], out)
finally:
	p.disable()
out.pop('samples')
print(json.dumps(out, default=repr)[:3000])
pstats.Stats(p).sort_stats('tottime').print_stats(18)
if len(sys.argv) > 5:
	pstats.Stats(p).sort_stats('cumtime').print_callers(sys.argv[5])

"""where are symbolic values enumerated: conc_trace.py PID fn params secs"""
import sys, json, collections, traceback
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000); sys.dont_write_bytecode = True
from sx import run as R, core
cnt = collections.Counter()
o = core.Engine.concretize
def c(self, expr, conv):
	n=self.stats.get('forks',0)
	r = o(self, expr, conv)
	if self.stats.get('forks',0)-n>0:
		st = traceback.extract_stack(limit=9)
		cnt['\n   '.join('%s:%d %s' % (f.filename, f.lineno, (f.line or '')[:100]) for f in st[:-1])] += self.stats.get('forks',0)-n
	return r
core.Engine.concretize = c
bo = core.Engine.branch
def b(self, cond):
	n=self.stats.get('forks',0)
	r = bo(self, cond)
	if self.stats.get('forks',0)-n>0 :
		st = traceback.extract_stack(limit=9)
		cnt['BR \n   '.join('%s:%d %s' % (f.filename, f.lineno, (f.line or '')[:100]) for f in st[:-1])] += self.stats.get('forks',0)-n
	return r
core.Engine.branch = b
R._init('checks.' + sys.argv[1])
params = json.loads(sys.argv[3])
task = dict(fn=sys.argv[2], params=params, limit=float(sys.argv[4]))
for t in R._get_tasks('quick')[0]:
	if t['fn'] == sys.argv[2]: task = dict(t, params=params or t['params'], limit=float(sys.argv[4])); break
out = {'task': task, 'status': 'error', 'detail': '', 'stats': {}, 'reached': {}, 'samples': [], 'validated': 0, 'functions': []}
R._run_task2(task, 'quick', [], out)
out.pop('samples'); print(json.dumps(out, default=repr)[:2000])
for k, n in cnt.most_common(6): print(n, k)

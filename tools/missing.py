"""tools/missing.py PID LOG: tasks of a -v log that have not ended"""
import sys, json, re
sys.path.insert(0, '/verif')
import importlib
from sx import loader
loader.install('/verif')
m = importlib.import_module('checks.' + sys.argv[1])
log = open(sys.argv[2]).read()
for t in m.tasks('quick'):
	if '%s %s' % (t['fn'], t.get('params', {})) not in log:
		print(t)

#!/usr/bin/env python3
"""addknown.py <property> <key> <out/replay.json> <what fails>: record a finding"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, key, src, what = (sys.argv[1:] + [None, None])[:4]
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}
if pid == 'fixed':
	d['fixed'].append(key)
else:
	os.makedirs(os.path.join(V, 'known'), exist_ok=True)
	r = json.load(open(src))
	r['known'] = []
	dst = 'known/%s-%s.json' % (pid, key)
	json.dump(r, open(os.path.join(V, dst), 'w'), indent=1)
	d['findings'] = [x for x in d['findings'] if (x['property'], x['key']) != (pid, key)]
	d['findings'].append(dict(property=pid, key=key, status='known', what=what, replay=dst))
json.dump(d, open(p, 'w'), indent=1)

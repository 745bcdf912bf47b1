"""mkseed.py SPEC.py...: build /verif/seeded/<id>/ from a spec with ID, PROPERTY, EDITS [(file, old, new)], DEMO, NEEDS, BREAKS."""
import sys, os, json, subprocess, shutil, runpy
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    sid = s['ID']
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    scratch = '/tmp/mkseed.' + sid
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', scratch])
    for f, old, new in s['EDITS']:
        p = os.path.join(scratch, f)
        t = open(p, newline='').read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', scratch, 'diff'], text=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + s['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    def demo():
        return subprocess.run(['bash', d + '/demo.sh'], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if any(f.endswith(('.c', '.h')) for f, _, _ in s['EDITS']):
        subprocess.check_call('rm -f postgresql/port/optimized*.so; CFLAGS=-Wno-deprecated-declarations /opt/venv/bin/python setup.py -q build_ext --inplace --force', shell=True, cwd=scratch)
    b = demo()
    r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(sid, 'clean', r.returncode, 'patched', b.returncode)
    if r.returncode: print(r.stdout[-1500:])
    if not b.returncode: print(b.stdout[-1500:])
    shutil.rmtree(scratch)

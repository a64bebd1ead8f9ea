"""
Makes a planted bug from a description (a Python file that sets ID,
PROPERTY, NEEDS, BREAKS, EDITS, DEMO) and tries it out:

  demo on the unchanged tree, demo with the change, stable tests with
  the change, and the quick check of its property with the change.

Only for development; no check uses this.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def plant(path, tests=True):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({"property": ns['PROPERTY'], "needs": ns['NEEDS'],
               "what_it_breaks": ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    assert not run('git -C %s status --porcelain' % REPO).stdout, "repo not clean"
    try:
        for fn, old, new in ns['EDITS']:
            p = os.path.join(REPO, fn)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = run('git -C %s diff' % REPO).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally: run('git -C %s checkout -- .' % REPO)
    return tryout(ns['ID'], tests)

def tryout(ID, tests=True):
    d = os.path.join(V, 'seeded', ID)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    out = [ID, prop]
    r = run('bash %s/demo.sh' % d, cwd=REPO)
    out.append('demo0=%d' % r.returncode)
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    assert not run('git -C %s status --porcelain' % REPO).stdout, "repo not clean"
    a = run('git -C %s apply %s/patch.diff' % (REPO, d))
    assert a.returncode == 0, a.stderr
    try:
        r = run('bash %s/demo.sh' % d, cwd=REPO)
        out.append('demo1=%d' % r.returncode)
        r = run('/opt/venv/bin/python run.py %s' % prop, cwd=V)
        lines = r.stdout.strip().splitlines()
        out.append('check=%d' % r.returncode)
        detail = lines[-3:]
        if tests:
            out.append(run('bash %s/tools/tst.sh' % V).stdout.strip())
    finally: run('git -C %s checkout -- .' % REPO)
    print(*out)
    for x in detail: print('     ', x[:200])
    sys.stdout.flush()

if __name__ == '__main__':
    args = sys.argv[1:]
    tests = '-n' not in args
    for a in args:
        if a == '-n': continue
        try:
            if a.endswith('.py'): plant(a, tests)
            else: tryout(a, tests)
        except AssertionError as e: print(a, "ASSERT", e)

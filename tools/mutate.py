"""
Runs quick checks on changed copies of the repository.

usage: mutate.py FILE [-j N] [-o NAME...]

FILE is a Python file setting MUTANTS to a list of (name, "C01 C02",
filename, old, new) or (name, props, [(filename, old, new), ...]). A
change named R... preserves behaviour (its checks must hold); any other
breaks the first property listed.

Only for development; no check uses this.
"""
import os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def copied():
    """A copy of the checks that may be edited meanwhile."""
    d = tempfile.mkdtemp(prefix='vmutv')
    for name in ('checks', 'symx'):
        shutil.copytree(os.path.join(V, name), os.path.join(d, name))
    for name in ('run.py', 'known_findings.json'):
        shutil.copy(os.path.join(V, name), d)
    os.mkdir(os.path.join(d, 'evidence'))
    return d

def one(m, repo='/repo'):
    name, props = m[:2]
    edits = m[2] if isinstance(m[2], list) else [m[2:5]]
    d = tempfile.mkdtemp(prefix='vmut')
    out = []
    try:
        subprocess.check_call(['git', 'clone', '-q', repo, d+'/r'])
        for fn, old, new in edits:
            p = os.path.join(d, 'r', fn if '/' in fn else 'ade/'+fn)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return "%-28s EDIT FAILS (%d matches): %r" % (name, s.count(old), old)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        good = name.startswith('R')
        for prop in props.split():
            t = time.time()
            env = dict(os.environ, VERIF_REPO=d+'/r')
            r = subprocess.run(
                ['/opt/venv/bin/python', 'run.py', prop], cwd=COPY, env=env,
                capture_output=True, text=True)
            lines = r.stdout.strip().splitlines()
            bad = [x for x in lines if 'VIOLATION' in x or 'INCONCL' in x or 'ERROR' in x.upper()]
            mark = 'ok' if (r.returncode == (0 if good else 1)) else '<<<<<<<<<'
            out.append("%-28s %s exit=%d %.0fs %s" % (
                name, prop, r.returncode, time.time()-t, mark))
            if mark != 'ok':
                out += ['        '+x[:180] for x in (bad or lines)[-4:]]
                if r.returncode not in (0, 1): out.append(r.stderr[-600:])
            elif not good: break
    finally: shutil.rmtree(d)
    return "\n".join(out)

if __name__ == '__main__':
    args = sys.argv[1:]
    ns = {}
    exec(open(args.pop(0)).read(), ns)
    j = 4; only = None
    while args:
        a = args.pop(0)
        if a == '-j': j = int(args.pop(0))
        if a == '-o': only = args; break
    ms = [m for m in ns['MUTANTS'] if not only or any(m[0].startswith(x) for x in only)]
    COPY = copied()
    try:
        with ThreadPoolExecutor(j) as ex:
            for r in ex.map(one, ms):
                print(r, flush=True)
    finally: shutil.rmtree(COPY)

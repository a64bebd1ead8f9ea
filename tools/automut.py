"""
Runs quick checks on copies of the repository with one small change each,
made by rule: comparisons and operators replaced, conditions negated,
constants changed, statements left out.

usage: automut.py [-j N] [-s SEED] [-n COUNT] [-f FILE] [-o OUTPUT]

A change that none of its checks notice is to be looked at: it may
preserve behaviour or concern something that isn't claimed. Only for
development; no check uses this.
"""
import argparse, ast, os, random, resource, shutil, signal, subprocess, sys, \
    tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import mutate

# Checks by file and class, most likely first
CHECKS = {
    ('history.py', 'Analysis'): "C30 C13 C31",
    ('history.py', 'ClosestPairFinder'): "C24 C11 C12 C14",
    ('history.py', 'History'): "C11 C13 C12 C24 C14 C29 C07 C01",
    ('history.py', None): "C14 C11",
    ('population.py', 'ParameterManager'): "C23 C03 C04 C29 C14 C18 C20 C27",
    ('population.py', 'ProbabilitySampler'): "C17 C02",
    ('population.py', 'Population'):
    "C26 C29 C09 C07 C05 C12 C14 C04 C15 C25 C08 C16 C06 C01 C02",
    ('de.py', 'FManager'): "C10 C29 C08 C02",
    ('de.py', 'DifferentialEvolution'): "C08 C09 C29 C10 C16 C06 C01 C02",
    ('report.py', None): "C27 C15 C16 C07 C08 C29",
    ('report.py', 'Reporter'): "C27 C15 C16 C07 C08 C29",
    ('report.py', 'CallbackRunner'): "C27 C15 C16 C07 C08 C29",
    ('individual.py', 'Individual'): "C22 C29 C23 C05 C09 C14 C15 C11 C04 C01",
    ('abort.py', None): "C21 C09 C29",
    ('util.py', None): "C27 C19 C34 C14",
    ('specs.py', None): "C18",
    ('constraints.py', None): "C20",
    ('args.py', None): "C31",
    ('image.py', None): "C32",
    ('scripts/pv.py', None): "C31",
    ('scripts/lgg.py', None): "C28",
    ('scripts/examples.py', None): "C35",
}
SKIP = ('__repr__', '__str__', 'prettyLine', 'oops')
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*'}


class Finder(ast.NodeVisitor):
    """Edits as (start, end, new text, description)."""
    def __init__(self, text):
        self.lines = text.splitlines(True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.data = text.encode()
        self.found = []
        self.where = []

    def span(self, n):
        return (self.starts[n.lineno-1] + n.col_offset,
                self.starts[n.end_lineno-1] + n.end_col_offset)
    def src(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()
    def add(self, a, b, new, what, n):
        cls = next((x for x in self.where if x[0].isupper()), None)
        self.found.append((
            a, b, new, cls, "%s:%d %s: %s -> %s" % (
                ".".join(self.where), n.lineno, what,
                " ".join(self.data[a:b].decode().split())[:70],
                " ".join(new.split())[:70])))

    def scoped(self, n):
        if n.name in SKIP: return
        self.where.append(n.name)
        for x in n.body: self.visit(x)
        self.where.pop()
    visit_ClassDef = visit_FunctionDef = scoped

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            a, b = self.span(n)
            self.add(a, b, "(%s %s %s)" % (
                self.src(n.left), SWAP[type(n.ops[0])],
                self.src(n.comparators[0])), 'compare', n)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a, b = self.span(n)
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(a, b, '(' + op.join(
            '(%s)' % self.src(v) for v in n.values) + ')', 'bool', n)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        text = isinstance(n.left, ast.Constant) and isinstance(
            n.left.value, str) or isinstance(n.right, ast.Constant) \
            and isinstance(n.right.value, str)
        if type(n.op) in OPS and not text:
            a, b = self.span(n)
            self.add(a, b, "((%s) %s (%s))" % (
                self.src(n.left), OPS[type(n.op)], self.src(n.right)), 'op', n)
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        if n.value is True or n.value is False:
            self.add(a, b, repr(not n.value), 'constant', n)
        elif isinstance(n.value, int):
            self.add(a, b, str(n.value+1), 'constant', n)
        elif isinstance(n.value, float):
            self.add(a, b, repr(n.value*1.5 if n.value else 0.5), 'constant', n)

    def visit_If(self, n):
        a, b = self.span(n.test)
        self.add(a, b, "not (%s)" % self.src(n.test), 'negate', n)
        self.generic_visit(n)

    def drop(self, n):
        a, b = self.span(n)
        self.add(a, b, "pass", 'drop', n)
        self.generic_visit(n)
    visit_AugAssign = visit_Continue = visit_Break = visit_Delete = drop

    def visit_Assign(self, n):
        if all(isinstance(t, (ast.Attribute, ast.Subscript))
               for t in n.targets) and self.where: self.drop(n)
        else: self.generic_visit(n)

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Constant): return
        if isinstance(v, ast.Call):
            f = self.src(v.func)
            if f in ('msg', 'print') or not self.where: return
            if f.split('.')[0] in ('pt', 'sp', 'pt_sp'): return
            self.drop(n)
        elif isinstance(v, ast.Yield) and v.value is not None:
            a, b = self.span(n)
            self.add(a, b, self.src(v.value), 'noyield', n)
            self.generic_visit(n)
        else: self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            a, b = self.span(n)
            self.add(a, b, "return None", 'return', n)
        self.generic_visit(n)

    def visit_Call(self, n):
        # Not within messages
        if self.src(n.func) in ('msg', 'print', 'sub'): return
        self.generic_visit(n)


def mutants(repo, only=None):
    out = []
    for fn in sorted({x[0] for x in CHECKS}):
        if only and fn not in only.split(','): continue
        text = open(os.path.join(repo, 'ade', fn), encoding='utf-8').read()
        f = Finder(text)
        f.visit(ast.parse(text))
        for a, b, new, cls, what in f.found:
            checks = CHECKS.get((fn, cls), CHECKS.get((fn, None)))
            if not checks: continue
            data = text.encode()
            new = (data[:a] + new.encode() + data[b:]).decode()
            try: ast.parse(new)
            except SyntaxError: continue
            out.append((fn, what, checks, new))
    return out


def limited(cmd, env):
    """
    Exit code of a check, which a change may have made run forever or use
    all of the memory.
    """
    def limit(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    p = subprocess.Popen(
        cmd, cwd=mutate.COPY, env=env, stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=limit)
    try: return p.wait(400)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 99


def one(m, repo='/repo'):
    fn, what, checks, text = m
    d = tempfile.mkdtemp(prefix='vmut')
    t = time.time()
    try:
        subprocess.check_call(['git', 'clone', '-q', repo, d+'/r'])
        with open(os.path.join(d, 'r', 'ade', fn), 'w', encoding='utf-8') as fh:
            fh.write(text)
        codes = []
        for prop in checks.split():
            env = dict(os.environ, VERIF_REPO=d+'/r')
            code = limited(
                ['/opt/venv/bin/python', 'run.py', prop], env)
            codes.append("%s=%d" % (prop, code))
            if code == 1: break
        mark = 'caught' if code == 1 else 'SURVIVES'
        return "%-8s %s %s %.0fs %s" % (
            mark, fn, what, time.time()-t, " ".join(
                codes[-1:] if mark == 'caught' and not any(
                    x[-1] not in '01' for x in codes) else codes))
    finally: shutil.rmtree(d)


if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('-j', type=int, default=2)
    p.add_argument('-s', type=int, default=1)
    p.add_argument('-n', type=int, default=50)
    p.add_argument('-f', default=None)
    p.add_argument('-l', action='store_true')
    p.add_argument('-m', default=None, help="file of lines SURVIVES ...")
    a = p.parse_args()
    ms = mutants('/repo', a.f)
    if a.m:
        want = {" ".join(x.split()[1:]).split(' ', 1)[0] + ' ' +
                x.split(None, 2)[2].rsplit('s C', 1)[0].rsplit(' ', 1)[0]
                for x in open(a.m) if x.startswith('SURVIVES')}
        ms = [m for m in ms if m[0] + ' ' + m[1] in want]
    else:
        random.Random(a.s).shuffle(ms)
        print(len(ms), "possible")
        ms = ms[:a.n]
    if a.l:
        for m in ms: print(m[0], m[1])
        sys.exit()
    mutate.COPY = mutate.copied()
    try:
        with ThreadPoolExecutor(a.j) as pool:
            for x in pool.map(one, ms):
                print(x)
                sys.stdout.flush()
    finally: shutil.rmtree(mutate.COPY)

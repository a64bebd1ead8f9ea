"""
C14: Saving and loading restores the population and its history.
"""
from .c12 import *
from .large import Run


class Unsaveable(object):
    """
    A function that can't be part of any file.
    """
    def __init__(self, f):
        self.f = f
        self.calls = []
    def __call__(self, *args, **kw):
        self.calls.append((args, kw))
        return self.f(*args, **kw)
    def __reduce__(self):
        raise TypeError("Not to be saved")
    __reduce_ex__ = lambda self, protocol: self.__reduce__()


class Constraint(object):
    """
    An inequality that can be part of a file.
    """
    def __init__(self, limit): self.limit = limit
    def __call__(self, params):
        return params[NAMES[0]] < self.limit


class Saved(PopHist):
    """
    A population with two parameters that has been used for a while.
    """
    def __init__(self, e, cfg, **kw):
        self.sym = cfg.get('sym')
        self.symv = cfg.get('symv', True)
        PopHist.__init__(
            self, e, cfg.get('Np', 3), cfg['N_max'], Nd=2, **kw)

    grid = None
    def nextValues(self):
        self.ID += 1
        lo, hi = self.P.bounds[1]
        if self.grid: return [0.001*self.ID, self.grid[
                self.e.choose(len(self.grid), 'grid')]]
        v = self.e.real('v', lo, hi) if self.symv else \
            lo + 0.1*((self.ID*7) % 11)
        return [0.001*self.ID, v]

    def nextSSE(self, k=None):
        if self.sym: return self.e.real('S', 1, 100)
        if self.grid: return 5.0 + 0.01*self.ID
        return SSES[self.ID-1]


def rows(p):
    h = p.history
    return [list(h[k]) for k in range(len(h))]

def wait(e, d, what):
    for _ in range(60):
        if isDone(d): break
        if not e.world.reactor.step(): break
    finished(e, d, what)
    return getattr(d, 'result', None)

def group(e, p, **kw):
    if not len(p.history): return []
    r = wait(e, p.history.value_vs_SSE(
        [p.pm.names[0]], maxRatio=1e9, **kw), "a query")
    return [] if r is None else [ident(x) for x in list(r[1])]

def compare(e, p, q, when):
    """
    Checks that the populations have the same members and history.
    """
    settle(e)
    e.check(len(p) == len(q) == len(list(q)), "same number of members" + when)
    for i, j in zip(p, q):
        e.check(same_vec(i.values, j.values), "same values" + when)
        e.check(same(i.SSE, j.SSE), "same fitness" + when)
        e.check(j is not i and j.p is q, "members of the population" + when)
    a, b = rows(p), rows(q)
    e.check(len(a) == len(b), "same number of records" + when)
    for x, y in zip(a, b):
        e.check(same_vec(x, y), "same records in the same order" + when)
    for x, y in zip(p.history, q.history):
        e.check(same_vec(x, y), "same values of records" + when)
    e.check(p.history.N_total == q.history.N_total,
            "same lifetime count" + when)
    for kw in ({}, dict(inPop=True), dict(notInPop=True),
               dict(neverInPop=True)):
        e.check(group(e, p, **kw) == group(e, q, **kw), "same groups" + when)

def operate(e, op, k, v, SSE, *ps):
    """
    Does the same thing to each population.
    """
    for p in ps:
        i = p.spawn(e.world.np.array(list(v)))
        i.SSE = SSE
        if op == 'set': p[k] = i
        elif op == 'push': p.push(i)
        elif op == 'never':
            wait(e, p.history.add(i, neverInPop=True), "an addition")
        elif op == 'blacklist': p[k].blacklist()
        elif op == 'purge': wait(e, p.history.purgePop(), "a purge")
        settle(e)
    e.cover(op)

def used(e, cfg, **kw):
    """
    A population that some operations have been done with.
    """
    X = Saved(e, cfg, func=Unsaveable(lambda values, xSSE=None: 50.0), **kw)
    p = X.P.p
    for op in cfg.get('pre', []):
        if op == '*':
            ops = cfg['ops']
            op = ops[e.choose(len(ops), 'pre')]
        k = e.choose(len(p), 'k') if op in ('set', 'blacklist') else 0
        operate(e, op, k, X.nextValues(), X.nextSSE(), p)
    return X

def reload(e, X, p, **kw):
    path = scratch('saved.dat')
    before = X.P.snapshot()
    p.save(path)
    after = X.P.snapshot()
    e.check(len(before) == len(after) and all(
        a[0] is b[0] for a, b in zip(before, after)),
            "saving changes nothing")
    # As if in another process
    e.world.salt = 1
    return X.P.pop.Population.load(path, **kw)


def roundtrip(e, cfg):
    """
    What is loaded is what has been saved, and then behaves the same.
    """
    X = used(e, cfg)
    p = X.P.p
    q = reload(e, X, p)
    compare(e, p, q, " after loading")
    for op in cfg.get('post', []):
        if op == '*':
            ops = cfg['ops']
            op = ops[e.choose(len(ops), 'post')]
        k = e.choose(len(p), 'k2') if op in ('set', 'blacklist') else 0
        operate(e, op, k, X.nextValues(), X.nextSSE(), p, q)
        compare(e, p, q, " after operations")
    e.cover('done')


def bumping(e, cfg):
    """
    The same records are bumped after loading.
    """
    X = used(e, dict(cfg, pre=['set'], symv=False))
    p = X.P.p
    X.grid = cfg['grid']
    for k in range(cfg['never']):
        operate(e, 'never', 0, X.nextValues(), X.nextSSE(), p)
    e.check(len(p.history) == cfg['N_max'], "the roster is full")
    q = reload(e, X, p)
    X.grid = None
    operate(e, 'never', 0, X.nextValues(), X.nextSSE(), p, q)
    compare(e, p, q, " after bumping a record")
    e.cover('done')


def large(e, cfg):
    """
    More records than there are bytes.
    """
    w = e.world
    w.quiet()
    N = cfg['N']
    H = Hist(e, cfg['N_max'], Nd=1, SSE=lambda k: float((k*7) % N) + 1)
    for k in range(N):
        d = H.h.add(H.individual()[1], neverInPop=bool(k % 2))
        if not isDone(d): H.wait(d, "an addition")
    kr = e.choose(2, 'which')*(N-2)
    H.wait(H.h.notInPop(H.records[kr + 1.0][0]), "a removal")
    H.P.p.history = H.h
    H.P.p.save(scratch('saved.dat'))
    h = H.P.pop.Population.load(scratch('saved.dat')).history
    e.check(len(h) == len(H.h) == N, "same number of records")
    a, b = H.rows(), [list(h[k]) for k in range(len(h))]
    e.check(And(*[same_vec(x, y) for x, y in zip(a, b)]),
            "same records in the same order")
    for kw in ({}, dict(inPop=True), dict(notInPop=True),
               dict(neverInPop=True)):
        got = [[float(x) for x in list(wait(e, y.value_vs_SSE(
            [H.names[0]], maxRatio=1e9, **kw), "a query")[1])]
               for y in (H.h, h)]
        e.check(got[0] == got[1], "same groups")
    e.cover('done')


def penalty(e, cfg):
    """
    Records never of members are still more expendable after loading.
    """
    w = e.world
    w.quiet()
    H = Hist(e, 4, Nd=1)
    def add(ID, never=False):
        i = H.individual(SSE=5.0, ID=ID)[1]
        H.wait(H.h.add(i, neverInPop=never), "an addition")
        return i
    D = [-0.5, -0.1, -0.003, 0.001, 0.003, 0.005, 0.1, 0.5]
    d = D[e.choose(len(D), 'd')]
    add(50.0)
    former = e.choose(3, 'former')
    for k, x in enumerate([1.0, 2.0, 3.0+d]):
        i = add(x, never=k != former)
        if k == former: H.wait(H.h.notInPop(i), "a removal")
    H.P.p.history = H.h
    H.P.p.save(scratch('saved.dat'))
    h = H.P.pop.Population.load(scratch('saved.dat')).history
    for x in (H.h, h):
        i = H.individual(SSE=5.0, ID=70.0)[1]
        H.wait(x.add(i, neverInPop=True), "an addition")
    e.check(sorted(float(x[1]) for x in H.rows()) ==
            sorted(float(h[k][1]) for k in range(len(h))),
            "the same record is bumped after loading")
    e.cover('done')


def settings(e, cfg):
    """
    Names, bounds, constraints, and settings.
    """
    w = e.world
    w.quiet()
    bounds = symbounds(e, 2)
    limit = e.real('limit', -100, 100)
    form = e.choose(2, 'form')
    c = Constraint(limit)
    tf = e.real('fraction', 0.001, 1)
    kw = dict(constraints=[c] if form else c, popsize=2, targetFraction=tf)
    if e.choose(2, 'debug'): kw['debug'] = True
    w.load('ade.history').History.N_max = 10
    P = Pop(e, 3, 2, func=Unsaveable(lambda *a: 1.0), bounds=bounds,
            history=True, fill=False, kw=kw)
    p = P.p
    path = scratch('saved.dat')
    if e.choose(2, 'filled'):
        c.limit = math.inf
        P.fill(SSE=lambda k: 1.0+k)
        c.limit = limit
        e.cover('filled')
    p.save(path)
    q = P.pop.Population.load(path)
    e.check(list(q.pm.names) == list(p.pm.names) == P.names, "same names")
    e.check(And(same_vec(q.pm.mins, [b[0] for b in bounds]),
                same_vec(q.pm.maxs, [b[1] for b in bounds])), "same bounds")
    for name in ('Nd', 'Np', 'popsize', 'debug'):
        e.check(getattr(p, name) == getattr(q, name), "same settings")
    e.check(same(p.targetFraction, q.targetFraction), "same settings")
    e.check(same(p.statusQuoScore, q.statusQuoScore), "same settings")
    v = [e.real('v'), e.real('v')]
    x = w.np.array(v)
    e.check(Iff(q.pm.passesConstraints(x), v[0] < limit),
            "same constraints")
    if cfg.get('limit'):
        e.check(same_vec(q.pm.limit(w.np.array(v)),
                         p.pm.limit(w.np.array(v))), "same limiting")
    u = [0.25, 0.5]
    e.check(same_vec(q.pm.fromUnity(w.np.array(u)),
                     p.pm.fromUnity(w.np.array(u)), near), "same scaling")
    e.check(list(q.pm.sortedNamerator(namesOnly=True)) ==
            list(p.pm.sortedNamerator(namesOnly=True)), "same order of names")
    e.cover('done')


def ready(e, cfg):
    """
    Free of locks, with the functions given, and able to run.
    """
    w = e.world
    X = used(e, cfg)
    p = X.P.p
    old = p.func
    if cfg.get('lock'):
        p.lock(0, 2)
        p.lock(0)
    if cfg.get('abort'): p.abort()
    r = []
    def f(values, xSSE=None):
        r.append(e.xreal('SSE', lo=0.01, hi=1e6))
        return r[-1]
    new = Unsaveable(f)
    complaints = []
    complain = Unsaveable(lambda i, result: complaints.append((i, result)))
    q = reload(e, X, p, func=new, complaintCallback=complain)
    n = len(old.calls)
    compare(e, p, q, " after loading")
    d = q.lock(*range(len(q)))
    settle(e)
    e.check(isDone(d), "no member is locked")
    q.release()
    if cfg.get('what') == 'evaluate':
        k = e.choose(len(q), 'k')
        v = list(q[k].values)
        d = q[k].evaluate()
        i = wait(e, d, "an evaluation")
        e.check(len(new.calls) == 1 and len(old.calls) == n,
                "the evaluation function is the one given")
        e.check(new.calls[0][0][0] is not None and
                same_vec(new.calls[0][0][0], v), "with the member's values")
        e.check(same(q[k].SSE, r[0]), "the fitness is the result")
    elif cfg.get('what') == 'complain':
        seen = []
        def callback(values, counter, SSE):
            seen.append(SSE)
            return "complaint"
        q.addCallback(callback)
        k = e.choose(len(q), 'k')
        i = q[k]
        SSE = i.SSE
        q.report(i)
        settle(e)
        e.check(len(seen) == 1 and same(seen[0], SSE),
                "a report of the first individual")
        e.check(len(complaints) == 1 and complaints[0][0] is i,
                "the complaint function is the one given")
        ID = ident(i[0])
        e.check(ID not in group(e, q, inPop=True),
                "it's no longer a member in history")
        e.check(ID in group(e, q, notInPop=True), "it's a former one")
    else:
        w.dull = True
        de = X.P.DE()
        de.p = q
        de.running = True
        kt = e.choose(len(q), 'kt')
        target = q[kt]
        S = target.SSE
        d = de.challenge(kt, (kt+1) % len(q))
        wait(e, d, "a challenge")
        settle(e)
        e.check(len(r) == 1 and len(old.calls) == n, "one evaluation")
        if bool(r[0] < S):
            e.check(q[kt] is not target and same(q[kt].SSE, r[0]),
                    "a better challenger replaces its target")
            e.cover('won')
        else:
            e.check(q[kt] is target, "the target remains otherwise")
        members = sorted(ident(i[0]) for i in q)
        e.check(sorted(group(e, q, inPop=True)) == members,
                "the current group is the population's members")
        e.check(not any(lock.locked for lock in q.dLocks),
                "no lock remains")
    e.cover('done')


def bounds(e, cfg):
    """
    New bounds given to load.
    """
    w = e.world
    X = used(e, cfg)
    p = X.P.p
    new = symbounds(e, 2)
    q = reload(e, X, p, bounds=new)
    e.check(And(same_vec(q.pm.mins, [b[0] for b in new]),
                same_vec(q.pm.maxs, [b[1] for b in new])), "the bounds given")
    for i, j in zip(p, q):
        e.check(inside(j.values, new), "values are within the new bounds")
        for x, y, b in zip(i.values, j.values, new):
            e.check(Implies(And(x >= b[0], x <= b[1]), same(x, y)),
                    "values that are within the new bounds stay the same")
        e.check(same(i.SSE, j.SSE), "same fitness")
    e.check(And(*[same_vec(a, b) for a, b in zip(rows(p), rows(q))]),
            "same records")
    e.cover('done')


def empty(e, cfg):
    """
    A population that hasn't been set up yet.
    """
    w = e.world
    w.quiet()
    w.load('ade.history').History.N_max = 10
    ev = Unsaveable(lambda values, xSSE=None: 1.0)
    P = Pop(e, 3, 2, func=ev, history=True, fill=False)
    P.p.save(scratch('saved.dat'))
    got = []
    def f(values, xSSE=None):
        got.append(e.real('SSE', 50, 60))
        return got[-1]
    q = P.pop.Population.load(scratch('saved.dat'), func=f)
    e.check(len(q) == 0 and len(q.history) == 0, "nothing there")
    w.fixed = True
    d = q.setup(uniform=bool(e.choose(2, 'uniform')))
    wait(e, d, "setup")
    settle(e)
    e.check(len(q) == 3, "it gets its members")
    for i in q:
        e.check(Or(*[same(i.SSE, x) for x in got]), "with their fitness")
    e.check(len(q.history) == 3, "history has records of them")
    e.cover('done')


OPS = ['set', 'push', 'never', 'blacklist']
A, B = OPS + ['purge'], ['set', 'never']
def evolved(e, cfg):
    """
    A population of realistic size that has been evolved.
    """
    R = Run(e, **cfg)
    p, w = R.p, e.world
    w.dull, w.stirred = 11, True
    p.save(scratch('saved.dat'))
    q = R.P.pop.Population.load(scratch('saved.dat'), func=R.ev)
    compare(e, p, q, " after loading")
    for n in range(6):
        v = [lo + (hi-lo)*w.dullPart() for lo, hi in R.bounds]
        operate(e, ('set', 'push', 'never')[n % 3], (7*n) % R.Np, v,
                0.5 + 3*w.dullPart(), p, q)
    compare(e, p, q, " after some more changes")
    w.dull = w.stirred = False
    e.cover('done')


HARNESSES = [
    Harness(roundtrip, quick=[
        dict(N_max=6, pre=['*'], ops=A, post=['*']),
        dict(N_max=10, pre=['never', 'set'], ops=A, post=['*', '*'],
             symv=False),
        dict(N_max=4, pre=['*', '*'], ops=B, post=['*', '*'], symv=False),
        dict(N_max=5, pre=['never', 'set'], ops=A, post=['*', '*'],
             symv=False),
        dict(N_max=8, pre=['never'], ops=B, post=['set'], sym=True)],
            thorough=[
        dict(N_max=6, pre=['*', '*'], ops=A, post=['*', '*'], symv=False),
        dict(N_max=4, pre=['*', '*'], ops=B, post=['*', '*', '*'],
             symv=False),
        dict(N_max=8, pre=['never', 'set'], ops=B, post=['set', 'never'],
             sym=True)],
            covers=OPS + ['purge', 'done'],
            bounds="3 members, 4-10 records at most, up to 2 operations "
            "before saving and 2 after loading (3 thorough); any values, "
            "any fitness for up to 5 records"),
    Harness(bumping, quick=[
        dict(N_max=6, never=2, grid=[0.0, 0.3, 0.62, 1.1]),
        dict(N_max=7, never=3, grid=[0.0, 0.3, 0.62])],
            thorough=[
        dict(N_max=7, never=3, grid=[0.0, 0.2, 0.5, 1.0, 1.6])],
            covers=['done'],
            bounds="a full roster with 3-4 expendable records whose values "
            "are any combination of 3-5 different ones"),
    Harness(penalty, quick=[dict()], covers=['done'],
            bounds="three expendable records, any of them of a former member, "
            "with 8 different relations of their differences"),
    Harness(large, quick=[dict(N=300, N_max=400)], covers=['done'],
            thorough=[dict(N=1500, N_max=1500)],
            bounds="300 records (1500 thorough)"),
    Harness(settings, quick=[dict(), dict(limit=True)],
            covers=['filled', 'done'],
            bounds="two parameters, any bounds and settings, one constraint"),
    Harness(ready, quick=[
        dict(N_max=6, Np=4, lock=l, abort=a, what=what, pre=['never'], symv=False)
        for l, a in ((0, 0), (1, 0), (0, 1), (1, 1))
        for what in ('evaluate', 'complain', 'challenge')],
            covers=['won', 'done'],
            bounds="3 members, any result of one evaluation"),
    Harness(bounds, quick=[dict(N_max=6)], covers=['done'],
            bounds="3 members, any values, any new bounds"),
    Harness(empty, quick=[dict()], covers=['done'], bounds="3 members"),
    Harness(evolved, quick=[
        dict(N=3, N_max=60), dict(N=2, N_max=200, sym=27)], thorough=[
        dict(N=3, N_max=40, xSSE=True)], covers=['done'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

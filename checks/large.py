"""
Runs of a realistic size, with fixed draws and results except for one
result that may be any number.
"""
from .common import *
from .hist import single


def advance(e, ev, d):
    """
    Runs until d fires, with evaluations finished in a mixed order if they
    are delayed.
    """
    w = e.world
    for _ in range(5000):
        if isDone(d): break
        for _ in range(3): more = w.reactor.step()
        if ev.pending: ev.finish(ev.pending[w.dullChoice(len(ev.pending))])
        elif not more: break


class Run(object):
    """
    An evolution with its real history and reporter.

    Evaluations finish right away, so the n-th one after setup is that of
    the challenge to member n % Np.

    @ivar setup: The calls of the evaluation function during setup.
    @ivar calls: Those thereafter.
    @ivar seen: The members (individual, values, fitness) upon each call
        in I{calls}, and at the end.
    """
    F, CR = 0.7, 0.75

    def __init__(self, e, Np=24, Nd=9, N=3, N_max=60, seed=7, sym=None,
                 kw={}, before=None, delayed=False, at=None, **dekw):
        self.e, self.Np, self.Nd = e, Np, Nd
        w = e.world
        w.dull, w.stirred, w.floats = seed, True, True
        self.bounds = [(-1.0-k, 2.0+0.5*k) for k in range(Nd)]
        self.best = [0.25*((7*k) % 5) - 0.5 for k in range(Nd)]
        self.names = ['p%d' % ((5*k) % 64) for k in range(Nd)]
        self.seen, self.snapping, self.sym = [], False, sym
        self.r, self.at = None, at
        self.ev = Evaluator(e, result=self.result, delayed=delayed)
        P = self.P = Pop(
            e, Np, Nd, self.ev, bounds=self.bounds, history=True,
            reporter=True, fill=False, names=self.names, kw=kw)
        p = self.p = P.p
        p.history = w.load('ade.history').History(
            list(self.names), N_max=N_max)
        d = p.setup()
        self.settle(d)
        finished(e, d, "setup")
        self.N_setup = len(self.ev.calls)
        self.initial = P.snapshot()
        if before: before(self)
        self.snapping = True
        m = w.load('ade.de')
        opts = dict(F=self.F, CR=self.CR, maxiter=N, adaptive=False,
                    bitterEnd=True)
        opts.update(dekw)
        self.generations, self.states = [], [self.initial]
        def generation(k):
            self.generations.append(k)
            self.states.append(P.snapshot())
        self.de = m.DifferentialEvolution(p, logHandle=None, **opts)
        d = self.de(generation)
        self.settle(d)
        finished(e, d, "the run")
        self.seen.append(P.snapshot())
        if len(self.states) == N: self.states.append(P.snapshot())
        w.dull = w.stirred = False

    def settle(self, d):
        """
        Runs until d fires, with evaluations finished in a mixed order if
        they are delayed.
        """
        advance(self.e, self.ev, d)
        settle(self.e)

    def result(self, call):
        # Just told to shut down
        if call['values'] is None: return None
        if self.snapping: self.seen.append(self.P.snapshot())
        if self.snapping and call['n'] - self.N_setup == self.sym:
            if self.at: return self.at(self)
            self.r = self.e.real('S', 0.015625, 1000)
            return self.r
        v = call['values']
        return sum((float(x)-b)**2 for x, b in zip(v, self.best))

    @property
    def setupCalls(self): return self.ev.calls[:self.N_setup]
    @property
    def calls(self): return self.ev.calls[self.N_setup:]


# -- What to check of a run ------------------------------------------------------

def crossed(R, v, M, kt, kbs):
    """
    Is vector v a cross of target kt with a mutant of a base in kbs?
    """
    v, M = np.array(v, dtype=float), np.array(M, dtype=float)
    lo, hi = np.array(R.bounds).T
    fromT = np.abs(v - M[kt]) < 1e-9
    for kb in kbs:
        if kb == kt: continue
        others = [k for k in range(R.Np) if k not in (kt, kb)]
        for k0 in others:
            x = M[kb] + R.F*(M[k0] - M[others])
            y = np.where(x < lo, 2*lo - x, np.where(x > hi, 2*hi - x, x))
            ok = np.abs(v - y) < 1e-9
            # Beyond the other bound by then
            ok |= ((y < lo) | (y > hi)) & (v >= lo) & (v <= hi)
            good = (ok | fromT).all(axis=1) & ok.any(axis=1)
            good[others.index(k0)] = False
            if good.any(): return True
    return False

def evolved(e, cfg):
    """
    Evaluations of a generation finish in a mixed order, or right away.
    """
    R = Run(e, xSSE=True, **cfg)
    Np, N = R.Np, cfg['N']
    e.check(len(R.calls) == Np*N, "one evaluation per challenge")
    e.check(R.generations[:N-1] == list(range(N-1)), "generations in order")
    e.check(len(R.states) == N+1, "as many generations as specified")
    for g in range(N):
        A, B = R.states[g:g+2]
        calls = R.calls[Np*g:Np*(g+1)]
        for kt in range(Np):
            # What the one challenged there was compared with
            mine = [c for c in calls if bool(same(c['xSSE'], A[kt][2]))]
            e.check(len(mine) > 0, "each member is challenged")
            if len(mine) > 1: continue
            call = mine[0]
            M = [(B if k < kt else A)[k][1] for k in range(Np)]
            e.check(crossed(R, call['values'], M, kt, range(Np)),
                    "each trial vector is of the members as left by those "
                    "before it")
            e.check(Iff(B[kt][0] is not A[kt][0], call['result'] < A[kt][2]),
                    "replaced exactly if strictly better")
            if B[kt][0] is not A[kt][0]:
                e.check(And(same_vec(B[kt][1], call['values']),
                            same(B[kt][2], call['result'])),
                        "replaced by the challenger")
    for call in R.ev.calls:
        e.check(all(lo <= x <= hi for x, (lo, hi) in zip(
            call['values'], R.bounds)), "only values within bounds")
    for R0 in R.seen:
        for i, v, s in R0:
            e.check(And(same_vec(i.values, v), same(i.SSE, s)),
                    "members keep their values and fitness")
    if R.ev.maxPending > 5: e.cover('parallel')
    for k in range(Np):
        d = R.p.lock(k)
        settle(e)
        e.check(isDone(d), "no position remains locked")
    e.cover('done')


def stopped(e, cfg):
    """
    A run stopped by one of its evaluations, with others outstanding.
    """
    at = {}
    def stop(R):
        at['calls'] = len(R.ev.real)
        at['members'] = R.P.snapshot()
        kind = e.choose(3, 'kind')
        if kind == 0: return e.real('S', -10, -0.1)
        if kind == 1: return Fail("evaluator")
        R.de.shutdown()
        return 0.001
    R = Run(e, delayed=True, at=stop, **cfg)
    e.check(at, "it gets that far")
    if R.ev.pending: e.cover('outstanding')
    while R.ev.pending:
        R.ev.finish(R.ev.pending[-1])
        settle(e)
    e.check(len(R.ev.real) == at['calls'], "nothing is evaluated any more")
    for (i, v, s), j in zip(at['members'], R.p):
        e.check(And(i is j, same_vec(j.values, v), same(j.SSE, s)),
                "no member is replaced any more")
    for k in range(R.Np):
        d = R.p.lock(k)
        settle(e)
        e.check(isDone(d), "no position remains locked")
    e.cover('done')


def filled(e, cfg):
    """
    Setup of a large population, some results of which are of no use.
    """
    w = e.world
    w.dull, w.stirred, w.floats = 5, True, True
    Np, Nd, N = cfg['Np'], cfg.get('Nd', 5), cfg['N']
    def result(call):
        n = call['n']
        if n == cfg.get('sym'): return e.xreal('S', nan=True)
        if n % 7 == 3: return (math.inf, None, math.nan)[n % 3]
        return 1.0 + (n*37 % 101)
    ev = Evaluator(e, result=result, delayed=True)
    P = Pop(e, Np, Nd, ev, bounds=[(-1.0-k, 2.0) for k in range(Nd)],
            fill=False, names=['p%d' % k for k in range(Nd)])
    p = P.p
    p.N_maxParallel = N
    d = p.setup()
    advance(e, ev, d)
    e.check(ev.maxPending <= N, "parallelism is limited")
    finished(e, d, "setup")
    if cfg.get('sym') is not None:
        S = [c['result'] for c in ev.calls if c['n'] == cfg['sym']][0]
        e.check(Iff(d.result is True, Not(S < 0)),
                "success unless there was a fatal result")
    else: e.check(d.result is True, "setup succeeds")
    e.check(not ev.pending, "no evaluation goes on")
    if d.result is True:
        e.check(len(p) == len(list(p)) == Np,
                "the number of members is as configured")
        calls = {tuple(float(x) for x in c['values']): c['result']
                 for c in ev.calls}
        keys = [tuple(float(x) for x in i.values) for i in p]
        e.check(len(set(keys)) == Np, "members are distinct")
        for i, key in zip(p, keys):
            e.check(key in calls, "members have been evaluated")
            e.check(And(isfinite(i.SSE), i.SSE >= 0, same(i.SSE, calls[key])),
                    "members have the finite fitness of their own values")
        e.cover('success')
    else: e.cover('aborted')
    w.dull = w.stirred = False


def recorded(e, cfg):
    """
    The history.
    """
    got = []
    def check(kg=None):
        h = R.p.history
        rows = [list(h[k]) for k in range(len(h))]
        e.check(len(rows) <= cfg['N_max'], "no more records than the maximum")
        for a, b in zip(rows[:-1], rows[1:]):
            e.check(le(a[0], b[0]), "records are ordered by fitness")
        key = lambda v: tuple(float(np.float32(float(x))) for x in v)
        calls = {key(c['values']): c for c in R.ev.calls}
        keys = [key(r[1:]) for r in rows]
        e.check(len(set(keys)) == len(keys), "no record is there twice")
        for k, r in zip(keys, rows):
            e.check(k in calls, "each record is of one evaluated")
            e.check(single(r[0], calls[k]['result']),
                    "each record has the fitness evaluated")
        members = sorted(key(i.values) for i in R.p)
        for k in members:
            e.check(k in keys, "each member is recorded")
        if len(calls) <= cfg['N_max'] and not cfg.get('xSSE'):
            e.check(sorted(keys) == sorted(calls), "everything is recorded")
            e.cover('room')
        else:
            if not cfg.get('xSSE'): e.check(
                    len(rows) == cfg['N_max'], "no room is left unused")
            e.cover('full')
        return keys, members
    R = Run(e, **cfg)
    keys, members = check()
    h = R.p.history
    e.check(h.N_total <= len(R.ev.calls), "the lifetime count")
    def query(**kw):
        d = h.value_vs_SSE(list(R.names), maxRatio=1e9, **kw)
        R.settle(d)
        finished(e, d, "a query")
        return sorted(tuple(float(np.float32(float(x))) for x in row)
                      for row in zip(*list(d.result)[1:]))
    e.check(query(inPop=True) == members, "the members' records are found")
    e.check(query() == sorted(keys), "all records are found")
    e.check(sorted(query(inPop=True) + query(notInPop=True) +
                   query(neverInPop=True)) == sorted(keys),
            "each record is of one group")
    # Those not too much worse than the best, in order and aligned
    K = [0, 3, R.Nd-1]
    for ratio in (1.5, 4):
        d = h.value_vs_SSE([R.names[k] for k in K], maxRatio=ratio)
        R.settle(d)
        finished(e, d, "a query")
        rows = [list(h[k]) for k in range(len(h))]
        near = [r for r in rows if r[0] <= ratio*rows[0][0]]
        cols = [list(x) for x in d.result]
        e.check(all(len(x) == len(near) for x in cols),
                "records within the ratio are found")
        for n, r in enumerate(near):
            e.check(And(same(cols[0][n], r[0]), *[
                same(cols[m+1][n], r[k+1]) for m, k in enumerate(K)]),
                    "in order, with the values of the parameters named")
    e.cover('done')


def leading(e, cfg):
    """
    The best member, and reports of it.
    """
    reported, first = [], []
    def before(R):
        first.append(R.p.best().SSE)
        R.p.addCallback(lambda values, counter, SSE: reported.append(
            (list(values), SSE)))
    R = Run(e, before=before, **cfg)
    p = R.p
    b = p.best()
    e.check(b in list(p), "the best is a member")
    for i in p: e.check(b.SSE <= i.SSE, "none is better than the best")
    S = [p[k].SSE for k in p.KS]
    e.check(sorted(int(k) for k in p.KS) == list(range(R.Np)), "all sorted")
    e.check(And(*[x <= y for x, y in zip(S[:-1], S[1:])]), "sorted by fitness")
    e.check(len(p.iSorted) == R.Np and all(
        i is p[k] for i, k in zip(p.iSorted, p.KS)), "members likewise")
    # The best one by the time of the setup has been reported then
    last = reported[-1][1] if reported else first[0]
    e.check(And(b.SSE <= last, 0.9*last <= b.SSE),
            "the best one is reported, or one equivalent to it")
    for (v0, s0), (v1, s1) in zip(reported[:-1], reported[1:]):
        e.check(s1 <= s0, "reports are of ever better ones")
    if len(reported) > 3: e.cover('several')
    e.cover('done')

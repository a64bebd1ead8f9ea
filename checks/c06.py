"""
C06: Concurrent challenges act as if run one after another in order.
"""
from .common import *
from . import large

# Generic positions, so that a vector tells which members it's made from
G = [0.7236067977, -1.3819660113, 2.1415926535, -0.4142135623,
     1.7320508075, -2.2360679774, 0.5772156649, 3.3166247903]
F = 0.5


def explain(pairs, vals, sse, calls, members):
    """
    Backtracking search for a serial execution, in order of issue, that
    has just these evaluations and results in just these members.
    """
    def equal(a, b): return abs(a - b) < 1e-9
    def search(n, vals, sse, who, left):
        if n == len(pairs):
            # All of the path's comparisons have been decided
            return not left and all(
                who[k] is None or equal(vals[k], float(m.values[0]))
                for k, m in enumerate(members)) and all(
                    (m is who0[k]) == (who[k] is None)
                    for k, m in enumerate(members)) and all(
                        bool(same(m.SSE, sse[k]))
                        for k, m in enumerate(members))
        kt, kb = pairs[n]
        K = [k for k in range(len(vals)) if k not in (kt, kb)]
        seen = set()
        for c in left:
            v = float(c['values'][0])
            for k0 in K:
                for k1 in K:
                    if k0 == k1: continue
                    if not equal(v, vals[kb] + F*(vals[k0] - vals[k1])):
                        continue
                    if id(c) in seen: continue
                    if c['xSSE'] is not None and not bool(
                            same(c['xSSE'], sse[kt])): continue
                    seen.add(id(c))
                    nv, ns, nw = list(vals), list(sse), list(who)
                    if bool(c['result'] < sse[kt]):
                        nv[kt], ns[kt], nw[kt] = v, c['result'], c
                    if search(n+1, nv, ns, nw,
                              [x for x in left if x is not c]): return True
        return False
    who0 = explain.original
    return search(0, list(vals), list(sse), [None]*len(vals), list(calls))


def overlapping(e, cfg):
    """
    Several challenges under way at once.
    """
    Np, pairs = cfg['Np'], cfg['pairs']
    def result(call):
        return e.real('r', 0, 100) if not cfg.get('win') else 0.5 - call['n']/100
    ev = Evaluator(e, delayed=True, result=result)
    P = Pop(e, Np, 1, ev, bounds=[(-1e6, 1e6)],
            SSE=lambda k: [30., 20., 50., 10., 60., 40., 80., 70.][k],
            values=lambda k: [G[k]])
    p = P.p
    de = P.DE(F=F, CR=1.0, xSSE=cfg.get('xSSE', False))
    explain.original = list(p)
    vals = [float(i.values[0]) for i in p]
    sse = [i.SSE for i in p]
    ds = []
    for kt, kb in pairs:
        ds.append(de.challenge(kt, kb))
        # Some may have finished before others get started
        if cfg.get('early') and ev.pending and e.flag('early'):
            ev.finish(ev.pending[0])
    drive(e, ev, name='order')
    settle(e)
    if ev.maxPending > 1: e.cover('overlap')
    for d in ds: finished(e, d, "every challenge")
    e.check(P.unlocked(), "no lock is left")
    e.check(len(ev.calls) == len(pairs), "one evaluation per challenge")
    e.check(explain(pairs, vals, sse, ev.calls, list(p)),
            "same as one after another in order")
    if cfg.get('xSSE'):
        # What's passed along is the fitness of the target at that time
        for c in ev.calls:
            e.check(c['xSSE'] is not None, "the target's fitness is passed")


def generations(e, cfg):
    """
    A run of one or two generations, with completion in any order.
    """
    Np, N = cfg['Np'], cfg['N']
    T = cfg['results']
    ev = Evaluator(e, delayed=True, result=lambda c: T[c['n'] % len(T)])
    P = Pop(e, Np, 1, ev, bounds=[(-1e6, 1e6)],
            SSE=lambda k: cfg['SSE'][k], values=lambda k: [G[k]])
    p = P.p
    m = P.w.load('ade.de')
    de = m.DifferentialEvolution(
        p, logHandle=None, F=F, CR=1.0, maxiter=N, adaptive=False)
    issued = []
    real = de.challenge
    def challenge(kt, kb):
        issued.append((int(kt), int(kb)))
        return real(kt, kb)
    de.challenge = challenge
    explain.original = list(p)
    vals = [float(i.values[0]) for i in p]
    sse = [i.SSE for i in p]
    d = de()
    drive(e, ev, d, name='order')
    settle(e)
    finished(e, d, "the run")
    e.check([x[0] for x in issued] == list(range(Np))*N,
            "each member is a target once per generation, in order")
    e.check(P.unlocked(), "no lock is left")
    e.check(len(ev.real) == Np*N, "one evaluation per challenge")
    e.check(explain(issued, vals, sse, ev.real, list(p)),
            "same as one after another in order")
    if ev.maxPending > 1: e.cover('overlap')


HARNESSES = [
    Harness(overlapping, quick=[
        dict(Np=5, pairs=[[0, 1], [2, 1], [0, 3]]),
        dict(Np=6, pairs=[[0, 1], [2, 1], [1, 0]], win=True),
        dict(Np=4, pairs=[[0, 1], [1, 0], [2, 0], [3, 0]]),
        dict(Np=5, pairs=[[0, 1], [1, 0], [1, 2]], xSSE=True, early=True),
        dict(Np=7, pairs=[[0, 6], [1, 6]]),
    ], thorough=[
        dict(Np=5, pairs=[[0, 4], [1, 4], [2, 4], [3, 4]], win=True),
        dict(Np=6, pairs=[[0, 1], [2, 1], [1, 0]]),
        dict(Np=8, pairs=[[0, 1], [2, 1], [3, 2]], win=True),
        dict(Np=5, pairs=[[0, 1], [1, 0], [0, 2], [1, 3]], win=True,
             early=True),
    ], covers=['overlap'],
       bounds="2-4 overlapping challenges on 4-8 members at fixed generic "
       "positions; all evaluation results, draws, completion orders"),
    Harness(generations, quick=[
        dict(Np=4, N=1, SSE=[3, 4, 1, 2], results=[.9, 5, .8, 5]),
        dict(Np=5, N=1, SSE=[5, 4, 1, 2, 3], results=[9, .5, 9, .4, .3]),
    ], thorough=[
        dict(Np=4, N=2, SSE=[3, 4, 1, 2], results=[.9, 5, .8, 5]),
    ], covers=[],
       bounds="1-2 generations of 4-5 members, all draws and completion orders"),
    Harness(large.evolved, quick=[
        dict(N=2, N_max=200, sym=29, delayed=True),
        dict(N=2, Np=60, Nd=3, N_max=40, delayed=True)], thorough=[
        dict(N=4, Np=40, Nd=3, N_max=40, delayed=True)],
            covers=['done', 'parallel'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

"""
C07: The best member and the sort order always match actual fitness.
"""
from .common import *
from . import large


def checkOrder(e, p, Np, when):
    best = p.best()
    k = p.kBest
    e.check(p[k] is best, "the best index refers to the best member " + when)
    for i in p:
        e.check(best.SSE <= i.SSE, "no member is better than the best " + when)
    KS = [int(k) for k in p.KS]
    e.check(sorted(KS) == list(range(Np)),
            "the sort order has each position once " + when)
    S = list(p.iSorted)
    e.check(len(S) == Np and all(S[n] is p[KS[n]] for n in range(Np)),
            "sorted members follow the sort order " + when)
    for a, b in zip(S[:-1], S[1:]):
        e.check(a.SSE <= b.SSE, "sorted by nondecreasing fitness " + when)


def newSSE(e): return e.xreal('new', lo=0, nan=False)


def operations(e, cfg):
    Np = cfg['Np']
    P = Pop(e, Np, 1)
    p = P.p
    if not cfg.get('unseen'): checkOrder(e, p, Np, "at first")
    for n in range(cfg['N']):
        ops = cfg['ops']
        op = ops[e.choose(len(ops), 'op')] if len(ops) > 1 else ops[0]
        before = list(p)
        if op == 'set':
            k = e.choose(Np, 'k')
            i = P.individual(P.newValues('v'), newSSE(e))
            p[k] = i
            e.check(p[k] is i, "the replacement is there")
            for j in range(Np):
                if j != k: e.check(p[j] is before[j], "the others stay")
        elif op == 'push':
            i = P.individual(P.newValues('v'), newSSE(e))
            p.push(i)
            after = list(p)
            gone = [x for x in before if not any(x is y for y in after)]
            e.check(len(after) == Np and len(gone) == 1
                    and sum(x is i for x in after) == 1,
                    "pushing replaces one member")
            for x in before:
                e.check(gone[0].SSE >= x.SSE, "the worst one is pushed out")
            e.check(all(after[k] is before[k] or after[k] is i
                        for k in range(Np)), "the others stay")
        elif op == 'blacklist':
            k = e.choose(Np, 'k')
            v = list(p[k].values)
            p[k].blacklist()
            e.check(isinf(p[k].SSE), "a blacklisted member is worst-possible")
            e.check(same_vec(v, p[k].values), "its values are unchanged")
            e.check(all(a is b for a, b in zip(p, before)), "all stay")
        elif op == 'best':
            i = P.individual(P.newValues('v'), newSSE(e))
            p[p.kBest] = i
        elif op == 'sample':
            # Something that makes use of the sort order
            p.sample(1, 0, randomBase=False)
        elif op == 'load':
            path = scratch('c07')
            p.save(path)
            q = P.pop.Population.load(path, func=P.func)
            q.history, q.reporter = NullHistory(), NullReporter()
            e.check(len(q) == Np, "all members are loaded")
            for a, b in zip(p, q):
                e.check(same(a.SSE, b.SSE), "loaded in the same positions")
            p = q
        checkOrder(e, p, Np, "after " + op)
    e.cover('done')


def setup(e, cfg):
    Np = cfg['Np']
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False, good=Np+1)
    def f(values):
        # Somebody looks at the population as it is set up
        if cfg.get('peek') and len(P.p) and ev.calls:
            checkOrder(e, P.p, len(P.p), "during setup")
            e.cover('peeked')
        return ev(values)
    P = Pop(e, Np, 1, f, fill=cfg['again'])
    p = P.p
    if cfg['again']: checkOrder(e, p, Np, "at first")
    d = p.setup()
    settle(e, 100)
    finished(e, d, "setup")
    checkOrder(e, p, Np, "after setup")
    e.cover('done')


def challenges(e, cfg):
    """
    Replacement by actual challenges.
    """
    Np = 4
    ev = Evaluator(e, kinds=('num',), nan=False, lo=0)
    P = Pop(e, Np, 1, ev, SSE=lambda k: [3., 1., 4., 2.][k],
            values=lambda k: [k*0.1])
    p = P.p
    de = P.DE(F=0.5, CR=1.0)
    for kt, kb in cfg['pairs']:
        checkOrder(e, p, Np, "before a challenge")
        d = de.challenge(kt, kb)
        settle(e)
        finished(e, d, "the challenge")
        checkOrder(e, p, Np, "after a challenge")
    e.cover('done')


ALL = ['set', 'push', 'blacklist', 'best', 'load']

HARNESSES = [
    Harness(operations, quick=[
        dict(Np=3, N=2, ops=ALL),
        dict(Np=4, N=1, ops=ALL),
        dict(Np=4, N=1, ops=ALL, unseen=True),
        dict(Np=2, N=3, ops=['set', 'push', 'blacklist']),
    ], thorough=[
        dict(Np=3, N=3, ops=ALL),
        dict(Np=4, N=2, ops=ALL),
        dict(Np=2, N=4, ops=['set', 'push', 'blacklist', 'best', 'sample']),
        dict(Np=5, N=1, ops=ALL),
    ], covers=['done'],
       bounds="sequences of 1-4 operations on 2-5 members; all fitness values"),
    Harness(setup, quick=[
        dict(Np=3, again=False), dict(Np=3, again=True),
        dict(Np=3, again=False, peek=True), dict(Np=2, again=True, peek=True),
    ], thorough=[
        dict(Np=4, again=False), dict(Np=4, again=False, peek=True),
    ], covers=['done', 'peeked'],
       bounds="setup of 3-4 members, all fitness values"),
    Harness(challenges, quick=[
        dict(pairs=[[0, 1], [1, 0]]),
    ], thorough=[dict(pairs=[[0, 1], [1, 0], [3, 1]])], covers=['done'],
       bounds="2-3 challenges on 4 members, all results and draws"),
    Harness(large.leading, quick=[
        dict(N=3, N_max=200, sym=30)], thorough=[
        dict(N=4, N_max=200, sym=50, seed=3)], covers=['done'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

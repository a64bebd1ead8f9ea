"""
C01: A challenge replaces its target exactly when strictly better.
"""
from .common import *
from . import large


def challenge(e, cfg):
    """
    One challenge on a population in an arbitrary state.
    """
    Np, Nd = cfg['Np'], cfg['Nd']
    ev = Evaluator(e, delayed=cfg.get('delayed', False))
    P = Pop(e, Np, Nd, ev, SSE=lambda k: e.xreal(
        'S%d' % k, lo=0, nan=bool(cfg.get('nan'))))
    p = P.p
    de = P.DE(F=0.7, CR=cfg.get('CR', 0.8), xSSE=cfg['xSSE'],
              randomBase=cfg.get('randomBase', False))
    kt, kb = cfg['kt'], cfg['kb']
    before = P.snapshot()
    d = de.challenge(kt, kb)
    drive(e, ev, d)
    settle(e)
    finished(e, d, "the challenge")
    e.check(len(ev.calls) == 1, "one evaluation per challenge")
    call = ev.calls[0]
    after = list(p)
    e.check(len(after) == Np, "number of members unchanged")
    for k in range(Np):
        i, v, s = before[k]
        if k != kt:
            e.check(after[k] is i, "no other member is replaced")
        e.check(And(same_vec(i.values, v), same(i.SSE, s)),
                "existing members keep their values and fitness")
    r = call['result']
    iOld, v, sOld = before[kt]
    iNew = after[kt]
    replaced = iNew is not iOld
    fatal = isinstance(r, Exception)
    if fatal or r is None:
        e.cover('invalid result')
        e.check(not replaced, "an invalid result never wins")
    else:
        # NaN compares false, negative is fatal
        better = And(r >= 0, r < sOld)
        e.check(Iff(replaced, better),
                "replaced exactly if strictly better")
        if replaced:
            e.cover('replaced')
            e.check(same(iNew.SSE, r), "the winner has the fitness evaluated")
            e.check(same_vec(iNew.values, call['values']),
                    "the winner has the values evaluated")
        else: e.cover('not replaced')
    if cfg['xSSE']:
        e.check(call['xSSE'] is not None and same(call['xSSE'], sOld),
                "the target's fitness is passed along")
    else: e.check(call['xSSE'] is None, "no early termination unless enabled")
    e.check(P.unlocked(), "no lock is left")


def sequence(e, cfg):
    """
    Several challenges one after another on the same population, so that
    winners become targets, bases and operands.
    """
    Np, Nd = cfg['Np'], 1
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False)
    P = Pop(e, Np, Nd, ev)
    p = P.p
    de = P.DE(F=0.7, CR=1.0, xSSE=cfg['xSSE'])
    for kt, kb in cfg['pairs']:
        before = P.snapshot()
        n = len(ev.calls)
        d = de.challenge(kt, kb)
        settle(e)
        finished(e, d, "the challenge")
        e.check(len(ev.calls) == n+1, "one evaluation each")
        r = ev.calls[-1]['result']
        sOld = before[kt][2]
        after = list(p)
        for k in range(Np):
            if k == kt: continue
            e.check(after[k] is before[k][0], "no other member is replaced")
        e.check(Iff(after[kt] is not before[kt][0], r < sOld),
                "replaced exactly if strictly better")
        for i, v, s in before:
            e.check(And(same_vec(i.values, v), same(i.SSE, s)),
                    "existing members keep their values and fitness")
    e.cover('done')


HARNESSES = [
    Harness(challenge, quick=[
        dict(Np=4, Nd=2, kt=0, kb=1, xSSE=False),
        dict(Np=4, Nd=2, kt=3, kb=0, xSSE=True),
        dict(Np=5, Nd=1, kt=2, kb=4, xSSE=False, delayed=True, nan=True),
        dict(Np=5, Nd=1, kt=2, kb=4, xSSE=True, delayed=True, nan=True),
    ], thorough=[
        dict(Np=n, Nd=nd, kt=kt, kb=kb, xSSE=x, delayed=x, nan=x)
        for n, nd in ((4, 1), (4, 3), (6, 2)) for kt, kb in ((1, 0), (0, n-1))
        for x in (False, True)
    ], covers=['replaced', 'not replaced', 'invalid result'],
       bounds="one challenge; all member values within bounds, all fitness "
       "values, all results, all draws of difference members and crossover"),
    Harness(sequence, quick=[
        dict(Np=4, xSSE=False, pairs=[[0, 1], [0, 2], [1, 0]]),
    ], thorough=[
        dict(Np=4, xSSE=True, pairs=[[0, 1], [1, 0], [0, 1], [2, 0]]),
    ], covers=['done'],
       bounds="3-4 challenges in sequence on 4 members"),
    Harness(large.evolved, quick=[
        dict(N=3, N_max=200, sym=29)], thorough=[
        dict(N=4, N_max=200, sym=60, seed=9)], covers=['done'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

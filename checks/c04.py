"""
C04: No vector that violates a constraint is ever evaluated.
"""
from .common import *


class Constraint(object):
    """
    A constraint with an arbitrary verdict on every call (or until call
    number N, and then always accepting).
    """
    def __init__(self, e, name, N=None, never=False):
        self.e, self.name, self.N, self.never = e, name, N, never
        self.calls = []
    def __call__(self, params):
        call = {'params': dict(params)}
        self.calls.append(call)
        if self.never: call['ok'] = False
        elif self.N is not None and len(self.calls) > self.N:
            call['ok'] = True
            return True
        else: call['ok'] = bool(self.e.choose(2, self.name))
        # Anything false counts
        if call['ok']: return self.e.pick('truth', [True, 1]) \
           if self.name.startswith('odd') else True
        return self.e.pick('falsehood', [False, None, 0]) \
            if self.name.startswith('odd') else False
    def accepted(self, names, values):
        """Did I accept just this vector?"""
        cases = []
        for call in self.calls:
            if not call['ok'] or set(call['params']) != set(names): continue
            cases.append(And(*[
                same(call['params'][n], v) for n, v in zip(names, values)]))
        return Or(*cases)


def supply(e, cfg, names='odd'):
    cs = [Constraint(e, '%s%d' % (names, k), cfg.get('N'))
          for k in range(cfg['n'])]
    if cfg['form'] == 'single': return cs, cs[0]
    if cfg['form'] == 'tuple': return cs, tuple(cs)
    return cs, list(cs)


def challenge(e, cfg):
    Nd = 2
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False)
    cs, arg = supply(e, cfg)
    old = Constraint(e, 'old', 0)
    if cfg['form'] in ('replace', 'clear'):
        kw = {'constraints': [old]}
    else: kw = {'constraints': arg}
    if cfg['form'] == 'none': kw = {}
    # Members were there before the constraints
    saved = [x.N for x in cs]
    for x in cs: x.N = 0
    P = Pop(e, 4, Nd, ev, SSE=lambda k: 10.0+k, kw=kw)
    for x, N in zip(cs, saved):
        x.N = N
        del x.calls[:]
    del old.calls[:]
    p = P.p
    if cfg.get('twice'): p.setConstraints(old, old)
    if cfg['form'] == 'replace': p.setConstraints(*arg)
    elif cfg['form'] == 'clear': p.setConstraints()
    de = P.DE(F=0.9, CR=0.8)
    for kt, kb in cfg.get('pairs', [[1, 0]]):
        before = P.snapshot()
        n0 = len(ev.calls)
        for x in cs: del x.calls[:]
        d = de.challenge(kt, kb)
        settle(e)
        finished(e, d, "the challenge")
        ok = all(c['ok'] for x in cs for c in x.calls)
        e.check(len(ev.calls) - n0 == (1 if ok else 0),
                "evaluated exactly if all constraints accept")
        for c in ev.calls[n0:]:
            e.cover('evaluated')
            for x in cs:
                e.check(x.accepted(P.names, c['values']),
                        "every constraint accepted the evaluated vector")
        if not ok:
            e.cover('dropped')
            for k, (i, v, s) in enumerate(before):
                e.check(p[k] is i, "a dropped challenge replaces nothing")
                e.check(And(same_vec(i.values, v), same(i.SSE, s)),
                        "a dropped challenge changes nothing")
        e.check(P.unlocked(), "no lock is left")
        e.check(de.running, "the run goes on")
    e.check(not old.calls, "replaced constraints no longer apply")


def setup(e, cfg):
    Nd, Np = 2, cfg['Np']
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False, pinf=False,
                   delayed=cfg.get('delayed', False))
    cs, arg = supply(e, cfg, 'c')
    if cfg.get('never'):
        cs[-1].never = True
    if cfg['form'] == 'replace':
        old = Constraint(e, 'old', never=True)
        P = Pop(e, Np, Nd, ev, fill=False, kw={'constraints': [old]})
        P.p.setConstraints(*arg)
    else: P = Pop(e, Np, Nd, ev, fill=False, kw={'constraints': arg})
    p = P.p
    p.maxTries = cfg.get('maxTries', 20)
    d = p.setup(uniform=cfg['uniform'], blank=cfg.get('blank', False))
    drive(e, ev, d, name='order')
    settle(e, 100)
    finished(e, d, "setup")
    for c in ev.real:
        for x in cs:
            e.check(x.accepted(P.names, c['values']),
                    "every constraint accepted the evaluated vector")
    for i in p:
        for x in cs:
            e.check(x.accepted(P.names, list(i.values)),
                    "every constraint accepted each member")
    if cfg.get('never'):
        e.cover('gave up')
        e.check(not d.result, "no success is reported")
        e.check(len(ev.real) == 0, "nothing is evaluated")
    else:
        e.check(bool(d.result), "setup succeeds")
        e.check(len(p) == Np, "all members are there")
        e.cover('done')


HARNESSES = [
    Harness(challenge, quick=[
        dict(n=1, form='single'),
        dict(n=2, form='list'),
        dict(n=3, form='tuple'),
        dict(n=2, form='replace'),
        dict(n=1, form='replace'),
        dict(n=3, form='replace'),
        dict(n=1, form='replace', twice=True),
        dict(n=0, form='clear'),
        dict(n=0, form='none'),
    ], thorough=[
        dict(n=2, form='replace', pairs=[[1, 0], [2, 1]]),
        dict(n=3, form='list', pairs=[[1, 0]]),
    ], covers=['evaluated', 'dropped'],
       bounds="1-2 challenges, 0-3 constraints with arbitrary verdicts, all "
       "values and draws"),
    Harness(setup, quick=[
        dict(Np=3, n=1, form='single', N=4, uniform=True),
        dict(Np=2, n=2, form='list', N=3, uniform=False),
        dict(Np=2, n=1, form='replace', N=2, uniform=False),
        dict(Np=3, n=1, form='list', N=3, uniform=False, blank=True),
        dict(Np=3, n=2, form='list', N=0, uniform=True, never=True, maxTries=3),
        dict(Np=3, n=1, form='list', N=0, uniform=True, never=True, maxTries=3,
             blank=True),
    ], thorough=[
        dict(Np=3, n=2, form='list', N=4, uniform=True),
        dict(Np=3, n=1, form='list', N=4, uniform=False, delayed=True),
    ], covers=['done', 'gave up'],
       bounds="setup of 2-3 members; the first 3-4 verdicts of each of 1-2 "
       "constraints arbitrary; all draws"),
]

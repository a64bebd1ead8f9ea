"""
C16: Improvement ratios and scores follow the documented rule.
"""
from .common import *


def individual(P, values, raw):
    i = P.individual(values)
    i.SSE = raw
    return i

def fatal(raw):
    """Is it the result of a fatal evaluation?"""
    return raw is not None and raw < 0

def bogus(s): return Or(isnan(s), isinf(s))

def anyRaw(e, name, kinds):
    kind = kinds[e.choose(len(kinds), name + 'kind')] \
        if len(kinds) > 1 else kinds[0]
    if kind == 'none': return None
    if kind == 'neg': return e.real(name, None, 0, hi_open=True)
    if kind == 'zero': return 0.0
    if kind == 'int0': return 0
    return e.xreal(name, lo=0)

def ratio(e, cfg):
    """
    The ratio of one report with two individuals.
    """
    P = Pop(e, 3, 1, SSE=lambda k: [5., 2., 9.][k],
            values=lambda k: [0.1*k], reporter=True)
    p = P.p
    kinds = cfg['kinds']
    # Target and challenger
    rt = anyRaw(e, 'target', kinds)
    rc = anyRaw(e, 'challenger', kinds)
    it = individual(P, [0.5], rt)
    ic = individual(P, [0.6], rc)
    if cfg.get('best'):
        # There already is a better one
        b = individual(P, [0.7], 0.0)
        p.report(b)
    direct = cfg.get('direct')
    r = p.reporter.msgRatio(it, ic) if direct else p.report(ic, it)
    t, c = worst(rt), worst(rc)
    if bool(Or(fatal(rt), fatal(rc))):
        e.check(r is None, "no ratio with a fatal evaluation")
        e.cover('fatal')
        return
    if bool(bogus(c)):
        e.check(r is not None and r == 0, "zero for an invalid challenger")
        e.cover('bogus')
        return
    if bool(bogus(t)):
        e.check(r is not None and r >= 100,
                "very high for an invalid target only")
        e.cover('high')
        return
    if bool(t < c):
        e.check(r is None, "none if the challenger is worse")
        e.cover('worse')
        return
    e.check(r is not None, "a ratio if the challenger is not worse")
    if r is None: return
    if bool(c == 0):
        if bool(t == 0):
            # A tie at zero is of no consequence
            return
        e.check(r >= 100, "very high if the challenger's is zero")
        e.cover('zero')
        return
    # Both are finite and positive
    # Too close to the threshold to tell?
    if bool(And(c >= (0.98-1e-9)*t, c <= (0.98+1e-9)*t)): return
    if bool(c > 0.98*t):
        e.check(r == 0, "zero if better by less than the threshold")
        e.cover('equiv')
        return
    # t/c, rounded
    d = r*c - t
    if e.symbolic:
        e.check(And(d <= 0.5*c, d >= -0.5*c), "the rounded ratio")
        e.check(lift(r).is_integer() if isinstance(r, SF) else True,
                "the ratio is an integer")
    else:
        e.check(abs(float(r) - t/c) <= 0.5 + 1e-6, "the rounded ratio")
        e.check(float(r) == int(r), "the ratio is an integer")
    e.check(r >= 1, "at least one if significantly better")
    e.cover('ratio')


CASES = [
    # SSE of target and challenger, weight
    (99.0, 100.0, None),
    (100.0, 100.0, 0.1),
    (100.9, 100.0, 0.1),
    (130.0, 100.0, 0.5),
    (200.0, 100.0, 1.5),
    (310.0, 100.0, 2.5),
    (820.0, 100.0, 7.5),
    (math.inf, 100.0, 999.5),
    (5000.0, 100.0, 49.5),
    (100.0, math.inf, 0.1),
    (50.0, 80.0, None),
]

def score(e, cfg):
    """
    Reports in between inquiries.
    """
    w = e.world
    N = cfg['N']
    cases = [CASES[k] for k in cfg.get('cases', range(len(CASES)))]
    T = e.real('T', 0, lo_open=True)
    picks, first, again = [], [], []
    for j in range(N):
        picks.append(e.choose(len(cases), 'case'))
    # What its best one so far is
    best = [1.0, 90.0, 1000.0][e.choose(3, 'best')] if cfg.get('best') else 1.0
    results = []
    expected = 0
    for u in (0.00005, 0.99995):
        P = Pop(e, 3, 1, SSE=lambda k: [5000., 2000., 9000.][k],
                values=lambda k: [0.1*k], reporter=True)
        p = P.p
        for name in ('random_sample', 'random', 'rand'):
            w.nprandom.__dict__[name] = lambda *a, **k: u
        w.random.__dict__['random'] = lambda: u
        w.random.__dict__['uniform'] = lambda a, b: a + u*(b-a)
        p.report(individual(P, [0.7], best))
        if cfg.get('early'):
            # Before the first inquiry, nothing counts
            p.report(individual(P, [0.2], 100.0), individual(P, [0.3], 900.0))
        first.append(p.replacement())
        if T is not None: p.replacement(sqs=T)
        expected, b = 0, best
        for j, k in enumerate(picks):
            t, c, weight = cases[k]
            # Slightly better each time
            c = c*(1 - 1e-4*j)
            p.report(individual(P, [0.1+0.01*j], c),
                     individual(P, [0.2+0.01*j], t))
            if weight is not None: expected += weight
            if c < b:
                b = c
                expected += 0.5
        results.append(p.replacement())
        again.append(p.replacement())
    for x in first:
        e.check(x is True, "the first inquiry keeps the status quo")
    results = [bool(x) for x in results]
    margin = 1e-6*max(1.0, expected)
    if bool(T < expected - margin):
        e.check(all(results), "kept if the score exceeds its target")
        e.cover('kept')
    elif bool(expected <= 0.9*T):
        e.check(not all(results), "may be dropped if below its target")
        e.cover('below')
    if bool(T < 1e6):
        e.check(not all(bool(x) for x in again),
                "an inquiry restarts the score")
    e.cover('done')


def draws(e, cfg):
    """
    With a score above its target, no draw whatever drops it.
    """
    P = Pop(e, 3, 1, SSE=lambda k: [5000., 2000., 9000.][k],
            values=lambda k: [0.1*k], reporter=True)
    p = P.p
    p.report(individual(P, [0.7], 1.0))
    p.replacement()
    if cfg.get('sqs'):
        T = e.real('T', 0, lo_open=True)
        p.replacement(sqs=T)
    else:
        # As configured
        T = 0.02*P.Np
    t = e.real('target', 2, 200)
    p.report(individual(P, [0.1], 2.0), individual(P, [0.2], t))
    keep = bool(p.replacement())
    # The weight of the ratio is at least this
    if bool(t >= 2.05): least = ite(t < 3, 0.5, t/2 - 1) \
        if e.symbolic else (0.5 if t < 3 else t/2 - 1)
    else: least = 0
    if bool(least > T):
        e.check(keep, "no draw drops it with a score above target")
        e.cover('above')
    elif keep: e.cover('luck')
    else: e.cover('dropped')


HARNESSES = [
    Harness(ratio, quick=[
        dict(kinds=['num', 'none', 'neg', 'int0']),
        dict(kinds=['num'], best=True),
        dict(kinds=['num', 'zero', 'neg'], direct=True),
    ], covers=['fatal', 'bogus', 'high', 'worse', 'zero', 'equiv', 'ratio'],
       bounds="all fitness values of two individuals, including missing, "
       "NaN, infinite, negative and zero"),
    Harness(score, quick=[
        dict(N=1, best=True), dict(N=2, cases=[0, 2, 3, 4, 7, 9], best=True),
        dict(N=3, cases=[0, 2, 3, 5]), dict(N=2),
        dict(N=1, early=True, cases=[0, 3, 4])
    ], thorough=[
        dict(N=3, best=True), dict(N=4, cases=[0, 1, 3, 5, 7]),
    ], covers=['kept', 'below', 'done'],
       bounds="up to 4 reports between inquiries, of 11 kinds, with three "
       "states of the best so far; all targets of the score"),
    Harness(draws, quick=[dict(sqs=True), dict()],
            covers=['above', 'luck', 'dropped'],
            bounds="all draws, all ratios of one report, all targets"),
]

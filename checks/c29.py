"""
C29: Settings given take effect; invalid ones are refused harmlessly.
"""
from .common import *

DEFAULTS = {
    'CR': 0.8, 'F': (0.5, 1.0), 'maxiter': 500, 'randomBase': False,
    'uniform': False, 'adaptive': True, 'bitterEnd': False,
    'dwellByGrave': 5, 'goalSSE': None, 'xSSE': False}


def given(e, name):
    """A valid value of a setting of differential evolution."""
    if name == 'CR': return e.real('CR', 0, 1)
    if name == 'F':
        lo = e.real('F', 0, 2)
        if e.choose(2, 'Frange'): return lo
        return (lo, lo + e.real('Fwidth', 0, 2))
    if name in ('maxiter', 'dwellByGrave'): return e.choose(3, name)
    if name == 'goalSSE': return e.real('goal', 0)
    if name == 'randomBase': return e.real('randomBase', 0, 1)
    return not DEFAULTS[name] if e.choose(2, name) else DEFAULTS[name]

def equal(a, b):
    if isinstance(b, tuple):
        return len(a) == len(b) and same_vec(list(a), list(b))
    if b is None or isinstance(b, bool): return a is b
    if a is None: return False
    return same(a, b)


def settings(e, cfg):
    """
    Settings of differential evolution.
    """
    P = Pop(e, 4, 2, SSE=lambda k: 1.0+k, values=lambda k: [0.1*k]*2)
    DE = e.world.load('ade.de').DifferentialEvolution
    kw = {'logHandle': None}
    for name in cfg['names']: kw[name] = given(e, name)
    if cfg.get('none') is not None: kw[cfg['none']] = None
    want = dict(DEFAULTS)
    for name in cfg['names']: want[name] = kw[name]
    # Another one before, with other settings
    if cfg.get('another'):
        DE(P.p, logHandle=None, CR=0.25, F=0.125, maxiter=7, randomBase=0.5,
           uniform=True, adaptive=False, bitterEnd=True, dwellByGrave=9,
           goalSSE=3.0, xSSE=True)
    de = DE(P.p, **kw)
    for name in want:
        e.check(equal(getattr(de, name), want[name]),
                "settings are those given or else the defaults")
    e.check(DE(P.p, logHandle=None).CR == 0.8, "defaults remain")
    e.cover('done')


def crossover(e, cfg):
    """
    Any crossover rate.
    """
    P = Pop(e, 4, 2, SSE=lambda k: 1.0+k, values=lambda k: [0.1*k]*2)
    DE = e.world.load('ade.de').DifferentialEvolution
    CR = e.real('CR')
    try: de = DE(P.p, logHandle=None, CR=CR)
    except ValueError:
        e.check(Or(CR < 0, CR > 1), "only an invalid rate is refused")
        e.cover('refused')
    else:
        e.check(And(CR >= 0, CR <= 1), "an invalid rate is refused")
        e.cover('accepted')


def refuses(e, exc, f, *args, **kw):
    try: f(*args, **kw)
    except exc: return True
    return False

BAD = [None, 3, "abc", []]


def construct(e, cfg):
    """
    Construction of a population.
    """
    w = e.world
    w.quiet()
    Population = w.load('ade.population').Population
    func = lambda values: 1.0
    bounds = [(0.0, 1.0), (2.0, 5.0), (1.0, 3.0), (1.0, 8.0)]
    Nn, Nb = 1 + e.choose(4, 'names'), 1 + e.choose(4, 'bounds')
    ok = e.choose(1+len(BAD), 'callable')
    names = NAMES[:Nn]
    kw = {}
    size = e.choose(3, 'size')
    if size: kw['popsize'] = [None, 7, 30][size]
    try:
        p = Population(
            func if not ok else BAD[ok-1], names, bounds[:Nb], **kw)
    except ValueError:
        e.check(bool(ok) or Nn != Nb, "valid arguments are accepted")
        e.cover('refused')
        return
    e.check(not ok, "something not callable is refused")
    e.check(Nn == Nb, "a different number of bounds is refused")
    e.check(p.Np == max(20, min(500, kw.get('popsize', 10)*Nb)),
            "the population size is right")
    e.check(p.Nd == Nb and list(p.pm.names) == NAMES[:Nn],
            "the parameters are those given")
    e.cover('accepted')


def replaced(e, cfg):
    """
    Refused replacements of members, values, constraints, or callbacks.
    """
    seen = []
    def evaluate(call): return 0.5
    P = Pop(e, 3, 2, Evaluator(e, result=evaluate), SSE=lambda k: 1.0+k,
            values=lambda k: [0.1*k]*2, history=cfg['what'] == 'position')
    p, w = P.p, e.world
    before = list(p)
    values = [list(i.values) for i in p]
    if cfg['what'] == 'member':
        k = e.choose(3, 'k')
        x = [None, 1.0, [0.5, 0.5], "abc", p.pm][e.choose(5, 'x')]
        e.check(refuses(e, TypeError, p.__setitem__, k, x),
                "anything but an individual is refused")
    elif cfg['what'] == 'position':
        settle(e)
        N = len(p.history)
        k = 3 + e.choose(2, 'k')
        i = P.individual([0.5, 0.5], 0.25)
        e.check(refuses(e, IndexError, p.__setitem__, k, i),
                "a position that doesn't exist is refused")
        settle(e)
        e.check(len(p.history) == N, "it's not recorded either")
    elif cfg['what'] == 'values':
        i = p[e.choose(3, 'k')]
        v = [[], [0.5], [0.5]*3, (0.5,)*4][e.choose(4, 'v')]
        if e.choose(2, 'array'): v = w.np.array(v)
        e.check(refuses(e, ValueError, i.update, v),
                "the wrong number of values is refused")
        e.check(refuses(e, ValueError, p.spawn, v),
                "also for a new individual")
    elif cfg['what'] == 'constraints':
        calls = []
        def ok(params):
            calls.append(params)
            return False
        p.setConstraints(ok)
        bad = BAD[e.choose(len(BAD), 'bad')]
        pos = e.choose(3, 'pos')
        args = [lambda params: True]*2
        args.insert(pos, bad)
        e.check(refuses(e, ValueError, p.setConstraints, *args),
                "a constraint that can't be called is refused")
        e.check(not p.pm.passesConstraints(w.np.array([0.5, 0.5])) and calls,
                "those before remain")
    elif cfg['what'] == 'callback':
        P2 = Pop(e, 3, 2, SSE=lambda k: 1.0+k, values=lambda k: [0.1*k]*2,
                 reporter=True)
        p2 = P2.p
        bad = BAD[e.choose(len(BAD), 'bad')]
        p2.addCallback(lambda *args: seen.append(args))
        e.check(refuses(e, ValueError, p2.addCallback, bad),
                "a callback that can't be called is refused")
        p2.report(p2[0])
        settle(e)
        e.check(len(seen) == 1, "the other one works")
    elif cfg['what'] == 'abort':
        bad = BAD[e.choose(len(BAD), 'bad')]
        abort = w.load('ade.abort')
        abort.callOnAbort(lambda: seen.append(1))
        e.check(refuses(e, TypeError, abort.callOnAbort, bad),
                "something to call upon abort that can't be is refused")
        abort.abortNow()
        settle(e)
        e.check(seen == [1], "the other one works")
    e.check(len(p) == 3 and all(i is j for i, j in zip(p, before)),
            "the members remain")
    e.check(And(*[same_vec(list(i.values), v) for i, v in zip(p, values)]),
            "their values remain")
    e.cover('done')


HARNESSES = [
    Harness(settings, quick=[dict(names=[])] +
            [dict(names=[name]) for name in DEFAULTS] +
            [dict(names=[], none=name) for name in DEFAULTS] +
            [dict(names=[], another=True),
             dict(names=['CR', 'F', 'randomBase', 'goalSSE'], another=True),
             dict(names=['maxiter', 'adaptive', 'xSSE'], none='CR'),
             dict(names=['uniform', 'bitterEnd', 'dwellByGrave'])],
            thorough=[dict(names=sorted(DEFAULTS))],
            covers=['done'], bounds="any value of each setting"),
    Harness(crossover, quick=[{}], covers=['refused', 'accepted'],
            bounds="any crossover rate"),
    Harness(construct, quick=[{}], covers=['refused', 'accepted'],
            bounds="1-4 names and bounds, 3 sizes"),
    Harness(replaced, quick=[dict(what=x) for x in (
        'member', 'position', 'values', 'constraints', 'callback', 'abort')],
            covers=['done'], bounds="5 kinds of invalid things each"),
]

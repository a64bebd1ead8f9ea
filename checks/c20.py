"""
C20: Constraint wrappers pass the right linear and log-space values.
"""
from .common import *

NAMES3 = ['x', 'y', 'z']

# Names of linear parameters and of log parameters of the methods
REGISTRIES = [
    [({'x'}, {'y'})],
    [({'x', 'y'}, None), (None, {'x', 'z'})],
    [(None, {'x'}), ({'x'}, None)],
    [({'x'}, {'y'}), ({'y'}, {'x'}), ({'z'}, {'x', 'y'})],
    [({'x', 'y', 'z'}, None), (None, {'x', 'y', 'z'}), ({'y'}, None)],
    [(None, {'z'}), (set(), {'y'}), (set(['x']), set())],
]

def make(e, registry, ok=None):
    """
    A Constraints subclass with methods that keep a log of their calls.
    """
    w = e.world
    w.quiet()
    C = w.load('ade.constraints')
    log = []
    def method(k):
        def m(self, params):
            log.append((k, dict(params)))
            return True if ok is None else ok(k)
        m.__name__ = 'm%d' % k
        return m
    members = {'m%d' % k: method(k) for k in range(len(registry))}
    members['registry'] = {'m%d' % k: r for k, r in enumerate(registry)}
    cls = type('Mine', (C.Constraints,), members)
    return cls, log

def params(e, names, vary=True):
    out = {}
    for name in names:
        if vary and not e.choose(2, 'present'): continue
        out[name] = e.real(name, -300, 300)
    return out

def expected(e, r, given):
    """What the method should be called with, None if not at all."""
    lin, log = r[0] or set(), r[1] or set()
    if not (lin | log) <= set(given): return None
    want = {name: given[name] for name in lin}
    want.update({
        name: e.world.np.power(10.0, given[name]) for name in log})
    return want

def matches(got, want):
    if set(got) != set(want): return False
    return And(*[near(got[n], want[n], scale=abs(want[n])
                      if not has_sym(want[n]) else None) for n in want])


def wrappers(e, cfg):
    """
    Uses of the wrappers: iterating anew for each set of parameters, or
    keeping a list of them.
    """
    registry = REGISTRIES[cfg['registry']]
    results = {}
    def ok(k):
        results[k] = e.choose(2, 'ok')
        return bool(results[k])
    cls, log = make(e, registry, ok)
    c = cls()
    appended = []
    def extra(given):
        appended.append(given)
        return bool(e.choose(2, 'ok'))
    if cfg.get('append'): c.append(extra)
    N = len(registry) + bool(cfg.get('append'))
    e.check(len(c) == N, "as many as were registered and appended")
    e.check(bool(c), "there are some")
    kept = list(c) if cfg['how'] == 'list' else None
    if kept is not None:
        e.check(len(kept) == N, "one wrapper for each")
    for n in range(cfg.get('N', 1)):
        given = params(e, NAMES3, cfg.get('vary', True))
        original = dict(given)
        for k, f in enumerate(kept if kept is not None else c):
            if kept is not None and cfg.get('skip') and e.choose(2, 'skip'):
                continue
            del log[:]
            del appended[:]
            result = f(given)
            if k == len(registry):
                e.check(len(appended) == 1 and appended[0] == original
                        and not log,
                        "an appended function gets the parameters as given")
                e.cover('appended')
                continue
            want = expected(e, registry[k], original)
            if want is None:
                e.check(not log, "not called if a parameter is absent")
                e.check(bool(result), "satisfied if a parameter is absent")
                e.cover('absent')
                continue
            e.check([x[0] for x in log] == [k],
                    "the method itself gets called, once")
            e.check(matches(log[0][1], want),
                    "called with its declared parameters' values")
            e.check(bool(result) == bool(results[k]),
                    "satisfied exactly if the method says so")
            e.cover('called')
        e.check(set(given) == set(original) and And(*[
            same(given[n], original[n]) for n in original]),
                "the given parameters don't change")


def empty(e, cfg):
    """
    No constraints registered.
    """
    cls, log = make(e, [])
    c = cls()
    e.check(len(c) == 0 and not bool(c) and list(c) == [], "there are none")
    f = lambda params: False
    c.append(f)
    e.check(len(c) == 1 and bool(c), "there is one")
    e.check(list(c)[0]({}) is False, "it's the one appended")
    d = cls()
    e.check(len(d) == 0, "appending is just to the one")
    e.cover('done')


def constructed(e, cfg):
    """
    Constructor arguments and keywords.
    """
    cls, log = make(e, REGISTRIES[0])
    seen = []
    def setup(self, *args):
        seen.append((args, self.foo))
        self.bar = args[0]
    cls.setup = setup
    x, y = e.real('x'), e.real('y')
    c = cls(x, 2, foo=y)
    e.check(len(seen) == 1 and len(seen[0][0]) == 2,
            "setup is called with the arguments")
    e.check(And(same(seen[0][0][0], x), same(seen[0][1], y)),
            "attributes are set from keywords before setup")
    e.check(And(same(c.foo, y), same(c.bar, x)), "attributes remain")
    e.check(len(c) == 1, "as many as were registered")
    e.cover('done')


def population(e, cfg):
    """
    A population with the constraints.
    """
    registry = [({'b'}, {'a'}), ({'a', 'b'}, None), (None, {'b'})]
    lim = [e.real('lim') for _ in registry]
    free = [True]
    cls, log = make(e, registry)
    def method(k):
        def m(self, params):
            if free: return True
            log.append((k, dict(params)))
            return bool(sum(list(params.values())[1:],
                            list(params.values())[0]) < lim[k])
        return m
    for k in range(len(registry)): setattr(cls, 'm%d' % k, method(k))
    c = cls()
    P = Pop(e, 3, 2, SSE=lambda k: 5., values=lambda k: [0., 0.],
            kw=dict(constraints=c))
    del free[:]
    for _ in range(cfg.get('N', 1)):
        v = [e.real('v', -1, 2), e.real('v', -2, 3)]
        given = dict(zip(P.names, v))
        del log[:]
        ok = bool(P.p.pm.passesConstraints(P.individual(v).values))
        sums = []
        for r in registry:
            want = expected(e, r, given)
            sums.append(sum(list(want.values())[1:], list(want.values())[0]))
        e.check(Iff(ok, And(*[s < t for s, t in zip(sums, lim)])),
                "passes exactly if all methods are satisfied")
        for k, got in log:
            e.check(matches(got, expected(e, registry[k], given)),
                    "called with its declared parameters' values")
        e.cover('passes' if ok else 'fails')


def relations(e, cfg):
    """
    Linear relations.
    """
    w = e.world
    w.quiet()
    C = w.load('ade.constraints')
    spec, pairs = {}, []
    R = cfg.get('R')
    lim = (-R, R) if R else ()
    for xName, yName in cfg['pairs']:
        t = (e.real('m', *lim), e.real('b', *lim), e.real('err', 0, R))
        spec.setdefault(xName, {})[yName] = t
        pairs.append((xName, yName, t))
    checker = C.RelationsChecker(spec)
    for _ in range(cfg.get('N', 1)):
        p = {name: e.real(name, *lim) for name in NAMES3}
        ok = bool(checker(dict(p)))
        within = []
        for xName, yName, (m, b, err) in pairs:
            dev = m*p[xName] + b - p[yName]
            if R: e.assume(Or(
                    And(dev < err - 0.01, -dev < err - 0.01),
                    dev > err + 0.01, -dev > err + 0.01))
            within.append(And(dev <= err, -dev <= err))
            # Rounding decides on a replay right at the limit
            if not has_sym(dev):
                e.assume(abs(abs(dev) - err) > 1e-9*(
                    1 + abs(m*p[xName]) + abs(b) + abs(p[yName])))
        e.check(Iff(ok, And(*within)),
                "accepts exactly if all are within maximum deviation")
        e.cover('accept' if ok else 'reject')


def limit(e, cfg):
    """
    Deviations of exactly the maximum and just beyond, with values that
    nothing gets rounded for.
    """
    C = e.world.load('ade.constraints')
    x = [-3.0, 0.0, 1.0, 2.5][e.choose(4, 'x')]
    m = [-1.0, 0.0, 0.5, 2.0][e.choose(4, 'm')]
    b = [-1.5, 0.0, 4.0][e.choose(3, 'b')]
    err = [0.0, 0.25, 2.0][e.choose(3, 'err')]
    rc = C.RelationsChecker({'x': {'y': (m, b, err)}})
    for s in (1, -1):
        e.check(bool(rc({'x': x, 'y': m*x + b + s*err})),
                "accepts the maximum deviation itself")
        e.check(not rc({'x': x, 'y': m*x + b + s*(err + 2**-30)}),
                "accepts no more than that")
    e.cover('done')


def nan(e, cfg):
    """
    No relations at all.
    """
    C = e.world.load('ade.constraints')
    e.check(bool(C.RelationsChecker({})({'x': e.real('x')})),
            "accepts if nothing is related")
    e.cover('done')


HARNESSES = [
    Harness(wrappers, quick=[
        dict(registry=k, how=how, append=True)
        for k in range(len(REGISTRIES)) for how in ('iter', 'list')] + [
        dict(registry=k, how=how, N=2, vary=False)
        for k in (1, 2, 3) for how in ('iter', 'list')] + [
        dict(registry=1, how='list', N=2, skip=True)],
            thorough=[
        dict(registry=k, how=how, N=2)
        for k in (0, 1, 2, 5) for how in ('iter', 'list')] + [
        dict(registry=k, how='list', N=2, skip=True, vary=False)
        for k in (3, 4)] + [
        dict(registry=k, how='list', N=3, vary=False)
        for k in (1, 2)],
            covers=['called', 'absent', 'appended'],
            bounds="up to 3 methods, 3 parameters present or not, of any "
            "value within +/-300, up to 2 uses (3 thorough)"),
    Harness(empty, quick=[dict()], covers=['done'], bounds="none"),
    Harness(constructed, quick=[dict()], covers=['done'],
            bounds="any argument and keyword values"),
    Harness(population, quick=[dict()], thorough=[dict(N=2)],
            covers=['passes', 'fails'],
            bounds="2 parameters, 3 methods with any limits, any values"),
    Harness(relations, quick=[
        dict(pairs=[['x', 'y']], N=2),
        dict(pairs=[['x', 'y'], ['x', 'z'], ['z', 'y']]),
        dict(pairs=[['x', 'y'], ['z', 'y']], R=100)],
            thorough=[
        dict(pairs=[['x', 'y'], ['y', 'x']], N=2),
        dict(pairs=[['x', 'y'], ['x', 'z'], ['y', 'z'], ['z', 'x']])],
            covers=['accept', 'reject'],
            bounds="up to 3 relations (4 thorough) with any slope, intercept "
            "and maximum deviation, any values"),
    Harness(limit, quick=[dict()], covers=['done'],
            bounds="144 relations and values that are small dyadic numbers"),
    Harness(nan, quick=[dict()], covers=['done'], bounds="none"),
]

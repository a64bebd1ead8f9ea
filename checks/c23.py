"""
C23: Unit scaling and parameter display agree with names and bounds.
"""
import itertools, re
from .common import *

ORDERS = [list(x) for x in itertools.permutations(['alpha', 'b', 'beta'])]

def manager(e, names, bounds):
    w = e.world
    w.quiet()
    return w.load('ade.population').ParameterManager(list(names), bounds)

def bounds(e, N, fixed=False):
    if fixed: return [(-1.0, 2.0), (0.5, 20.5), (-8.0, -3.0)][:N]
    B = []
    for _ in range(N):
        lo, hi = e.real('lo', -1e6, 1e6), e.real('hi', -1e6, 1e6)
        e.assume(hi - lo > 1e-3)
        B.append((lo, hi))
    return B


def scaling(e, cfg):
    """
    To and from unit vectors.
    """
    N = cfg['N']
    B = bounds(e, N)
    pm = manager(e, ORDERS[0][:N], B)
    np_ = e.world.np
    if cfg['how'] == 'setup':
        # Bounds can be reset
        B = bounds(e, N)
        pm.setup(B)
    lo, hi = [b[0] for b in B], [b[1] for b in B]
    e.check(same_vec(pm.fromUnity(np_.zeros(N)), lo),
            "0 maps to the lower bound")
    e.check(same_vec(pm.fromUnity(np_.ones(N)), hi, near),
            "1 maps to the upper bound")
    e.check(same_vec(pm.toUnity(np_.array(lo)), [0]*N, near),
            "the lower bound maps to 0")
    e.check(same_vec(pm.toUnity(np_.array(hi)), [1]*N, near),
            "the upper bound maps to 1")
    u = [e.real('u', 0, 1) for _ in range(N)]
    x = pm.fromUnity(np_.array(u))
    e.check(same_vec(x, [l + (h-l)*y for l, h, y in zip(lo, hi, u)], near),
            "the scaling is linear")
    tol = lambda a, b: near(a, b, 1e-6)
    e.check(same_vec(pm.toUnity(x), u, tol), "scaling back undoes it")
    v = [e.real('v', l, h) for l, h in B]
    e.check(same_vec(pm.fromUnity(pm.toUnity(np_.array(v))), v, tol),
            "scaling undoes scaling back")
    e.cover('done')


def stars(v, lo, hi):
    """Number of stars for a value, 0-2 (symbolic)."""
    return If(v - lo < 0.05*(hi - lo), 1, If(v - lo > 0.95*(hi - lo), 2, 0))

def notEdge(e, v, lo, hi):
    """What happens right at an edge depends on rounding."""
    for u in (0.05, 0.95):
        e.assume(Or(v - lo < (u - 1e-9)*(hi - lo),
                    v - lo > (u + 1e-9)*(hi - lo)))

def number(e, text):
    """What a displayed number stands for."""
    tokens = getattr(e, 'tokens', {})
    if text in tokens: return tokens[text], 0
    return float(text), 1

def displayed(e, text, v, digits=6):
    """The condition that the text shows the value."""
    x, rounded = number(e, text)
    if rounded and has_sym([v]): return False
    if not rounded: return same(x, v)
    return near(x, v, tol=10.0**(2-digits), scale=abs(v)) and \
        abs(x - v) <= 10.0**(1-digits) * abs(v) + 1e-300

def item(e, part, name, v, lo, hi):
    """
    Checks one item of the display.
    """
    m = re.match(r'^([^=]+)=([^*]*)(\**)$', part)
    e.check(m is not None, "each item is a name and value")
    e.check(m.group(1) == name, "names are in sorted order")
    e.check(displayed(e, m.group(2), v), "each value is under its own name")
    e.check(stars(v, lo, hi) == len(m.group(3)),
            "one star if < 5% up, two if > 95%")
    return len(m.group(3))


def display(e, cfg):
    """
    Displayed values.
    """
    names = ORDERS[e.choose(6, 'order')] if cfg['N'] == 3 else \
        ORDERS[e.choose(2, 'order')*2][:cfg['N']]
    N = cfg['N']
    B = bounds(e, N, cfg.get('fixed'))
    pm = manager(e, names, B)
    v = []
    for k, (lo, hi) in enumerate(B):
        v.append(e.real('v', lo, hi) if k in cfg['free'] else 0.5*(lo+hi))
        notEdge(e, v[-1], lo, hi)
    arr = e.world.np.array(v)
    how = cfg['how']
    if how == 'plain': text = pm.prettyValues(arr)
    elif how == 'prelude': text = pm.prettyValues(arr, "Hi")
    else: text = pm.prettyValues(arr, "Hi{}{}", 1, "x")
    parts = text.split()
    if how != 'plain':
        e.check(parts[0] == ('Hi' if how == 'prelude' else 'Hi1x'),
                "the prelude comes first")
        parts = parts[1:]
    e.check(len(parts) == N, "each parameter is shown once")
    for part, name in zip(parts, sorted(names)):
        k = names.index(name)
        n = item(e, part, name, v[k], *B[k])
        if k in cfg['free']: e.cover('stars%d' % n)


def named(e, cfg):
    """
    Iterating over sorted names, and access by name.
    """
    names = ORDERS[e.choose(6, 'order')]
    B = bounds(e, 3, True)
    pm = manager(e, names, B)
    v = [e.real('v') for _ in names]
    arr = e.world.np.array(v)
    S = sorted(names)
    e.check(list(pm.sortedNamerator(namesOnly=True)) == S, "sorted names")
    pairs = [tuple(x) for x in pm.sortedNamerator()]
    e.check(pairs == [(names.index(n), n) for n in S],
            "sorted names with their positions")
    got = list(pm.sortedNamerator(arr))
    e.check([tuple(x[:2]) for x in got] == pairs,
            "sorted names with positions and values")
    e.check(And(*[same(x[2], v[names.index(x[1])]) for x in got]),
            "each value with its own name")
    # An individual
    pop = e.world.load('ade.population')
    pop.Population.Np_min = 3
    pop.Population.Np_max = 3
    p = pop.Population(lambda values: 0, list(names), B)
    i = p.spawn(arr)
    for k, n in enumerate(names):
        e.check(And(same(i[n], v[k]), same(i[k], v[k])),
                "access by name is as by position")
    e.check(same_vec(list(i), v), "iteration is by position")
    d = i.params
    e.check(set(d) == set(names) and And(*[
        same(d[n], v[k]) for k, n in enumerate(names)]),
            "a dict has each value under its own name")
    x = e.real('x')
    k = e.choose(3, 'k')
    i[k] = x
    e.check(And(same(i[names[k]], x), *[
        same(i[n], v[j]) for j, n in enumerate(names) if j != k]),
            "a value that is set is that of its name")
    e.cover('done')


def column(e, cfg):
    """
    The population's table of individuals.
    """
    Np, Nd = cfg['Np'], cfg['Nd']
    SSE = [7.25, 3.5, 11.0, 3.5][:Np]
    free = (cfg['member'], cfg['param'])
    B = symbounds(e, Nd, True)
    V_ = {}
    def values(k):
        V_[k] = []
        for j, (lo, hi) in enumerate(B):
            if (k, j) == free: x = e.real('v', lo, hi)
            else: x = lo + (hi - lo) * (0.2 + 0.1*k + 0.03*j)
            notEdge(e, x, lo, hi)
            V_[k].append(x)
        return V_[k]
    P = Pop(e, Np, Nd, SSE=lambda k: SSE[k], values=values, plain=False)
    names = P.names
    lines = repr(P.p).split('\n')
    rows = [x.split('|') for x in lines if '|' in x]
    e.check(len(rows) == Nd + 1, "a row for each parameter and SSE")
    e.check([r[0].strip() for r in rows] == ['SSE'] + sorted(names),
            "rows are in sorted order")
    cells = [r[1].split() for r in rows]
    e.check(all(len(c) == Np for c in cells), "a column for each individual")
    shown = [float(x) for x in cells[0]]
    e.check(shown == sorted(SSE), "columns are in order of SSE")
    kc = {}
    for c, s in enumerate(shown): kc.setdefault(s, []).append(c)
    for r, name in zip(cells[1:], sorted(names)):
        j = names.index(name)
        for k in range(Np):
            conds = []
            for c in kc[SSE[k]]:
                m = re.match(r'^([^*]*)(\**)$', r[c])
                if number(e, m.group(1))[1] and has_sym([V_[k][j]]): continue
                conds.append(And(
                    displayed(e, m.group(1), V_[k][j], 5),
                    stars(V_[k][j], *B[j]) == len(m.group(2))))
            e.check(Or(*conds), "each value is in its row and column")
    best = [x for x in lines if x.startswith('<') and 'SSE=' in x]
    e.check(len(best) == 1, "the best individual is shown")
    parts = best[0].strip('<>').split()
    e.check(abs(float(parts[0].split('=')[1]) - min(SSE)) < 1e-3,
            "the best individual's SSE is shown")
    ks = [k for k in range(Np) if SSE[k] == min(SSE)]
    if len(ks) == 1:
        e.check(len(parts) == Nd + 1, "each parameter is shown once")
        for part, name in zip(parts[1:], sorted(names)):
            j = names.index(name)
            item(e, part, name, V_[ks[0]][j], *B[j])
    e.cover('done')


def refused(e, cfg):
    """
    A different number of bounds than of names.
    """
    pop = e.world.load('ade.population')
    try: pop.ParameterManager(['a', 'b'], bounds(e, 1))
    except ValueError: e.cover('refused')
    else: e.fail("refuses a different number of bounds than of names")


HARNESSES = [
    Harness(scaling, quick=[
        dict(N=N, how=how) for N in (1, 2) for how in ('init', 'setup')],
            thorough=[dict(N=3, how='init')],
            covers=['done'],
            bounds="1-2 parameters (3 thorough) with any bounds within 1e6 "
            "and more than 1e-3 apart"),
    Harness(display, quick=[
        dict(N=1, free=[0], how='plain'), dict(N=2, free=[0, 1], how='plain'),
        dict(N=3, free=[0], how='prelude', fixed=True),
        dict(N=3, free=[1], how='plain', fixed=True),
        dict(N=3, free=[2], how='args', fixed=True)],
            thorough=[
        dict(N=3, free=[0, 1, 2], how='plain', fixed=True),
        dict(N=3, free=[0, 1], how='plain')],
            covers=['stars0', 'stars1', 'stars2'],
            bounds="up to 3 parameters in any order of names, any values; "
            "any bounds for up to 2"),
    Harness(named, quick=[dict()], covers=['done'],
            bounds="3 parameters in any order of names, any values"),
    Harness(column, quick=[
        dict(Np=3, Nd=2, member=0, param=0), dict(Np=3, Nd=2, member=1, param=1),
        dict(Np=4, Nd=3, member=2, param=1)],
            thorough=[
        dict(Np=4, Nd=3, member=m, param=p) for m in range(4)
        for p in range(3)],
            covers=['done'],
            bounds="3-4 members of 2-3 parameters, one value at a time any"),
    Harness(refused, quick=[dict()], covers=['refused'], bounds="none"),
]

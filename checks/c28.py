"""
C28: The log reader shows the entries that matter, as they were logged.
"""
from .common import *


def lgg(e): return e.world.load('ade.scripts.lgg')

def differs(a, b, diff):
    """The condition that a has a relative difference from b."""
    m = If(b < 0, -b, b)*diff
    return Or(a - b > m, b - a > m)

def kept(rows, ratio, diff, most, decide):
    """
    Reference: which of the rows (SSE, values) are to be shown, best last.
    """
    order = sorted(range(len(rows)), key=lambda k: rows[k][0])
    result = order[:1]
    for k in order[1:]:
        SSE, values = rows[k]
        ref = rows[result[-1]]
        if decide(SSE > ratio*rows[order[0]][0]): break
        if decide(differs(SSE, ref[0], diff)) or any(
                decide(differs(x, y, diff)) for x, y in zip(values, ref[1])):
            result.append(k)
    return list(reversed(result[:most]))

def apart(e, rows, ratio, diff):
    """
    Excludes what rounding decides.
    """
    for a in rows:
        for b in rows:
            if a is b: continue
            e.assume(Or(a[0] > b[0]*(1+1e-9), b[0] > a[0]*(1+1e-9)))
            for x, y, lim in [(a[0], b[0], ratio), (a[0], b[0], 1+diff)]:
                e.assume(Or(x > y*lim*(1+1e-9), x < y*lim*(1-1e-9)))
            for x, y in zip(a[1], b[1]):
                e.assume(Or(differs(x, y, diff*(1+1e-6)),
                            Not(differs(x, y, diff*(1-1e-6)))))


def trim(e, cfg):
    """
    Which entries remain.
    """
    N, Nd = cfg['N'], cfg['Nd']
    rm = lgg(e).RowManager(NAMES[:Nd])
    rows = []
    for k in range(N):
        SSE = e.real('SSE', 0.01, 100)
        values = [e.real('v', -10, 10) for _ in range(Nd)]
        for x in values: e.assume(Or(x > 0.01, x < -0.01))
        rows.append((SSE, values))
    kw = {}
    for name in ('maxRatio', 'maxDiff', 'maxRows'):
        if name in cfg: kw[name] = cfg[name]
    ratio, diff = kw.get('maxRatio', 2.0), kw.get('maxDiff', 0.01)
    most = kw.get('maxRows', 40)
    apart(e, rows, ratio, diff)
    for k, (SSE, values) in enumerate(rows):
        v, s = rm.add(SSE)
        for kk, name in rm:
            v[kk] = values[NAMES.index(name)]
            s[kk] = k % 3
    rm.arrays()
    rm.trim(**kw)
    K = kept(rows, ratio, diff, most, bool)
    e.check(len(rm.SSE) == len(K), "as many entries as there should be")
    for n, k in enumerate(K):
        e.check(same(rm.SSE[n], rows[k][0]), "the entries that should be")
        e.check(same_vec(list(rm.values[n]), rows[k][1]),
                "each with its own values")
        e.check(all(int(x) == k % 3 for x in rm.stars[n]),
                "each with its own stars")
    if len(K) == N: e.cover('all')
    elif len(K) == most: e.cover('most')
    else: e.cover('some')


ENTRIES = [
    ("SSE=12.5000 alpha=1.5 b2=-0.25* x_1=3e-07**", 12.5,
     dict(alpha=(1.5, 0), b2=(-0.25, 1), x_1=(3e-7, 2))),
    ("<SSE=10.2500 alpha=1.25** b2=-2.5e+10 x_1=0.5>", 10.25,
     dict(alpha=(1.25, 2), b2=(-2.5e10, 0), x_1=(.5, 0))),
    ("First: SSE=9.8750 alpha=2\nb2=7\nx_1=+0.75*", 9.875,
     dict(alpha=(2., 0), b2=(7., 0), x_1=(.75, 1))),
    ("SSE=19.0000\nalpha=2E3** b2=7E-2 x_1=-8 >", 19.0,
     dict(alpha=(2e3, 2), b2=(0.07, 0), x_1=(-8., 0))),
    ("SSE=1.1E+01 b2=1 x_1=2 alpha=3", 11.0,
     dict(alpha=(3., 0), b2=(1., 0), x_1=(2., 0))),
    ("SSE=15 alpha=0.125 b2=-1 x_1=1e5**", 15.0,
     dict(alpha=(.125, 0), b2=(-1., 0), x_1=(1e5, 2))),
]
NOISE = ["Challenge 12345XX*", "", "Generation 3, F=0.5", "----------"]


def write(e, parts):
    path = scratch('some.log')
    with open(path, 'w') as fh: fh.write("\n".join(parts) + "\n")
    return path

def shown(e, g, order, names, rows):
    """
    Checks that what the grepper has loaded are the rows with the names.
    """
    e.check([name for k, name in g.rm] == names, "the parameters asked for")
    rows = sorted(rows, key=lambda x: -x[0])
    e.check([float(x) for x in g.rm.SSE] == [x[0] for x in rows],
            "every entry, best last")
    for n, (SSE, pd) in enumerate(rows):
        e.check([float(x) for x in g.rm.values[n]] == [
            pd[name][0] for name in names], "the values logged")
        e.check([int(x) for x in g.rm.stars[n]] == [
            pd[name][1] for name in names], "the stars logged")


def entries(e, cfg):
    """
    Entries of a log file in any order with anything in between.
    """
    left = list(ENTRIES)
    parts, rows = [], []
    for n in range(cfg['N']):
        x = left.pop(e.choose(len(left), 'entry'))
        noise = NOISE[e.choose(cfg.get('noise', len(NOISE)), 'noise')]
        # An entry ends with a blank line
        parts.extend([noise, x[0], ""])
        rows.append(x[1:])
    if e.choose(2, 'end'): parts.pop()
    path = write(e, parts)
    asked, names = [
        ([], None), (['b2'], ['b2']), (['*'], ['alpha', 'b2', 'x_1']),
        (['x_1', 'alpha'], ['alpha', 'x_1']), (['?2', 'b*'], ['b2']),
        (['x_1-1', 'none'], ['x_1']), (['b1-3'], ['b2'])][cfg['asked']]
    if names is None:
        best = sorted(rows, key=lambda x: x[0])[:4]
        names = sorted({name for SSE, pd in best for name in pd
                        if pd[name][1]})
        if not names: return
    g = lgg(e).Grepper(path, list(asked))
    g.load()
    shown(e, g, None, names, rows)
    lines = [x for x in g.makeLines() if x.strip()]
    e.check(lines[0].split() == ['SSE'] + names, "the heading has the names")
    lines = lines[2:]
    e.check(len(lines) == len(rows), "a line for each entry")
    for line, (SSE, pd) in zip(lines, sorted(rows, key=lambda x: -x[0])):
        want = ["%.5g" % SSE] + [
            "%.5g" % pd[name][0] + '*'*pd[name][1] for name in names]
        e.check(line.split() == want, "the line shows its values and stars")
    e.cover('done')


def population(e, cfg):
    """
    What a population writes to the log.
    """
    Np, Nd = cfg['Np'], 3
    names = ['b', 'a_2', 'c']
    bounds = [(-1.0, 1.0), (0.0, 5e6), (-4e-5, -1e-5)]
    frac = [0.01, 0.5, 0.97, 0.25, 0.75]
    P = Pop(e, Np, Nd, Evaluator(e), SSE=lambda k: 8.125-0.25*k,
            values=lambda k: [
                lo + frac[(k+n*2+cfg['shift']) % 5]*(hi-lo)
                for n, (lo, hi) in enumerate(bounds)],
            bounds=bounds, plain=False, names=names)
    p = P.p
    for i in p: i.dt = 0.5
    parts, rows = ["Something"], []
    def star(x, n):
        lo, hi = bounds[n]
        u = (x-lo)/(hi-lo)
        return 1 if u < 0.05 else 2 if u > 0.95 else 0
    if cfg['which'] == 'table':
        some = list(p.iSorted)
        parts.append("Final population:\n" + repr(p))
        # The best individual gets its own entry
        some = [(i, 5) for i in some] + [(p.best(), 6)]
    else:
        some = [(i, 6) for i in p]
        for i in p: parts.extend([repr(i), ""])
    for i, digits in some:
        pd = {name: (float("%.*g" % (digits, float(i[n]))), star(i[n], n))
              for n, name in enumerate(names)}
        rows.append((float(i.SSE), pd))
    path = write(e, parts)
    got = list(lgg(e).Grepper(path, ['*']).filerator())
    e.check(len(got) == len(rows), "as many entries as logged")
    got = [(SSE, {name: (float(x), len(y)) for name, (x, y) in pd.items()})
           for SSE, pd in got]
    order = lambda x: (x[0], str(sorted(x[1].items())))
    e.check(sorted(got, key=order) == sorted(rows, key=order),
            "the fitness, values and stars logged")
    e.cover('done')


def ranges(e, cfg):
    """
    Ranges of names.
    """
    rm = lgg(e).RowManager(cfg['given'])
    e.check([name for k, name in rm] == cfg['names'], "the names in the range")
    e.check([k for k, name in rm] == list(range(len(cfg['names']))) and
            len(rm) == len(cfg['names']), "each with its own column")
    e.cover('done')


HARNESSES = [
    Harness(trim, quick=[
        dict(N=1, Nd=1), dict(N=2, Nd=2), dict(N=3, Nd=1),
        dict(N=3, Nd=1, maxRatio=1.5, maxDiff=0.1, maxRows=2),
        dict(N=2, Nd=1, maxRows=1)],
            thorough=[dict(N=3, Nd=1, maxRatio=3, maxDiff=0.3)],
            covers=['all', 'most', 'some'],
            bounds="1-3 entries with any fitness and 1-2 values"),
    Harness(entries, quick=[
        dict(N=3, asked=0, noise=1), dict(N=2, asked=1), dict(N=2, asked=2),
        dict(N=2, asked=3), dict(N=2, asked=4, noise=1),
        dict(N=2, asked=5, noise=1), dict(N=2, asked=6, noise=1),
        dict(N=5, asked=0, noise=1)],
            thorough=[dict(N=3, asked=2), dict(N=3, asked=0)],
            covers=['done'],
            bounds="all orders of up to 5 of 6 entries with 4 kinds of other "
            "lines in between"),
    Harness(population, quick=[
        dict(Np=Np, shift=k, which=which) for k in (0, 2, 4)
        for Np, which in ((3, 'entries'), (4, 'table'), (2, 'table'))],
            covers=['done'], bounds="2-4 individuals of 3 parameters"),
    Harness(ranges, quick=[
        dict(given=['x1-3'], names=['x1', 'x2', 'x3']),
        dict(given=['p', 'xa-c', 'q'], names=['p', 'xa', 'xb', 'xc', 'q']),
        dict(given=['v_9-11'], names=['v_9', 'v_10', 'v_11']),
        dict(given=['x2-2', 'y'], names=['x2', 'y'])],
            covers=['done'], bounds="4 lists of names and ranges"),
]

"""
C13: History queries return exactly the matching records, aligned.
"""
from .hist import *
from . import large

GROUPS = {'in': 'inPop', 'former': 'notInPop', 'never': 'neverInPop'}

def build(e, N, Nd, SSE, groups, names):
    """
    A history with the records.
    """
    w = e.world
    w.quiet()
    mod = w.load('ade.history')
    P = Pop(e, 3, Nd, SSE=lambda k: 1.0, values=lambda k: [0.]*Nd)
    h = mod.History(list(names), N_max=20)
    recs = []
    for k in range(N):
        v = [100.0*(k+1) + j for j in range(Nd)]
        i = P.individual(v, SSE[k])
        d = h.add(i, neverInPop=groups[k] == 'never')
        finished(e, d, "an addition")
        recs.append((SSE[k], v, groups[k]))
        if groups[k] == 'former':
            finished(e, h.notInPop(i), "a removal")
    return h, recs

def check(e, h, recs, names, query, kw, wanted):
    """
    Checks the result of one query.

    @param wanted: The names expected.
    """
    d = h.value_vs_SSE(query, **kw)
    finished(e, d, "the query")
    result = getattr(d, 'result', None)
    if not isinstance(result, (list, tuple)):
        e.fail("the result is a list of arrays")
        return
    e.check(len(result) == 1 + len(wanted), "one array per name plus SSE")
    cols = [list(x) for x in result]
    n = len(cols[0])
    e.check(all(len(c) == n for c in cols), "all arrays have the same length")
    best = recs[0][0]
    for r in recs[1:]: best = If(r[0] < best, r[0], best)
    ratio = kw.get('maxRatio', 1000)
    group = [g for g in GROUPS if kw.get(GROUPS[g])]
    # What's in the result, identified by its SSE column's record
    used = []
    for m in range(n):
        if wanted:
            ID = int(float(cols[1][m]) // 100) - 1
        else:
            ID = [k for k in range(len(recs)) if bool(
                single(cols[0][m], recs[k][0]))][0]
        e.check(0 <= ID < len(recs), "each element is of a record")
        used.append(ID)
        S, v, g = recs[ID]
        e.check(single(cols[0][m], S), "SSE is that of the record")
        for name, c in zip(wanted, cols[1:]):
            e.check(single(c[m], v[names.index(name)]),
                    "each array is of the named parameter, aligned")
        e.check(not group or g == group[0], "only records of the group")
        e.check(le(S, ratio*best), "only records within the maximum ratio")
    e.check(len(set(used)) == len(used), "no record is there twice")
    for a, b in zip(cols[0][:-1], cols[0][1:]):
        e.check(le(a, b), "in order of increasing fitness")
    for k, (S, v, g) in enumerate(recs):
        if k in used or (group and g != group[0]): continue
        e.check(S > ratio*best if has_sym([S, best, ratio]) else
                S > ratio*best*(1-1e-6),
                "all records within the maximum ratio")
        e.cover('beyond')
    if n: e.cover('some')
    else: e.cover('none')


def edge(e, S, ratio):
    """Rounding decides on what's right at the maximum ratio."""
    for a in S:
        for b in S:
            if a is b: continue
            e.assume(Or(a < ratio*b*(1-1e-5), a > ratio*b*(1+1e-5)))


def fitness(e, cfg):
    """
    Any fitness values and maximum ratio.
    """
    N = cfg['N']
    lo = 0 if cfg.get('zero') else 0.5
    S = [e.real('SSE', lo, 1000) for _ in range(N)]
    if cfg.get('zero'): S[e.choose(N, 'zero')] = 0.0
    groups = [('in', 'former', 'never')[e.choose(3, 'group')]
              for _ in range(N)] if cfg['groups'] == 'any' else cfg['groups']
    ratio = e.real('maxRatio', 1, 2000)
    if not cfg.get('zero'): edge(e, S, ratio)
    kw = dict(maxRatio=ratio)
    q = cfg['query']
    if q == 'any': q = [None, 'in', 'former', 'never'][e.choose(4, 'query')]
    if q: kw[GROUPS[q]] = True
    names = ['b', 'a']
    h, recs = build(e, N, 2, S, groups, names)
    check(e, h, recs, names, ['b', 'a'], kw, ['b', 'a'])


QUERIES = [
    # Query and names wanted, of 'b', 'a', 'd', 'c'
    ([], ['a', 'b', 'c', 'd']),
    (['c'], ['c']),
    (['d', 'a'], ['d', 'a']),
    (('a', 'd', 'b'), ['a', 'd', 'b']),
    ([2], ['a', 'b']),
    ([1, 3], ['b', 'c']),
    ([0, 4, 2], ['a', 'c']),
    ((3,), ['a', 'b', 'c']),
]

def naming(e, cfg):
    """
    All kinds of names.
    """
    names = ['b', 'a', 'd', 'c']
    S = [e.real('SSE', 0.5, 1000) for _ in range(2)]
    kw = {}
    if cfg.get('ratio') is None:
        # With the default ratio, the others are far worse than the best
        # or not
        edge(e, S, 1000)
        e.assume(And(S[0] < 900*S[1], S[1] < 900*S[0]))
    else: kw['maxRatio'] = cfg['ratio']
    query, wanted = QUERIES[e.choose(len(QUERIES), 'query')]
    h, recs = build(e, 2, 4, S, ['in', 'former'], names)
    check(e, h, recs, names, query, kw, wanted)


def default(e, cfg):
    """
    The default maximum ratio is 1000.
    """
    S = [e.real('SSE', 0.001, 1e6) for _ in range(2)]
    edge(e, S, 1000)
    h, recs = build(e, 2, 1, S, ['in', 'never'], ['x'])
    check(e, h, recs, ['x'], [], {}, ['x'])


def direct(e, cfg):
    """
    Columns and names of the analysis object.
    """
    w = e.world
    w.quiet()
    mod = w.load('ade.history')
    names = ['b', 'a', 'd', 'c']
    X = w.np.array([[1.0, 2, 3, 4, 5], [6, 7, 8, 9, 10]])
    a = mod.Analysis(names, X, [0, 1])
    for k, name in enumerate(names):
        e.check(a.k2name(a.name2k(name)) == name, "names and columns agree")
        e.check(float(X[0, a.name2k(name)]) == float(X[0, k+1]),
                "the column is that of the name")
    for query, wanted in QUERIES:
        e.check(list(a.args2names(query)) == wanted,
                "names are selected as asked for")
    e.cover('done')


def evolving(e, cfg):
    """
    A query sees what's there at the time of its turn.
    """
    H = Hist(e, 4, Nd=1, SSE=lambda k: [5.0, 2.0, 8.0, 2.5, 13.0, 1.0][k])
    ds = []
    for k in range(cfg['N']):
        op = ('pop', 'never', 'remove')[e.choose(3, 'op')]
        members = [x for x in H.model if H.model[x] == 'in']
        if op == 'remove':
            if not members: continue
            H.h.notInPop(H.records[members[0]][0])
            H.model[members[0]] = 'former'
        else:
            ID, i = H.individual()
            H.h.add(i, neverInPop=op == 'never')
            H.model[ID] = 'never' if op == 'never' else 'in'
        q = e.choose(3, 'query')
        g = ('in', 'former', 'never')[q]
        d = H.h.value_vs_SSE([], **{GROUPS[g]: True})
        ds.append((d, sorted(x for x in H.model if H.model[x] == g)))
    settle(e)
    for d, want in ds:
        finished(e, d, "each query")
        got = sorted(float(x) for x in list(d.result[1]))
        e.check(got == want, "the query has what was there")
        e.cover('some' if got else 'none')


def turnover(e, cfg):
    """
    Groups of records in a history that is full.
    """
    H = Hist(e, cfg['N_max'], Nd=1,
             SSE=lambda k: [5.0, 2.0, 8.0, 2.5, 13.0, 1.0, 21.0][k])
    for k in range(cfg['N']):
        op = ('pop', 'never', 'remove', 'purge')[e.choose(4, 'op')]
        members = [x for x in H.model if H.model[x] == 'in']
        if op == 'purge': H.purge()
        elif op != 'remove': H.add(never=op == 'never')
        elif members: H.remove(members[e.choose(len(members), 'which')])
        else: continue
        H.checkGroups()
    H.checkContent()
    e.cover('done')


HARNESSES = [
    Harness(fitness, quick=[
        dict(N=2, groups='any', query='any'),
        dict(N=3, groups=['in', 'former', 'never'], query='any'),
        dict(N=3, groups=['never', 'in', 'in'], query='in'),
        dict(N=3, groups=['in', 'former', 'former'], query='former'),
        dict(N=2, groups='any', query='any', zero=True)],
            thorough=[
        dict(N=3, groups='any', query='any'),
        dict(N=4, groups=['in', 'never', 'former', 'never'], query='any')],
            covers=['some', 'none', 'beyond'],
            bounds="2-3 records (4 thorough) with any fitness, any ratio "
            "from 1 to 2000"),
    Harness(naming, quick=[dict(), dict(ratio=1e6)], covers=['some'],
            bounds="4 parameters, 8 kinds of selection"),
    Harness(default, quick=[dict()], covers=['some', 'beyond'],
            bounds="2 records with any fitness"),
    Harness(direct, quick=[dict()], covers=['done'], bounds="4 parameters"),
    Harness(turnover, quick=[dict(N_max=2, N=4), dict(N_max=3, N=4)],
            thorough=[dict(N_max=2, N=5), dict(N_max=3, N=6)],
            covers=['done', 'bumped'],
            bounds="4 operations (6 thorough) with room for 2-3 records"),
    Harness(evolving, quick=[dict(N=2), dict(N=3)], thorough=[dict(N=4)],
            covers=['some', 'none'],
            bounds="3 operations (4 thorough), each followed by a query"),
    Harness(large.recorded, quick=[
        dict(N=2, N_max=200, sym=33)], thorough=[
        dict(N=4, N_max=60, seed=5)], covers=['done', 'room'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

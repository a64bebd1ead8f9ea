"""
C24: The bumped record is the first of the closest expendable pair.
"""
from .hist import *

def wait(e, d, what):
    for _ in range(60):
        if isDone(d) or not e.world.reactor.step(): break
    finished(e, d, what)
    return getattr(d, 'result', None)

def mean(xs):
    return sum(xs[1:], xs[0]) / len(xs)

def variance(xs):
    m = mean(xs)
    return mean([(x-m)*(x-m) for x in xs])

def differences(rows):
    """
    Difference of each pair of rows, keyed by the pair.
    """
    ks = sorted(rows)
    Nc = len(rows[ks[0]])
    S = [variance([rows[k][c] for k in ks]) + 1e-20 for c in range(Nc)]
    out = {}
    for n, a in enumerate(ks):
        for b in ks[n+1:]:
            D = 0
            for c in range(Nc):
                d = rows[a][c] - rows[b][c]
                if not has_sym(d) and d == 0: continue
                D = D + d*d / S[c]
            out[(a, b)] = D / mean([rows[a][0], rows[b][0]])
    return out

def isClosest(kr, rows, never):
    """
    The condition that row kr is the first of the closest pair. One with
    a first record that never was a member is favored over others, and
    may be so by much.
    """
    if len(rows) == 1: return kr in rows
    D = differences(rows)
    mine = []
    for P in D:
        if kr != P[0]: continue
        conds = []
        for Q in D:
            if Q == P: continue
            if P[0] in never and Q[0] not in never: continue
            # There's a penalty of 0.8% at least
            favored = Q[0] in never and P[0] not in never
            conds.append(le(D[P], D[Q]*(0.996 if favored else 1 + 1e-6)))
        mine.append(And(*conds))
    return Or(*mine)

def apart(e, rows):
    """Differences don't get mixed up due to rounding."""
    D = list(differences(rows).values())
    for n, a in enumerate(D):
        for b in D[n+1:]:
            if has_sym([a, b]): continue
            e.assume(abs(a-b) > 1e-6*max(abs(a), abs(b)))


def chosen(e, cfg):
    """
    The finder by itself.
    """
    w = e.world
    w.quiet()
    mod = w.load('ade.history')
    Nc, N = cfg['Nc'], cfg['N']
    cpf = mod.ClosestPairFinder(cfg.get('Nr', N+2), Nc)
    rows, never = {}, set()
    free = [tuple(x) for x in cfg['free']]
    SSE = [5.0, 2.0, 8.0, 2.5, 13.0]
    # Which rows are in use
    for k in range(N):
        row = []
        for c in range(Nc):
            if (k, c) in free: x = e.real('X', 0.5 if c == 0 else -10, 20)
            elif c == 0: x = SSE[k]
            elif k == cfg.get('outlier'): x = 1000.0
            else: x = [0.5, 3.0, -2.0, 1.25, 7.0][(2*k + c) % 5]
            row.append(x)
        kr = cfg.get('rows', list(range(N)))[k]
        nv = cfg['never'][k] if cfg.get('never') else \
            bool(e.choose(2, 'never'))
        cpf.setRow(kr, w.np.array(row), neverInPop=nv)
        rows[kr] = row
        if nv: never.add(kr)
    if cfg.get('first'):
        # Something was found before, for other rows
        wait(e, cpf(), "finding the closest pair")
        kr = cfg.get('gone', 0)
        if kr in rows:
            cpf.clearRow(kr)
            del rows[kr]
            never.discard(kr)
        if cfg.get('back'):
            row = [[2.25, 4.5, 9.75][e.choose(3, 'X')]] + [
                [1.0, -1.5][e.choose(2, 'X')]]*(Nc-1)
            if cfg['back'] == 'SSE': row[0] = e.real('X', 0.5, 20)
            if cfg['back'] == 'value': row[1] = e.real('X', -10, 20)
            cpf.setRow(kr, w.np.array(row))
            rows[kr] = row
    if cfg.get('extra'):
        # One that's cleared again doesn't matter
        cpf.setRow(N+1, w.np.array([0.6]*Nc), neverInPop=True)
        cpf.clearRow(N+1)
    if len(rows) > 1: apart(e, rows)
    kr = wait(e, cpf(), "finding the closest pair")
    if not rows:
        e.check(kr is None, "none if there are none")
        e.cover('none')
        return
    e.check(kr is not None and int(kr) in rows, "it's an active row")
    e.check(isClosest(int(kr), rows, never), "it's the first of the closest pair")
    e.cover('chosen %d' % len(rows))


def each(e, cfg):
    """
    Any of the pairs may be the closest one.
    """
    w = e.world
    w.quiet()
    N = cfg['N']
    cpf = w.load('ade.history').ClosestPairFinder(N, 2)
    a = e.choose(N, 'a')
    b = e.choose(N, 'b')
    e.assume(a < b)
    eps = e.real('eps', 0.001, 0.01)
    rows = {k: [3.0 + 2*k, float((k*k) % 7)] for k in range(N)}
    rows[b] = [rows[a][0] + eps, rows[a][1]]
    for k in rows: cpf.setRow(k, w.np.array(rows[k]))
    # Draws, if any, of the first and last row only
    def draw(K, size):
        M = np.zeros(size, dtype=int)
        M[:, 1] = N-1
        return M
    w.np.random.choice = draw
    # All pairs get looked at if there are fewer than the limit
    kw = dict(Np=N*(N-1)//2 + 1) if cfg.get('limit') else {}
    kr = wait(e, cpf(**kw), "finding the closest pair")
    e.check(kr is not None and int(kr) == a,
            "it's the first of the closest pair")
    e.cover('%d,%d' % (a, b))


def refused(e, cfg):
    """
    Infinite or NaN values.
    """
    mod = e.world.load('ade.history')
    cpf = mod.ClosestPairFinder(3, 2)
    x = e.xreal('x', nan=True, pinf=True, ninf=True)
    where = e.choose(2, 'where')
    row = [1.0, 1.0]
    row[where] = x
    ok = isfinite(x)
    try:
        cpf.setRow(0, e.world.np.array(row))
    except ValueError:
        e.check(Not(ok), "finite values are accepted")
        e.cover('refused')
        kr = wait(e, cpf(), "finding the closest pair")
        e.check(kr is None, "none if there are none")
    else:
        e.check(ok, "other than finite values are refused")
        e.cover('accepted')
        kr = wait(e, cpf(), "finding the closest pair")
        e.check(kr == 0, "the only one")


def bumped(e, cfg):
    """
    A full history.
    """
    N = cfg['N']
    SSE = list(cfg['SSE'])
    free = cfg.get('free')
    H = Hist(e, N, Nd=1, SSE=lambda k: SSE[k])
    if free is not None: SSE[free] = e.real('SSE', 0.5, 20)
    rows, never = {}, set()
    for k, g in enumerate(cfg['groups']):
        kr = H.add(never=g == 'never')
        if g == 'former': H.remove(float(k+1))
        if g != 'in': rows[int(kr)] = [SSE[k], float(k+1)]
        if g == 'never': never.add(int(kr))
    if cfg.get('replace'):
        # One expendable record is bumped first
        before = H.IDs()
        kr = H.add(never=True)
        gone = [x for x in before if x not in H.IDs()][0]
        e.check(int(kr) in rows and rows[int(kr)][1] == gone,
                "the new record is in place of the bumped one")
        rows[int(kr)] = [H.records[float(H.n)][1], float(H.n)]
        never.add(int(kr))
    if len(rows) > 1: apart(e, rows)
    if cfg.get('load'):
        H.P.p.history = H.h
        H.P.p.save(scratch('saved.dat'))
        H.h = H.P.pop.Population.load(scratch('saved.dat')).history
    before = H.IDs()
    H.add()
    gone = [x for x in before if x not in H.IDs()]
    if not rows:
        e.check(gone == [], "none is given up if none is expendable")
        e.cover('none')
        return
    kr = [k for k in rows if rows[k][1] in gone]
    e.check(len(gone) == 1 and len(kr) == 1, "an expendable one is given up")
    e.check(isClosest(kr[0], rows, never), "it's the first of the closest pair")
    e.cover('chosen %d' % len(rows))
    H.checkModel()


def some(e, cfg):
    """
    Not all pairs can be looked at.
    """
    w = e.world
    w.quiet()
    mod = w.load('ade.history')
    cpf = mod.ClosestPairFinder(8, 2)
    rows = {}
    for k in cfg['rows']:
        rows[k] = [1.0 + k, 0.3*(k % 3)]
        cpf.setRow(k, w.np.array(rows[k]), neverInPop=bool(e.choose(2, 'never')))
    n = [0]
    ks = sorted(rows)
    def draw(a, size):
        # Arbitrary draws, but not forever useless ones
        n[0] += 1
        M = np.zeros(size, dtype=int)
        for k in range(size[0]):
            M[k, 0], M[k, 1] = ks[0], ks[0]
        if n[0] == 1 and e.choose(2, 'useless'): return M
        for k in range(min(2, size[0])):
            M[k, 0] = ks[e.choose(len(ks), 'k0')]
            M[k, 1] = ks[e.choose(len(ks), 'k1')]
        M[-1, 0], M[-1, 1] = ks[0], ks[-1]
        for k in range(2, size[0]): M[k] = M[-1]
        return M
    w.np.random.choice = draw
    kr = wait(e, cpf(Np=cfg['Np']), "finding a close pair")
    e.check(kr is not None and int(kr) in rows, "it's an active row")
    e.cover('sampled' if n[0] else 'all')


HARNESSES = [
    Harness(chosen, quick=[
        dict(N=0, Nc=2, free=[]), dict(N=1, Nc=2, free=[[0, 0]]),
        dict(N=2, Nc=2, free=[[0, 0], [1, 1]]),
        dict(N=3, Nc=2, free=[]), dict(N=3, Nc=2, free=[[1, 1]]),
        dict(N=4, Nc=3, free=[]),
        dict(N=3, Nc=2, free=[], rows=[3, 0, 2], extra=True),
        dict(N=4, Nc=2, free=[], first=True, gone=1),
        dict(N=3, Nc=2, free=[], first=True, gone=1, back=True,
             never=[0, 0, 0]),
        dict(N=3, Nc=2, free=[[0, 0]], never=[0, 0, 0]),
        dict(N=3, Nc=2, free=[[1, 0]], never=[0, 0, 0]),
        dict(N=3, Nc=2, free=[[2, 0]], never=[0, 1, 0]),
        dict(N=3, Nc=2, free=[], first=True, gone=2, back='value',
             never=[0, 0, 0]),
        dict(N=2, Nc=2, free=[], first=True, gone=2, back='value',
             never=[0, 0]),
        dict(N=4, Nc=2, free=[[1, 1]], first=True, gone=2, outlier=2,
             never=[0, 0, 0, 0])],
            thorough=[
        dict(N=3, Nc=2, free=[[2, 0]]),
        dict(N=3, Nc=1, free=[[0, 0], [2, 0]], never=[0, 0, 0]),
        dict(N=3, Nc=2, free=[[1, 1], [0, 1]], never=[0, 0, 0]),
        dict(N=4, Nc=2, free=[[2, 1]]),
        dict(N=4, Nc=2, free=[[0, 0]]),
        dict(N=3, Nc=2, free=[], first=True, gone=1, back='SSE',
             never=[0, 0, 0]),
        dict(N=5, Nc=3, free=[])],
            covers=['none', 'chosen 1', 'chosen 2', 'chosen 3', 'chosen 4'],
            bounds="up to 4 active rows (5 thorough), any membership flags, "
            "one entry at a time any value (two thorough)"),
    Harness(each, quick=[dict(N=3), dict(N=5), dict(N=4, limit=1)],
            thorough=[dict(N=6, limit=1), dict(N=7)],
            covers=['0,1', '1,2', '0,4', '3,4'],
            bounds="3-5 rows (6-7 thorough), each pair in turn the closest"),
    Harness(refused, quick=[dict()], covers=['refused', 'accepted'],
            bounds="one value, any"),
    Harness(bumped, quick=[
        dict(N=2, SSE=[5., 2., 8.], groups=['in', 'in']),
        dict(N=2, SSE=[5., 2., 8.], groups=['in', 'never']),
        dict(N=4, SSE=[5., 2., 8., 3., 4.],
             groups=['former', 'in', 'former', 'former']),
        dict(N=4, SSE=[5., 2., 8., 3., 4.], free=0,
             groups=['former', 'in', 'former', 'former']),
        dict(N=4, SSE=[5., 2., 8., 3., 4.], load=True, free=0,
             groups=['former', 'in', 'never', 'former']),
        dict(N=4, SSE=[5., 2., 8., 3., 4., 7.], replace=True,
             groups=['never', 'former', 'never', 'in'])],
            thorough=[
        dict(N=4, SSE=[5., 2., 8., 3., 4.], free=2,
             groups=['never', 'in', 'never', 'never']),
        dict(N=4, SSE=[5., 2., 8., 3., 4.], free=1,
             groups=['former', 'former', 'never', 'former']),
        dict(N=5, SSE=[5., 2., 8., 3., 4., 7., 9.], replace=True,
             groups=['never', 'former', 'never', 'in', 'former'])],
            covers=['none', 'chosen 1', 'chosen 3'],
            bounds="a full history of 2-5 records, one fitness any"),
    Harness(some, quick=[
        dict(rows=[0, 3], Np=1), dict(rows=[1, 2, 5], Np=2)],
            covers=['sampled'],
            bounds="2-3 rows, 1-2 pairs sampled"),
]

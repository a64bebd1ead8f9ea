"""
C30: Plots and correlations are of the recorded values, properly labelled.
"""
import operator

from .common import *

NAMES4 = ['c', 'a', 'd', 'b']


class Axes(object):
    def __init__(self, sub): self.sub = sub
    def plot(self, X, Y, *args, **kw):
        self.sub['curves'].append((list(X), list(Y)))
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *args, **kw: None


class PlotterStub(object):
    """
    Records what gets plotted.
    """
    DPI = 100
    figures = None

    @staticmethod
    def parseArgs(*args, **kw):
        N = operator.index(args[0])
        Nc = kw.get('Nc', 1 if N < 4 else 2)
        return None, None, N, Nc, -(-N//Nc)

    def __init__(self, *args, **kw):
        # As the real one does
        self.N = operator.index(args[0])
        self.kw = kw
        self.subs = []
        self.next = {}
        self.shown = 0
        self.figures.append(self)

    def __enter__(self): return self
    def __exit__(self, *args): pass
    def set_title(self, x, *args): self.next['title'] = x
    def set_xlabel(self, x): self.next['xlabel'] = x
    def set_ylabel(self, x): self.next['ylabel'] = x
    def add_textBox(self, where, text): self.next['text'] = text
    def show(self, *args, **kw): self.shown += 1
    def showAll(self, *args, **kw): self.shown += 1

    def __call__(self, X, Y, *args, **kw):
        sub = dict(self.next, curves=[(list(X), list(Y))])
        self.subs.append(sub)
        return Axes(sub)

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *args, **kw: None


def setup(e):
    class Stub(PlotterStub): figures = []
    e.world.overrides[('yampex.plot', 'Plotter')] = Stub
    e.world.overrides[('yampex', 'Plotter')] = Stub
    e.world.quiet()
    return e.world.load('ade.history').Analysis, Stub


class Data(object):
    """
    Records in a scrambled order, with their groups.
    """
    def __init__(self, e, cfg, values=None):
        self.e = e
        N, Nd = cfg['N'], cfg['Nd']
        self.names = NAMES4[:Nd] + [
            'p%d' % (k*7 % 11) for k in range(4, Nd)]
        Analysis, self.Plotter = setup(e)
        self.K = sorted(range(N+2), key=lambda k: 7*k % 11)
        while len(self.K) > N: self.K.pop(1)
        rows = [[9.0+k]*(Nd+1) for k in range(N+2)]
        if values is None:
            SSE = [e.real('SSE', 1, 10) for _ in range(N)]
            for a, b in zip(SSE, SSE[1:]): e.assume(b - a > 1e-3)
        else: SSE = [1.0+k for k in range(N)]
        self.rows = []
        for n, k in enumerate(self.K):
            if values is None:
                v = [e.real('v', -10, 10) for _ in range(Nd)]
            else: v = [values(n, c) for c in range(Nd)]
            rows[k] = [SSE[n]] + v
            self.rows.append((SSE[n], v))
        self.X = e.world.np.array(rows)
        self.groups = [
            cfg.get('groups', ['p', 'n', 'f'])[n % len(
                cfg.get('groups', 'pnf'))] for n in range(N)]
        pick = lambda g: {k for k, x in zip(self.K, self.groups) if x == g}
        self.a = Analysis(
            list(self.names), self.X, list(self.K), pick('p'), pick('n'),
            **cfg.get('kw', {}))

    def column(self, name, group=None):
        """(SSEs, values) of a parameter, for a group."""
        c = self.names.index(name)
        rows = [x for x, g in zip(self.rows, self.groups)
                if group is None or g == group]
        return [x[0] for x in rows], [x[1][c] for x in rows]


def vs(e, cfg):
    """
    Values versus SSE.
    """
    D = Data(e, cfg)
    asked = cfg['asked']
    names = sorted(D.names) if not asked else list(asked)
    kw = dict(cfg.get('pkw', {}))
    if cfg.get('sp'): kw['sp'] = D.Plotter(len(names))
    D.a.plot(list(asked), **kw)
    figs = D.Plotter.figures
    e.check(all(len(x.subs) == x.N for x in figs),
            "each figure has as many subplots as it has room for")
    subs = sum([x.subs for x in figs], [])
    e.check([x['title'] for x in subs] == names,
            "one subplot for each parameter, in order")
    groups = 'p' if kw.get('inPop') else 'pfn'
    if cfg.get('sp'): e.check(len(figs) == 1, "no other figure is plotted")
    else: e.check(sum(x.shown for x in figs) == 1, "the plots are shown")
    for x in subs:
        e.check(len(x['curves']) == len(groups), "a curve for each group")
        for g in groups:
            S, V = D.column(x['title'], g)
            found = [And(same_vec(X, S), same_vec(Y, V))
                     for X, Y in x['curves'] if len(X) == len(Y) == len(S)]
            e.check(Or(*found) if found else False,
                    "the records of each group, with fitness and value")
    e.cover('done')


def corr(x, y):
    mx, my = sum(x)/len(x), sum(y)/len(y)
    a = sum((p-mx)*(q-my) for p, q in zip(x, y))
    b = sum((p-mx)**2 for p in x)*sum((q-my)**2 for q in y)
    return a / math.sqrt(b)

def fit(S, x, y):
    """Weighted best fit line."""
    W = [(2*min(S)/(s+min(S)))**2 for s in S]
    sw = sum(W)
    mx = sum(w*a for w, a in zip(W, x))/sw
    my = sum(w*b for w, b in zip(W, y))/sw
    m = sum(w*(a-mx)*(b-my) for w, a, b in zip(W, x, y)) / sum(
        w*(a-mx)**2 for w, a in zip(W, x))
    return m, my - m*mx

def value(e, cfg):
    """
    Values where the way each parameter follows the first one differs.
    """
    N = cfg['N']
    kinds = [e.choose(3, 'kind') for _ in range(cfg['Nd'])]
    def f(n, c):
        x = [0.0, 1.0, 3.0, 4.5, 5.0, 7.0, 7.5][n]
        noise = [0.3, -0.2, 0.5, -0.7, 0.1, 0.4, -0.1][(n*(c+2)+c) % 7]
        return [x + (c+1)*noise, -2*x + 3*noise, 5*noise*(c+1)][kinds[c]]
    return f

def close(a, b): return abs(float(a) - b) <= 1e-9*(1 + abs(b))


def correlated(e, cfg):
    """
    Correlation coefficients and their order.
    """
    D = Data(e, cfg, value(e, cfg))
    Nd = cfg['Nd']
    got = [(int(a), int(b), float(R)) for a, b, R in D.a.correlator()]
    e.check(sorted((a, b) for a, b, R in got) == [
        (a, b) for a in range(1, Nd+1) for b in range(a+1, Nd+1)],
            "every pair of parameters exactly once")
    for a, b, R in got:
        x, y = [D.column(D.names[k-1])[1] for k in (a, b)]
        e.check(close(R, corr(x, y)), "the correlation is right")
        e.check(D.a.k2name(a) == D.names[a-1] and
                D.a.name2k(D.names[a-1]) == a, "columns and names agree")
    mags = [abs(R) for a, b, R in got]
    e.check(all(x >= y - 1e-12 for x, y in zip(mags, mags[1:])),
            "most correlated first")
    # As plotted
    name = cfg.get('name')
    kw = dict(cfg.get('pkw', {}))
    if name: kw['name'] = name
    D.a.plotCorrelated(**kw)
    N = kw.get('N', 4)
    want = [(D.names[a-1], D.names[b-1], R) for a, b, R in got]
    if name: want = [x for x in want if name in x[:2]]
    want = want[:N]
    e.check(len(D.Plotter.figures) == 1, "one figure")
    subs = D.Plotter.figures[0].subs
    e.check(len(subs) == len(want) <= D.Plotter.figures[0].N,
            "the number of pairs asked for, if there are as many")
    for sub, (n1, n2, R) in zip(subs, want):
        e.check((sub['xlabel'], sub['ylabel']) == (n1, n2),
                "the most correlated ones, in order")
        e.check(close(sub['text'][2:], round(R, 3)), "with their correlation")
    if name: e.cover('named')
    e.cover('done')


def xy(e, cfg):
    """
    One parameter versus another.
    """
    D = Data(e, cfg, value(e, cfg))
    p1, p2 = cfg['which']
    n1, n2 = [D.names[x-1] if isinstance(x, int) else x for x in (p1, p2)]
    kw = {}
    if cfg.get('fraction'): kw['useFraction'] = True
    r = D.a.plotXY(p1, p2, **kw)
    e.check(r[:2] == (n1, n2), "the names of the parameters")
    S, x = D.column(n1)
    y = D.column(n2)[1]
    # The best half of them
    half = cfg['N']//2 + 1
    m, b = fit(S[:half], x[:half], y[:half])
    e.check(close(r[2], m) and close(r[3], b), "the best fit line")
    sub = D.Plotter.figures[0].subs[0]
    e.check((sub['xlabel'], sub['ylabel']) == (n1, n2), "labelled as such")
    X, Y = sub['curves'][0]
    e.check(close(min(X), min(x[:half])) and close(max(X), max(x[:half])) and
            all(close(q, m*p+b) for p, q in zip(X, Y)), "the line is drawn")
    points = {(float(p), float(q)) for X, Y in sub['curves'][1:]
              for p, q in zip(X, Y)}
    known = set(zip(x, y))
    e.check(points <= known, "only recorded pairs are drawn")
    e.check(set(list(zip(x, y))[:half]) <= points, "the best ones are")
    e.cover('done')


def portions(e, cfg):
    """
    Records by portion, or by fraction of the range, of SSE.
    """
    D = Data(e, cfg)
    N = cfg['N']
    f1, f2 = e.real('f1', 0, 1), e.real('f2', 0, 1)
    e.assume(f2 >= f1)
    S = [x[0] for x in D.rows]
    lim = [S[0] + f*(S[-1]-S[0]) for f in (f1, f2)]
    # Decided by rounding otherwise
    for n, s in enumerate(S):
        for x in lim:
            away = Or(s - x > 1e-6, x - s > 1e-6)
            e.assume(Or(away, f1 == 0) if n == 0 and x is lim[0] else away)
    K = [int(k) for k in D.a.Kf12(f1, f2)]
    want = []
    for k, s in zip(D.K, S):
        if bool(And(s >= lim[0], s < lim[1])): want.append(k)
    e.check(K == want, "exactly the records within the range, in order")
    e.cover('some' if want else 'none')


def limited(e, cfg):
    """
    Values versus SSE, of records not much worse than the best one.
    """
    D = Data(e, cfg)
    ratio, group = cfg['ratio'], cfg.get('group')
    for s, v in D.rows:
        x = s - ratio*D.rows[0][0]
        e.assume(Or(x > 1e-6, x < -1e-6))
    kw = {'maxRatio': ratio}
    if group: kw[dict(p='inPop', f='notInPop', n='neverInPop')[group]] = True
    got = D.a.value_vs_SSE(list(cfg['asked']), **kw)
    want = [(s, v) for (s, v), g in zip(D.rows, D.groups)
            if group in (None, g) and bool(s < ratio*D.rows[0][0])]
    e.check(len(got) == len(cfg['asked']) + 1, "fitnesses and values")
    e.check(And(*[len(x) == len(want) for x in got]), "those within the ratio")
    e.check(same_vec(got[0], [s for s, v in want]), "their fitnesses")
    for x, name in zip(got[1:], cfg['asked']):
        c = D.names.index(name)
        e.check(same_vec(x, [v[c] for s, v in want]), "their values")
    e.cover('all' if len(want) == cfg['N'] else 'fewer')


def files(e, cfg):
    """
    Names of files.
    """
    D = Data(e, dict(cfg, kw=dict(baseFilePath=cfg['path'])))
    seen = []
    for n in range(3):
        if n == cfg.get('again'): D.a.filePath(cfg['path2'])
        path, w, h = D.a.filePath()
        e.check(path not in seen, "no file is overwritten")
        seen.append(path)
    for path, want in zip(seen, cfg['want']):
        e.check(path == want, "files are numbered from the second one on")
    e.cover('done')


HARNESSES = [
    Harness(vs, quick=[
        dict(N=3, Nd=2, asked=[]), dict(N=5, Nd=3, asked=[]),
        dict(N=4, Nd=3, asked=['d', 'c']), dict(N=4, Nd=2, asked=['a']),
        dict(N=3, Nd=2, asked=[], pkw=dict(inPop=True)),
        dict(N=2, Nd=2, asked=[], groups=['p']),
        dict(N=4, Nd=2, asked=[], sp=True),
        dict(N=4, Nd=3, asked=['d', 'a'], sp=True, pkw=dict(inPop=True)),
        dict(N=4, Nd=4, asked=[], pkw=dict(semilog=True)),
        dict(N=3, Nd=7, asked=[]), dict(N=3, Nd=8, asked=[]),
        dict(N=3, Nd=9, asked=[]), dict(N=3, Nd=10, asked=[]),
        dict(N=3, Nd=11, asked=[])],
            covers=['done'], bounds="2-5 records with any fitness and values "
            "of 2-11 parameters"),
    Harness(correlated, quick=[
        dict(N=5, Nd=2), dict(N=5, Nd=3), dict(N=5, Nd=4),
        dict(N=5, Nd=3, name='a'), dict(N=5, Nd=4, name='b'),
        dict(N=6, Nd=4, pkw=dict(N=2)), dict(N=5, Nd=3, name='c')],
            thorough=[dict(N=7, Nd=4, name='d')],
            covers=['named', 'done'], bounds="5-6 records, 3 kinds of relation "
            "of each of 2-4 parameters"),
    Harness(xy, quick=[
        dict(N=6, Nd=2, which=['c', 'a']), dict(N=7, Nd=3, which=[3, 'c']),
        dict(N=7, Nd=3, which=['a', 1], fraction=True)],
            covers=['done'], bounds="6-7 records of 2-3 parameters"),
    Harness(portions, quick=[dict(N=3, Nd=1), dict(N=4, Nd=1)],
            thorough=[dict(N=6, Nd=1)], covers=['some', 'none'],
            bounds="3-4 records (6 thorough), any range"),
    Harness(limited, quick=[
        dict(N=3, Nd=2, asked=['a', 'c'], ratio=3),
        dict(N=5, Nd=2, asked=['a'], ratio=2, group='p'),
        dict(N=5, Nd=2, asked=['c', 'a'], ratio=2, group='f'),
        dict(N=5, Nd=2, asked=['a'], ratio=4, group='n')],
            covers=['all', 'fewer'], bounds="3-5 records"),
    Harness(files, quick=[
        dict(N=2, Nd=1, path='/tmp/x/plot.png', want=[
            '/tmp/x/plot.png', '/tmp/x/plot-2.png', '/tmp/x/plot-3.png']),
        dict(N=2, Nd=1, path='a.b.png', want=[
            'a.b.png', 'a.b-2.png', 'a.b-3.png']),
        dict(N=2, Nd=1, path='p.png', again=2, path2='q.png', want=[
            'p.png', 'p-2.png', 'q.png'])],
            covers=['done'], bounds="3 files"),
]

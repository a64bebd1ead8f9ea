"""
C17: Member sampling is distinct, excludes what it must, and covers all.
"""
from .common import *


def makePop(e, cfg):
    Np = cfg['Np']
    order = cfg.get('order')
    if order is None: SSE = lambda k: e.xreal('S%d' % k, lo=0, nan=False)
    else: SSE = lambda k: 10.0 + order[k]
    return Pop(e, Np, 1, SSE=SSE, values=lambda k: [0.1*k])


def sample(e, cfg):
    """
    Samples of several positions.
    """
    P = makePop(e, cfg)
    p = P.p
    Np, N = cfg['Np'], cfg['N']
    exclude = cfg.get('exclude')
    if exclude is None:
        exclude = []
        for _ in range(cfg['nx']):
            exclude.append(e.choose(Np, 'exclude'))
    kw = {}
    if 'rb' in cfg: kw['randomBase'] = cfg['rb']
    before = P.snapshot()
    if cfg.get('draws'):
        # Not forever the same position
        tri = e.world.random.triangular
        left = [cfg['draws']]
        def triangular(*args):
            left[0] -= 1
            if left[0] < 0: e.assume(False)
            return tri(*args)
        e.world.random.__dict__['triangular'] = triangular
    r = p.sample(N, *exclude, **kw)
    if N == 1: r = [r]
    r = [int(k) for k in r]
    e.check(len(r) == N, "the requested number of positions")
    e.check(all(0 <= k < Np for k in r), "the positions are valid")
    e.check(len(set(r)) == N, "the positions are distinct")
    e.check(not set(r) & set(exclude), "no position is an excluded one")
    e.check(all(a[0] is b[0] for a, b in zip(before, P.snapshot())),
            "sampling changes nothing")
    if cfg.get('exclude') is not None:
        for k in r: e.cover('%d' % k)
        e.cover('set:%s' % sorted(r))
    e.cover('done')

def allPossible(cfg, seen):
    out = []
    if cfg.get('exclude') is None: return out
    import itertools
    left = [k for k in range(cfg['Np']) if k not in cfg['exclude']]
    for k in left:
        if str(k) not in seen: out.append("position %d is possible" % k)
    if cfg['N'] > 1:
        for c in itertools.combinations(left, cfg['N']):
            if 'set:%s' % sorted(c) not in seen:
                out.append("positions %s are possible together" % (c,))
    return out


def base(e, cfg):
    """
    Sampling of one base individual.
    """
    P = makePop(e, cfg)
    p = P.p
    Np = cfg['Np']
    kx = cfg.get('kx')
    if kx is None: kx = e.choose(Np, 'kx')
    rb = cfg['rb']
    if rb == 'sym':
        rb = e.real('rb', 0, 1, lo_open=True, hi_open=True)
    k = p.sample(1, kx, randomBase=rb)
    k = int(k)
    e.check(0 <= k < Np, "the position is valid")
    e.check(k != kx, "the position isn't the excluded one")
    if not cfg['rb']:
        e.check(And(*[P.SSE[k] <= P.SSE[j] for j in range(Np) if j != kx]),
                "with zero randomness, it's the best one not excluded")
    e.cover('done')


def between(e, cfg):
    """
    What is possible at a lower and at a higher randomness.
    """
    P = makePop(e, cfg)
    p = P.p
    kx = cfg['kx']
    n = e.choose(len(cfg['rbs']), 'which')
    k = int(p.sample(1, kx, randomBase=cfg['rbs'][n]))
    e.cover('%d@%d' % (k, n))
    e.cover('done')

def remainPossible(cfg, seen):
    out = []
    order, kx = cfg['order'], cfg['kx']
    ranked = [k for k in sorted(range(cfg['Np']), key=lambda k: order[k])
              if k != kx]
    prev = set()
    for n, rb in enumerate(cfg['rbs']):
        now = {k for k in ranked if '%d@%d' % (k, n) in seen}
        if ranked[0] not in now: out.append(
                "the best one is possible at randomness %s" % rb)
        if rb >= 0.5:
            for k in ranked:
                if k not in now: out.append(
                    "position %d is possible at randomness %s" % (k, rb))
        if rb is False or rb == 0.0:
            if now != {ranked[0]}: out.append(
                    "only the best one is possible with no randomness")
        for k in prev:
            if k not in now: out.append(
                "position %d remains possible at randomness %s" % (k, rb))
        worst = max([ranked.index(k) for k in now] or [-1])
        for k in ranked[:worst]:
            if k not in now: out.append(
                "better position %d is possible at randomness %s" % (k, rb))
        prev |= now
    return out


class Draws(object):
    """
    Keeps the probability density of draws.

    Each draw is made from a variable x in 0..1 that has either a uniform
    density or one of 2x, so that the probability of a path with
    independent conditions on its draws is that of a box.
    """
    def __init__(self, e):
        self.e = e
        self.w = e.world.random
        self.drawn, self.weight, self.ok = [], 1.0, True
        for name in ('random', 'uniform', 'triangular'):
            self.w.__dict__[name] = getattr(self, name)
        self.w.__dict__['_c'] = self.pick

    def pick(self, n, name):
        self.weight /= n
        return self.e.choose(n, name)

    def draw(self, density):
        x = self.e.real('q', 0, 1, lo_open=True, hi_open=True)
        self.drawn.append((x, density))
        return x

    def random(self): return self.draw(1)
    def uniform(self, a, b): return a + (b-a)*self.draw(1)
    def triangular(self, low=0.0, high=1.0, mode=None):
        if mode is not None and mode == low:
            return high - (high-low)*self.draw(2)
        if mode is not None and mode == high:
            return low + (high-low)*self.draw(2)
        self.ok = False
        return low + (high-low)*self.draw(1)

    def probability(self):
        """That of the current path, or None if it isn't that of a box."""
        import z3
        e = self.e
        P, inBox = self.weight, []
        for x, density in self.drawn:
            ends = []
            for f in ('minimize', 'maximize'):
                o = z3.Optimize()
                o.add(*e.pc)
                h = getattr(o, f)(x.v)
                if o.check() != z3.sat: return
                v = o.lower_values(h) if f == 'minimize' else \
                    o.upper_values(h)
                # The limit, whether or not it's reached
                ends.append(v[1])
            a, b = [z3.RealVal(str(z3.simplify(v))) for v in ends]
            inBox += [x.v > a, x.v < b]
            a, b = [float(v.as_fraction()) for v in (a, b)]
            P *= (b-a) if density == 1 else (b*b - a*a)
        s = z3.Solver()
        s.add(*inBox)
        s.add(z3.Not(z3.And(*e.pc + [True])))
        # Whatever else was decided didn't depend on the draws
        names = {str(x.v) for x, _ in self.drawn}
        s.add(*[c for c in e.pc if not names & variables(c)])
        if not self.ok or s.check() != z3.unsat: return
        return P

def variables(term):
    import z3
    if z3.is_const(term):
        return {str(term)} if term.decl().kind() == z3.Z3_OP_UNINTERPRETED \
            else set()
    return set().union(*[variables(t) for t in term.children()])

class Grid(object):
    """
    Evenly spaced quantiles for (up to) two draws.
    """
    N = 60
    def __init__(self, e):
        for name in ('random', 'uniform', 'triangular'):
            e.world.random.__dict__[name] = getattr(self, name)
        e.world.random.__dict__['_c'] = lambda n, name: int(self.next()*n)
    def next(self):
        q = self.q.pop(0)
        self.q.append(q)
        return (q + 0.5)/self.N
    def random(self): return self.next()
    def uniform(self, a, b): return a + (b-a)*self.next()
    def triangular(self, low=0.0, high=1.0, mode=None):
        if mode is not None and mode == high:
            return low + (high-low)*math.sqrt(self.next())
        return high - (high-low)*math.sqrt(self.next())
    def probabilities(self, f):
        count = {}
        for a in range(self.N):
            for b in range(self.N):
                self.q = [a, b]
                k = f()
                count[k] = count.get(k, 0) + 1
        return {k: count[k] / self.N**2 for k in count}


def chances(e, cfg):
    """
    Probability of each position.
    """
    P = makePop(e, cfg)
    p = P.p
    kx = cfg['kx']
    n = e.choose(len(cfg['rbs']), 'which')
    rb = cfg['rbs'][n]
    f = lambda rb: int(p.sample(1, kx, randomBase=rb))
    e.cover('done')
    if not e.symbolic:
        for n, rb in enumerate(cfg['rbs']):
            got = Grid(e).probabilities(lambda: f(rb))
            for k in got: e.cover('about %d@%d@%r' % (k, n, got[k]))
        return
    D = Draws(e)
    k = f(rb)
    pr = D.probability()
    if pr is None: e.cover('unknown')
    else: e.cover('exact %d@%d@%r@%s' % (
        k, n, pr, "".join(str(x[1])[:1] for x in e.decisions)))

def bestBiased(cfg, seen):
    out = []
    if 'unknown' in seen: return out
    order, kx = cfg['order'], cfg['kx']
    ranked = [k for k in sorted(range(cfg['Np']), key=lambda k: order[k])
              if k != kx]
    table = [[0.0]*len(ranked) for _ in cfg['rbs']]
    tol = 1e-9
    for x in seen:
        if '@' not in x: continue
        if x.startswith('about'): tol = 0.02
        k, n, pr = x.split()[1].split('@')[:3]
        table[int(n)][ranked.index(int(k))] += float(pr)
    prev = None
    for rb, row in zip(cfg['rbs'], table):
        if abs(sum(row) - 1) > 0.03: return []
        for a, b in zip(row[:-1], row[1:]):
            if b > a + tol: out.append(
                "a better position is no less likely at randomness %s" % rb)
        if rb == 1.0 and max(row) > min(row) + tol: out.append(
                "equal chances with full randomness")
        best = [sum(row[:m]) for m in range(1, len(row)+1)]
        if prev and any(a > b + tol for a, b in zip(best, prev)): out.append(
            "higher randomness %s doesn't make the best more likely" % rb)
        prev = best
    return out


def refused(e, cfg):
    P = makePop(e, cfg)
    rb = e.real('rb', 1, lo_open=True)
    try: P.p.sample(1, 0, randomBase=rb)
    except ValueError: e.cover('refused')
    else: e.fail("a randomness above one is refused")
    try: P.p.sample(2, 0, randomBase=False)
    except ValueError: pass
    else: e.fail("several of the best one are refused")


HARNESSES = [
    Harness(sample, quick=[
        dict(Np=4, N=2, nx=2, order=[2, 0, 3, 1]),
        dict(Np=4, N=1, nx=1),
        dict(Np=5, N=2, exclude=[0, 3], order=[2, 0, 4, 3, 1]),
        dict(Np=4, N=2, exclude=[2, 1], order=[2, 0, 3, 1]),
        dict(Np=5, N=1, exclude=[4], order=[2, 0, 4, 3, 1]),
        dict(Np=5, N=1, exclude=[4], order=[2, 0, 4, 3, 1], rb=True),
        dict(Np=5, N=1, exclude=[1], order=[2, 0, 4, 3, 1], rb=1.0),
        dict(Np=6, N=4, exclude=[1, 2], order=[2, 0, 4, 3, 1, 5]),
        dict(Np=4, N=1, exclude=[], order=[2, 0, 3, 1], rb=True),
        dict(Np=6, N=2, nx=3, order=[2, 0, 4, 3, 1, 5]),
        dict(Np=4, N=1, exclude=[0, 3, 1], order=[2, 0, 3, 1], rb=False),
        dict(Np=4, N=2, nx=1, order=[2, 0, 3, 1], rb=0.45, draws=3),
        dict(Np=5, N=3, exclude=[3], order=[2, 0, 4, 3, 1], rb=0.5, draws=4),
    ], thorough=[
        dict(Np=6, N=2, nx=4, order=[2, 0, 4, 3, 1, 5]),
        dict(Np=6, N=2, nx=2, order=[2, 0, 4, 3, 1, 5]),
        dict(Np=6, N=3, exclude=[0], order=[2, 0, 4, 3, 1, 5]),
        dict(Np=8, N=2, exclude=[0, 7], order=[2, 0, 4, 3, 1, 5, 7, 6]),
    ], covers=['done'], final=allPossible,
       bounds="populations of 4-8, samples of 1-4, up to 3 exclusions (4 thorough); all "
       "draws"),
    Harness(base, quick=[
        dict(Np=4, rb=0), dict(Np=4, rb=False, order=[2, 0, 3, 1]),
        dict(Np=4, rb=0.0, kx=0),
        dict(Np=4, rb='sym', order=[2, 0, 3, 1]), dict(Np=3, rb='sym'),
        dict(Np=4, rb=True, order=[1, 1, 1, 1]),
    ], thorough=[
        dict(Np=6, rb='sym', order=[2, 0, 4, 3, 1, 5]), dict(Np=5, rb=0, kx=1),
    ], covers=['done'],
       bounds="populations of 3-6; all fitness values, all randomness, all "
       "draws"),
    Harness(between, quick=[
        dict(Np=5, kx=3, order=[2, 0, 4, 3, 1],
             rbs=[0.0, 0.05, 0.2, 0.35, 0.5, 0.7, 0.95, 1.0]),
        dict(Np=5, kx=1, order=[2, 0, 4, 3, 1],
             rbs=[False, 0.1, 0.3, 0.45, 0.51, 0.8, True]),
    ], thorough=[
        dict(Np=8, kx=0, order=[2, 0, 4, 3, 1, 5, 7, 6],
             rbs=[0.0, 0.01] + [0.05*k for k in range(1, 20)] + [0.99, 1.0]),
    ], covers=['done'], final=remainPossible,
       bounds="populations of 5 and 8, 8-23 values of randomness, all draws"),
    Harness(chances, quick=[
        dict(Np=5, kx=3, order=[2, 0, 4, 3, 1],
             rbs=[0.1, 0.3, 0.5, 0.6, 0.8, 1.0])],
            thorough=[
        dict(Np=9, kx=2, order=[2, 0, 8, 4, 3, 1, 5, 7, 6],
             rbs=[0.05*k for k in range(1, 20)] + [0.99, 1.0])],
            covers=['done'], final=bestBiased, runs=1,
            bounds="populations of 5 (9 thorough), 6 values of randomness "
            "(21 thorough), probabilities from the limits of all draws"),
    Harness(refused, quick=[dict(Np=4, order=[2, 0, 3, 1])],
            covers=['refused'], bounds="all randomness above one"),
]

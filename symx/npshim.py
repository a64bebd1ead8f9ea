"""
numpy, as seen by the code under test during symbolic execution.

Arrays that hold anything symbolic are SymArray: an ndarray of dtype
object whose comparisons yield symbolic booleans instead of forcing
them, and whose where/clip/isfinite/... merge instead of forking.
Everything else is the real numpy.
"""
import functools, math, types

import numpy as np

from . import engine as _eng
from .values import (
    SF, SI, SB, SymBytes, lift, ite, has_sym, mkb, tb, is_num, b_or, b_and)


COMPARE = {np.less, np.less_equal, np.greater, np.greater_equal,
           np.equal, np.not_equal}


def base(x):
    """Plain object-array (or concrete) view of an argument."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (SF, SI, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)) and has_sym(x):
        return toarray(x).view(np.ndarray)
    return x


def wrap(r):
    """Result of an object-array operation -> SymArray or scalar."""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0: return npscalar(r[()])
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    return npscalar(r)


def npscalar(x):
    """Marks a symbolic float as having numpy semantics."""
    if isinstance(x, SF) and not x.np_:
        return SF(x.v, x.nan, x.pinf, x.ninf, np_=True)
    return x


def toarray(x):
    """
    Builds a SymArray from a nested sequence (or array) holding
    symbolic numbers.
    """
    if isinstance(x, SymArray): return x.copy()
    if isinstance(x, np.ndarray):
        a = x.astype(object)
        return a.view(SymArray)
    def shape(y):
        if isinstance(y, np.ndarray): return y.shape
        if isinstance(y, (list, tuple)):
            return (len(y),) + (shape(y[0]) if len(y) else ())
        if hasattr(y, '__iter__') and not isinstance(y, (str, bytes)):
            y = list(y)
            return (len(y),) + (shape(y[0]) if len(y) else ())
        return ()
    sh = shape(x)
    a = np.empty(sh, dtype=object)
    if sh == ():
        a[()] = npscalar(x)
        return a.view(SymArray)
    for k, row in enumerate(x):
        if len(sh) == 1: a[k] = npscalar(elem(row))
        else: a[k] = toarray(row).view(np.ndarray)
    return a.view(SymArray)


def elem(x):
    if isinstance(x, np.ndarray) and x.ndim == 0: return x[()]
    if isinstance(x, np.generic): return x.item()
    return x


def elementwise(f, *args):
    """Applies a Python function elementwise with broadcasting."""
    arrs = [np.asarray(base(a), dtype=object) for a in args]
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    for ix in np.ndindex(*bc[0].shape):
        out[ix] = f(*[elem(b[ix]) for b in bc])
    return out


SYMBOLIC = (SF, SI, SB)

def quick_ufunc(ufunc, f, inputs):
    """
    Ufunc with double precision wherever nothing is symbolic, instead of
    the exact arithmetic that would be very slow on large arrays.
    """
    arrs = [np.asarray(base(a), dtype=object) for a in inputs]
    bc = np.broadcast_arrays(*arrs)
    sym = np.zeros(bc[0].shape, dtype=bool)
    for b in bc:
        sym |= np.fromiter(
            (isinstance(x, SYMBOLIC) for x in b.ravel().tolist()),
            dtype=bool, count=b.size).reshape(b.shape)
    if sym.ndim == 0:
        if sym: return elementwise(f, *inputs)
        out = np.empty((), dtype=object)
        out[()] = elem(ufunc(*[_float(b[()]) for b in bc]))
        return out
    K = ~sym
    out = np.empty(sym.shape, dtype=object)
    if K.any():
        try: args = [b[K].astype(bool if ufunc in LOGICAL else float)
                     for b in bc]
        except TypeError: return elementwise(f, *inputs)
        out[K] = ufunc(*args).tolist()
    for ix in zip(*np.nonzero(sym)):
        out[ix] = f(*[elem(b[ix]) for b in bc])
    return out

LOGICAL = {np.logical_and, np.logical_or, np.logical_not, np.logical_xor,
           np.bitwise_and, np.bitwise_or, np.invert, np.bitwise_xor}

def _float(x): return x if isinstance(x, (bool, np.bool_)) else float(x)


def pack_bools(out):
    """
    Boolean result array: a genuine bool array if nothing is symbolic.
    """
    if out.ndim == 0:
        return out[()]
    flat = out.ravel().tolist()
    if all(isinstance(x, (bool, np.bool_)) for x in flat):
        return out.astype(bool)
    return out.view(SymArray)


def e_isnan(x):
    return x.isnan() if isinstance(x, (SF, SI)) else bool(np.isnan(float(x)))
def e_isinf(x):
    return x.isinf() if isinstance(x, (SF, SI)) else bool(np.isinf(float(x)))
def e_isfinite(x):
    if isinstance(x, (SF, SI)): return x.isfinite()
    return bool(np.isfinite(float(x)))
def e_and(a, b): return mkb(b_and(tb(a), tb(b)))
def e_or(a, b): return mkb(b_or(tb(a), tb(b)))
def e_not(a):
    if isinstance(a, SB): return ~a
    if isinstance(a, (SF, SI)): return a == 0
    return not a
def e_xor(a, b): return SB(tb(a)) ^ SB(tb(b))
def e_max(a, b):
    """numpy.maximum: NaN propagates."""
    fa, fb = lift(a), lift(b)
    r = ite(fa > fb, fa, fb)
    if fa.nan is not None or fb.nan is not None:
        r = ite(e_or(fa.isnan(), fb.isnan()), lift(float('nan')), r)
    return r
def e_min(a, b):
    fa, fb = lift(a), lift(b)
    r = ite(fa < fb, fa, fb)
    if fa.nan is not None or fb.nan is not None:
        r = ite(e_or(fa.isnan(), fb.isnan()), lift(float('nan')), r)
    return r
def e_sign(a):
    f = lift(a)
    return ite(f > 0, 1.0, ite(f < 0, -1.0, 0.0))
def e_div(a, b):
    fa, fb = lift(a), lift(b)
    return npscalar(fa) / fb


def meth(name):
    def f(x, *rest):
        fx = lift(x)
        return getattr(fx, name)(*rest)
    return f


ELEM = {
    np.isnan: (e_isnan, True), np.isinf: (e_isinf, True),
    np.isfinite: (e_isfinite, True),
    np.logical_and: (e_and, True), np.logical_or: (e_or, True),
    np.logical_not: (e_not, True), np.logical_xor: (e_xor, True),
    np.bitwise_and: (e_and, True), np.bitwise_or: (e_or, True),
    np.invert: (e_not, True), np.bitwise_xor: (e_xor, True),
    np.maximum: (e_max, False), np.minimum: (e_min, False),
    np.fmax: (e_max, False), np.fmin: (e_min, False),
    np.sqrt: (meth('sqrt'), False), np.exp: (meth('exp'), False),
    np.log10: (meth('log10'), False), np.log: (meth('log'), False),
    np.sin: (meth('sin'), False), np.cos: (meth('cos'), False),
    np.floor: (meth('floor'), False), np.ceil: (meth('ceil'), False),
    np.rint: (meth('rint'), False), np.trunc: (meth('trunc'), False),
    np.absolute: (lambda x: abs(lift(x)), False),
    np.fabs: (lambda x: abs(lift(x)), False),
    np.sign: (e_sign, False),
    np.square: (lambda x: lift(x)*lift(x), False),
    np.power: (lambda a, b: lift(a) ** b, False),
    np.float_power: (lambda a, b: lift(a) ** b, False),
    np.true_divide: (e_div, False),
    np.floor_divide: (lambda a, b: lift(a) // lift(b), False),
    np.remainder: (lambda a, b: lift(a) % lift(b), False),
    np.fmod: (lambda a, b: lift(a) % lift(b), False),
    np.reciprocal: (lambda a: e_div(1.0, a), False),
    np.add: (lambda a, b: a + b, False),
    np.subtract: (lambda a, b: a - b, False),
    np.multiply: (lambda a, b: a * b, False),
    np.negative: (lambda a: -a, False),
    np.positive: (lambda a: a, False),
    np.conjugate: (lambda a: a, False),
    np.less: (lambda a, b: a < b, True),
    np.less_equal: (lambda a, b: a <= b, True),
    np.greater: (lambda a, b: a > b, True),
    np.greater_equal: (lambda a, b: a >= b, True),
    np.equal: (lambda a, b: a == b, True),
    np.not_equal: (lambda a, b: a != b, True),
}


def array_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None); kw.pop('casting', None)
    if method == '__call__':
        if ufunc in ELEM and where is True:
            f, isbool = ELEM[ufunc]
            if _eng.CUR.world.floats: r = quick_ufunc(ufunc, f, inputs)
            else: r = elementwise(f, *inputs)
            r = pack_bools(r) if isbool else wrap(r)
        else:
            r = wrap(ufunc(*[base(x) for x in inputs], **kw))
    elif method == 'reduce' and ufunc in ELEM:
        r = reduce_(ELEM[ufunc][0], inputs[0], kw.get('axis', 0),
                    kw.get('initial', None), kw.get('keepdims', False),
                    ident=ufunc.identity)
        if ELEM[ufunc][1] and isinstance(r, np.ndarray): r = pack_bools(r)
        elif isinstance(r, np.ndarray): r = wrap(r)
    elif method == 'accumulate' and ufunc in ELEM:
        f = ELEM[ufunc][0]
        a = np.asarray(base(inputs[0]), dtype=object)
        o = a.copy()
        for k in range(1, a.shape[0]): o[k] = f(o[k-1], a[k])
        r = wrap(o)
    elif method == 'outer' and ufunc in ELEM:
        a = np.asarray(base(inputs[0]), dtype=object)
        b = np.asarray(base(inputs[1]), dtype=object)
        r = wrap(elementwise(ELEM[ufunc][0], a[:, None], b[None, :]))
    elif method == 'at':
        return getattr(ufunc, method)(*[base(x) for x in inputs], **kw)
    else:
        r = wrap(getattr(ufunc, method)(*[base(x) for x in inputs], **kw))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, np.ndarray) and o.dtype != object:
            _eng.CUR.unsupported("symbolic result into a numeric array")
        o[...] = base(r)
        return o
    return r


def reduce_(f, x, axis=None, initial=None, keepdims=False, ident=None):
    a = np.asarray(base(x), dtype=object)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim: axis = None
        else: _eng.CUR.unsupported("multi-axis reduction")
    def red(seq):
        seq = list(seq)
        if initial is not None and not isinstance(
                initial, np._NoValueType): seq.insert(0, initial)
        if not seq:
            if ident is None:
                raise ValueError(
                    "zero-size array to reduction operation "
                    "which has no identity")
            return ident
        return functools.reduce(f, seq)
    if axis is None or a.ndim <= 1:
        r = red(a.ravel().tolist())
        if keepdims:
            o = np.empty((1,)*a.ndim, dtype=object); o[...] = r
            return o
        return npscalar(r)
    if axis < 0: axis += a.ndim
    m = np.moveaxis(a, axis, 0)
    o = np.empty(m.shape[1:], dtype=object)
    for ix in np.ndindex(*o.shape):
        o[ix] = red([m[(k,)+ix] for k in range(m.shape[0])])
    if keepdims: o = np.expand_dims(o, axis)
    return o


# -- sorting and searching, by forking on comparisons ------------------------

def less_nan_last(a, b):
    """a sorts before b (NaN last), decided by forking."""
    fa, fb = lift(a), lift(b)
    if fa is None or fb is None: return bool(a < b)
    return bool(mkb(b_or(
        tb(fa < fb),
        b_and(tb(fb.isnan()), tb(e_not(fa.isnan()))))))

def argsort1(seq):
    order = []
    for k, x in enumerate(seq):
        # Stable binary insertion: after all elements that are <= x
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi)//2
            if less_nan_last(x, seq[order[mid]]): hi = mid
            else: lo = mid + 1
        order.insert(lo, k)
    return order

def f_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = asarr(a)
    if a.ndim == 1:
        return np.array(argsort1(a.tolist()), dtype=np.int64)
    if axis is None: return f_argsort(a.ravel())
    m = np.moveaxis(a, axis, -1)
    o = np.empty(m.shape, dtype=np.int64)
    for ix in np.ndindex(*m.shape[:-1]):
        o[ix] = argsort1(m[ix].tolist())
    return np.moveaxis(o, -1, axis)

def f_sort(a, axis=-1, **kw):
    a = asarr(a)
    if a.ndim != 1: _eng.CUR.unsupported("n-d sort")
    return np.array([None]*0 or [a[k] for k in argsort1(a.tolist())],
                    dtype=object).view(SymArray)

def f_lexsort(keys, axis=-1):
    keys = [list(asarr(k)) for k in keys]
    order = list(range(len(keys[0])))
    for key in keys:
        sub = argsort1([key[k] for k in order])
        order = [order[k] for k in sub]
    return np.array(order, dtype=np.int64)

def f_searchsorted(a, v, side='left', sorter=None):
    a = list(asarr(a))
    if sorter is not None: a = [a[int(k)] for k in sorter]
    def one(x):
        lo, hi = 0, len(a)
        while lo < hi:
            mid = (lo + hi)//2
            if side == 'left': go = less_nan_last(a[mid], x)
            else: go = not less_nan_last(x, a[mid])
            if go: lo = mid + 1
            else: hi = mid
        return lo
    if isinstance(v, (list, tuple)) or (
            isinstance(v, np.ndarray) and v.ndim):
        return np.array([one(x) for x in v], dtype=np.int64)
    return np.int64(one(elem(v)))

def arg_ext(better):
    def f(a, axis=None, out=None, **kw):
        a = asarr(a)
        if a.ndim > 1 and axis is not None:
            m = np.moveaxis(a, axis, 0)
            o = np.empty(m.shape[1:], dtype=np.int64)
            for ix in np.ndindex(*o.shape):
                o[ix] = f([m[(k,)+ix] for k in range(m.shape[0])])
            return o
        seq = list(a.ravel())
        if not seq:
            raise ValueError("attempt to get argmin of an empty sequence")
        kb = 0
        for k in range(1, len(seq)):
            fb, fx = lift(seq[kb]), lift(seq[k])
            if bool(fb.isnan()): break
            if bool(fx.isnan()) or bool(better(fx, fb)): kb = k
        return np.int64(kb)
    return f
f_argmin = arg_ext(lambda x, y: x < y)
f_argmax = arg_ext(lambda x, y: x > y)


def asarr(a):
    if isinstance(a, np.ndarray): return a
    if has_sym(a): return toarray(a)
    return np.asarray(a)


# -- other array functions ----------------------------------------------------

def f_where(cond, *xy):
    if not xy:
        return f_nonzero(cond)
    x, y = xy
    return wrap(elementwise(ite, cond, x, y))

def force(a):
    """Forks until a symbolic boolean array is concrete."""
    a = asarr(a)
    o = np.empty(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape): o[ix] = bool(a[ix])
    return o

def f_nonzero(a): return np.nonzero(force(a))
def f_flatnonzero(a): return np.flatnonzero(force(a))
def f_argwhere(a): return np.argwhere(force(a))
def f_count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(force(a), axis=axis)
def f_extract(c, a): return asarr(a)[force(c)]
def f_compress(c, a, axis=None):
    return asarr(a)[np.flatnonzero(force(c))]

def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.pop('min', a_min); a_max = kw.pop('max', a_max)
    r = base(a)
    if a_min is not None: r = elementwise(e_max, r, a_min)
    if a_max is not None: r = elementwise(e_min, r, a_max)
    r = wrap(r)
    if out is not None:
        out[...] = base(r)
        return out
    return r

def f_all(a, axis=None, **kw):
    if isinstance(a, (bool, np.bool_, SB)): return a
    r = reduce_(e_and, a, axis, ident=True)
    return pack_bools(r) if isinstance(r, np.ndarray) else r
def f_any(a, axis=None, **kw):
    if isinstance(a, (bool, np.bool_, SB)): return a
    r = reduce_(e_or, a, axis, ident=False)
    return pack_bools(r) if isinstance(r, np.ndarray) else r
def f_sum(a, axis=None, dtype=None, out=None, **kw):
    return wrap(reduce_(lambda x, y: x + y, a, axis, ident=0.0,
                        keepdims=bool(kw.get('keepdims', False))))
def f_prod(a, axis=None, **kw):
    return wrap(reduce_(lambda x, y: x * y, a, axis, ident=1.0))
def f_min(a, axis=None, out=None, **kw):
    return wrap(reduce_(e_min, a, axis))
def f_max(a, axis=None, out=None, **kw):
    return wrap(reduce_(e_max, a, axis))
def f_mean(a, axis=None, dtype=None, out=None, **kw):
    a = asarr(a)
    n = a.size if axis is None else a.shape[axis]
    if n == 0: return float('nan')
    return f_sum(a, axis, **kw) / float(n)
def f_average(a, axis=None, weights=None, **kw):
    if weights is None: return f_mean(a, axis)
    w = asarr(weights)
    return f_sum(asarr(a)*w, axis) / f_sum(w)
def f_var(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    a = asarr(a)
    if axis is None:
        a = a.ravel(); axis = 0
    n = a.shape[axis]
    mu = f_mean(a, axis)
    d = a - (np.expand_dims(base(mu), axis).view(SymArray)
             if isinstance(mu, np.ndarray) else mu)
    return f_sum(d*d, axis) / float(n - ddof)
def f_std(a, axis=None, **kw):
    v = f_var(a, axis, **kw)
    return np.sqrt(v)
def f_ptp(a, axis=None, **kw): return f_max(a, axis) - f_min(a, axis)
def f_round(a, decimals=0, out=None):
    def one(x):
        x = lift(x)
        if decimals: return (x * 10.0**decimals).rint() / 10.0**decimals
        return x.rint()
    if isinstance(a, (SF, SI)): return npscalar(one(a))
    return wrap(elementwise(one, a))
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        x, y = lift(x), lift(y)
        near = abs(x-y) <= atol + rtol*abs(y)
        return mkb(b_or(tb(x == y), b_and(
            tb(x.isfinite()), tb(y.isfinite()), tb(near))))
    return pack_bools(elementwise(one, a, b))
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(f_all(r))
def f_array_equal(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape: return False
    return bool(f_all(a == b))
def f_choose(a, choices, out=None, mode='raise'):
    def one(k, *cs): return cs[int(k)]
    return wrap(elementwise(one, a, *choices))
def f_diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    for _ in range(n): a = a[1:] - a[:-1]
    return a
def f_cumsum(a, axis=None, **kw):
    out = []; t = 0.0
    for x in asarr(a).ravel().tolist():
        t = t + x; out.append(t)
    return toarray(out)
def f_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1: return f_sum(a*b)
    return wrap(np.dot(base(a), base(b)))
def f_unique(a, **kw):
    seq = list(asarr(a).ravel()); out = []
    for x in seq:
        if not any(bool(x == y) for y in out): out.append(x)
    return f_sort(toarray(out))
def f_median(a, **kw):
    s = f_sort(asarr(a).ravel()); n = len(s)
    if n % 2: return s[n//2]
    return (s[n//2-1] + s[n//2]) / 2.0
def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max
    def one(x):
        x = lift(x)
        r = ite(x.isnan(), nan, x)
        r = ite(mkb(b_and(tb(x.isinf()), tb(x > 0))),
                big if posinf is None else posinf, r)
        return ite(mkb(b_and(tb(x.isinf()), tb(x < 0))),
                   -big if neginf is None else neginf, r)
    return wrap(elementwise(one, a))
def f_interp(*a, **kw): _eng.CUR.unsupported("np.interp")
def f_take(a, idx, axis=None, **kw):
    a = asarr(a)
    if axis in (None, 0) and a.ndim == 1: return a[idx]
    return wrap(np.take(base(a), idx, axis=axis))
def f_copyto(dst, src, **kw): dst[...] = base(src)
def f_isin(a, b, **kw):
    bb = list(asarr(b).ravel())
    def one(x):
        r = False
        for y in bb: r = e_or(r, x == y)
        return r
    return pack_bools(elementwise(one, a))


HANDLERS = {
    'argsort': f_argsort, 'sort': f_sort, 'lexsort': f_lexsort,
    'searchsorted': f_searchsorted, 'argmin': f_argmin, 'argmax': f_argmax,
    'where': f_where, 'nonzero': f_nonzero, 'flatnonzero': f_flatnonzero,
    'argwhere': f_argwhere, 'count_nonzero': f_count_nonzero,
    'extract': f_extract, 'compress': f_compress, 'clip': f_clip,
    'all': f_all, 'any': f_any, 'sum': f_sum, 'prod': f_prod,
    'min': f_min, 'max': f_max, 'amin': f_min, 'amax': f_max,
    'nanmin': f_min, 'nanmax': f_max, 'nansum': f_sum,
    'mean': f_mean, 'average': f_average, 'var': f_var, 'std': f_std,
    'ptp': f_ptp, 'round': f_round, 'around': f_round,
    'isclose': f_isclose, 'allclose': f_allclose,
    'array_equal': f_array_equal, 'choose': f_choose, 'diff': f_diff,
    'cumsum': f_cumsum, 'dot': f_dot, 'unique': f_unique,
    'median': f_median, 'nan_to_num': f_nan_to_num, 'take': f_take,
    'copyto': f_copyto, 'isin': f_isin, 'in1d': f_isin,
    'isneginf': lambda a: pack_bools(elementwise(
        lambda x: mkb(b_and(tb(e_isinf(x)), tb(lift(x) < 0))), a)),
    'isposinf': lambda a: pack_bools(elementwise(
        lambda x: mkb(b_and(tb(e_isinf(x)), tb(lift(x) > 0))), a)),
}


class SymArray(np.ndarray):
    """
    Object array of symbolic (and concrete) numbers.

    @ivar f4: Set if it stands in for an array of single precision.
    """
    f4 = False
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kw):
        h = HANDLERS.get(func.__name__)
        if h is not None: return h(*args, **kw)
        def conv(x):
            if isinstance(x, SymArray): return x.view(np.ndarray)
            if isinstance(x, (list, tuple)):
                return type(x)(conv(y) for y in x)
            return x
        return wrap_any(func(*[conv(a) for a in args],
                             **{k: conv(v) for k, v in kw.items()}))

    def _ix(self, ix):
        def one(x):
            if isinstance(x, SB): return bool(x)
            if isinstance(x, SI): return x.concretize()
            if isinstance(x, np.ndarray) and x.dtype == object:
                flat = x.ravel().tolist()
                if flat and all(isinstance(y, (SB, bool, np.bool_))
                                for y in flat):
                    return force(x)
                return np.array([int(y) for y in flat],
                                dtype=int).reshape(x.shape)
            if isinstance(x, list) and has_sym(x):
                if all(isinstance(y, (SB, bool)) for y in x):
                    return [bool(y) for y in x]
                return [int(y) for y in x]
            return x
        if isinstance(ix, tuple): return tuple(one(x) for x in ix)
        return one(ix)
    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, self._ix(ix))
        return r
    def __setitem__(self, ix, val):
        ix = self._ix(ix)
        if isinstance(val, (list, tuple)): val = toarray(val)
        if isinstance(val, (SF, SI, SB)):
            # Scalar assignment, possibly to a slice
            a = np.empty((), dtype=object); a[()] = npscalar(val)
            val = a
        elif isinstance(val, SymArray): val = val.view(np.ndarray)
        if self.f4 and _eng.CUR.f4:
            val = single(np.asarray(val, dtype=object))
        np.ndarray.__setitem__(self, ix, val)

    def tobytes(self, *a): return SymBytes(self.ravel().tolist())
    tostring = tobytes
    def astype(self, dtype, *a, **kw):
        if not has_sym(self):
            return np.asarray(self, dtype=object).astype(undtype(dtype))
        dt = np.dtype(undtype(dtype))
        if dt.kind in 'iu':
            return np.array([int(x) for x in self.ravel().tolist()],
                            dtype=dt).reshape(self.shape)
        if dt.kind == 'b': return force(self)
        r = self.copy()
        if dt.itemsize == 4:
            r.f4 = True
            if _eng.CUR.f4: r[...] = r
        return r
    def min(self, axis=None, **kw): return f_min(self, axis)
    def max(self, axis=None, **kw): return f_max(self, axis)
    def sum(self, axis=None, **kw): return f_sum(self, axis)
    def mean(self, axis=None, **kw): return f_mean(self, axis)
    def var(self, axis=None, **kw): return f_var(self, axis, **kw)
    def std(self, axis=None, **kw): return f_std(self, axis, **kw)
    def prod(self, axis=None, **kw): return f_prod(self, axis)
    def all(self, axis=None, **kw): return f_all(self, axis)
    def any(self, axis=None, **kw): return f_any(self, axis)
    def argsort(self, *a, **kw): return f_argsort(self, *a, **kw)
    def argmin(self, axis=None, **kw): return f_argmin(self, axis)
    def argmax(self, axis=None, **kw): return f_argmax(self, axis)
    def searchsorted(self, v, side='left', sorter=None):
        return f_searchsorted(self, v, side, sorter)
    def clip(self, min=None, max=None, **kw): return f_clip(self, min, max)
    def round(self, decimals=0, **kw): return f_round(self, decimals)
    def nonzero(self): return f_nonzero(self)
    def sort(self, *a, **kw):
        self[...] = f_sort(self)
    def cumsum(self, *a, **kw): return f_cumsum(self)
    def dot(self, b): return f_dot(self, b)
    def ptp(self, *a): return f_ptp(self, *a)
    def __bool__(self):
        if self.size == 1: return bool(self.ravel()[0])
        raise ValueError(
            "The truth value of an array with more than one element is "
            "ambiguous. Use a.any() or a.all()")
    def __deepcopy__(self, memo): return self.copy()
    def __contains__(self, x):
        return bool(f_any(self == x))
    def __reduce__(self):
        return (_eng.rebuild, (_eng.stash(self.copy()),))


def wrap_any(r):
    if isinstance(r, np.ndarray): return wrap(r)
    if isinstance(r, list): return [wrap_any(x) for x in r]
    if isinstance(r, tuple): return tuple(wrap_any(x) for x in r)
    return r


def undtype(dtype):
    """The code under test may pass its shadowed float/int as a dtype."""
    real = getattr(dtype, '_real_type', None)
    return real if real is not None else dtype


class NumpyShim(types.ModuleType):
    """
    Stands in for the numpy module.
    """
    # Whether freshly made float arrays are object arrays, which they
    # must be if symbolic numbers are going to be stored in them
    def __init__(self, random):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['random'] = random
        self.__dict__['_cache'] = {}
        self.__dict__['__path__'] = np.__path__

    def __getattr__(self, name):
        cache = self.__dict__['_cache']
        if name in cache: return cache[name]
        real = getattr(np, name)
        special = getattr(Special, name, None)
        if special is not None:
            f = special
        elif isinstance(real, np.ufunc):
            f = UfuncShim(real)
        elif callable(real) and not isinstance(real, type):
            f = generic(name, real)
        else: f = real
        cache[name] = f
        return f


class UfuncShim(object):
    def __init__(self, real): self._real = real
    def _conv(self, x):
        if isinstance(x, (list, tuple)) and has_sym(x): return toarray(x)
        return x
    def __call__(self, *args, **kw):
        args = [self._conv(a) for a in args]
        if 'dtype' in kw: kw['dtype'] = undtype(kw['dtype'])
        if any(has_sym(a) for a in args):
            return array_ufunc(self._real, '__call__', args, kw)
        return self._real(*args, **kw)
    def reduce(self, a, *rest, **kw):
        a = self._conv(a)
        if rest: kw['axis'] = rest[0]
        return self._real.reduce(a, **kw)
    def __getattr__(self, name): return getattr(self._real, name)
    def __repr__(self): return repr(self._real)


def generic(name, real):
    h = HANDLERS.get(name)
    def f(*args, **kw):
        if 'dtype' in kw: kw['dtype'] = undtype(kw['dtype'])
        args = [undtype(a) if isinstance(a, type) else a for a in args]
        if any(has_sym(a) for a in args) or any(
                has_sym(v) for v in kw.values()):
            if h is not None: return h(*args, **kw)
            def conv(x):
                if isinstance(x, (list, tuple)) and has_sym(x):
                    if any(isinstance(y, np.ndarray) for y in x):
                        return [asarr(y) for y in x]
                    return toarray(x)
                return x
            args = [conv(a) for a in args]
            kw = {k: conv(v) for k, v in kw.items()}
            try:
                return wrap_any(real(*args, **kw))
            except (TypeError, AttributeError) as exc:
                _eng.CUR.unsupported("np.%s: %s" % (name, exc))
        return real(*args, **kw)
    f.__name__ = name
    return f


def _isfloat(dtype):
    if dtype is None: return True
    try: return np.dtype(undtype(dtype)).kind == 'f'
    except TypeError: return False


class Special(object):
    """
    Array creation. Float arrays made here become object arrays, since
    the code under test may store symbolic numbers in them.
    """
    @staticmethod
    def array(x, dtype=None, **kw):
        if isinstance(x, (map, filter)) or hasattr(x, '__next__'):
            x = list(x)
        if has_sym(x):
            dt = undtype(dtype)
            a = toarray(x)
            if dt is not None and np.dtype(dt).kind in 'iub':
                return a.astype(dt)
            if dt is not None and np.dtype(dt).itemsize == 4:
                return a.astype(dt)
            return a
        return np.array(x, dtype=undtype(dtype), **kw)
    @staticmethod
    def asarray(x, dtype=None, **kw):
        if isinstance(x, SymArray): return x
        return Special.array(x, dtype)
    @staticmethod
    def asanyarray(x, dtype=None, **kw):
        return Special.asarray(x, dtype)
    @staticmethod
    def ascontiguousarray(x, dtype=None, **kw):
        return Special.asarray(x, dtype)
    @staticmethod
    def copy(x, **kw): return Special.array(x)
    @staticmethod
    def fromiter(x, dtype=None, count=-1):
        return Special.array(list(x), dtype)
    @staticmethod
    def zeros(shape, dtype=None, **kw):
        if _isfloat(dtype): return filled(shape, 0.0, dtype)
        return np.zeros(shape, undtype(dtype), **kw)
    @staticmethod
    def empty(shape, dtype=None, **kw):
        if _isfloat(dtype): return filled(shape, 0.0, dtype)
        return np.empty(shape, undtype(dtype), **kw)
    @staticmethod
    def ones(shape, dtype=None, **kw):
        if _isfloat(dtype): return filled(shape, 1.0, dtype)
        return np.ones(shape, undtype(dtype), **kw)
    @staticmethod
    def full(shape, value, dtype=None, **kw):
        if _isfloat(dtype): return filled(shape, value)
        return np.full(shape, value, undtype(dtype), **kw)
    @staticmethod
    def zeros_like(a, dtype=None, **kw):
        return Special.zeros(np.shape(a), dtype)
    @staticmethod
    def ones_like(a, dtype=None, **kw):
        return Special.ones(np.shape(a), dtype)
    @staticmethod
    def empty_like(a, dtype=None, **kw):
        return Special.empty(np.shape(a), dtype)
    @staticmethod
    def full_like(a, value, dtype=None, **kw):
        return Special.full(np.shape(a), value, dtype)
    @staticmethod
    def save(fh, X, **kw):
        if isinstance(X, SymArray):
            k = _eng.stash(X.copy())
            fh.write(b'SYMX%d' % k)
            return
        np.save(fh, X, **kw)
    @staticmethod
    def load(fh, **kw):
        pos = fh.tell()
        head = fh.read(4)
        if head == b'SYMX':
            return _eng.rebuild(int(fh.read()))
        fh.seek(pos)
        return np.load(fh, **kw)
    @staticmethod
    def isscalar(x):
        return isinstance(x, (SF, SI)) or np.isscalar(x)
    @staticmethod
    def vectorize(f, *a, **kw):
        def g(*args):
            return wrap(elementwise(f, *args))
        return g


def single(a):
    """
    What becomes of numbers that get stored in single precision: those
    out of its range become infinite. They aren't rounded.
    """
    def f(x):
        if not isinstance(x, SF): return x
        big = x.isfinite() & (abs(x) >= 3.4028235677973366e38)
        if big is False: return x
        return npscalar(ite(big, ite(x > 0, math.inf, -math.inf), x))
    return elementwise(f, a)


def filled(shape, value, dtype=None):
    a = np.empty(shape, dtype=object)
    if isinstance(value, np.ndarray):
        a[...] = np.asarray(value, dtype=object)
    else:
        a.fill(npscalar(value))
    a = a.view(SymArray)
    if dtype is not None and np.dtype(undtype(dtype)).itemsize == 4:
        a.f4 = True
    return a

"""
Symbolic values.

SB   symbolic boolean. bool() of one forks the execution path.
SF   symbolic float, as an extended real: a z3 Real plus optional
     NaN / +inf / -inf flags. Comparisons are exactly those of IEEE
     doubles; arithmetic is exact (no rounding, no overflow).
SI   symbolic integer (z3 Int).

Every operation asks the current engine (engine.CUR) to fork or to
solve, never decides anything by itself.
"""
import math, numbers, operator
from fractions import Fraction

import numpy as np
import z3

from . import engine as _eng


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
_TP, _FP = TRUE.ast.value, FALSE.ast.value

# Terms are hash-consed, so that constants can be told by their pointers
def is_true(x): return x.ast.value == _TP
def is_false(x): return x.ast.value == _FP
def identical(a, b): return a is b or a.ast.value == b.ast.value


def b_and(*xs):
    out = []
    for x in xs:
        if x is None or is_true(x): continue
        if is_false(x): return FALSE
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)

def b_or(*xs):
    out = []
    for x in xs:
        if x is None or is_false(x): continue
        if is_true(x): return TRUE
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)

def b_not(x):
    if x is None or is_false(x): return TRUE
    if is_true(x): return FALSE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def flag(x):
    """Normalizes a flag term: None if it is constantly false."""
    if x is None or is_false(x): return None
    return x


class SB(object):
    """Symbolic boolean."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return _eng.CUR.branch(self.t)
    def __and__(self, other): return mkb(b_and(self.t, tb(other)))
    __rand__ = __and__
    def __or__(self, other): return mkb(b_or(self.t, tb(other)))
    __ror__ = __or__
    def __xor__(self, other): return mkb(z3.Xor(self.t, tb(other)))
    __rxor__ = __xor__
    def __invert__(self): return mkb(b_not(self.t))
    def logical_not(self): return mkb(b_not(self.t))
    def __eq__(self, other):
        if isinstance(other, (SB, bool, np.bool_)):
            return mkb(self.t == tb(other))
        if isinstance(other, (int, float, SF, SI)):
            return SI(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == other
        return False
    def __ne__(self, other):
        r = self.__eq__(other)
        return (not r) if isinstance(r, bool) else ~r
    def _i(self): return SI(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def __hash__(self): return hash(bool(self))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __repr__(self): return str(bool(self))
    def __format__(self, spec): return format(bool(self), spec)


def mkb(t):
    """SB, or a plain bool if the term is constant."""
    if is_true(t): return True
    if is_false(t): return False
    t = z3.simplify(t)
    if is_true(t): return True
    if is_false(t): return False
    return SB(t)

def tb(x):
    """z3 Bool term of a boolean-ish value."""
    if isinstance(x, SB): return x.t
    if isinstance(x, (SF, SI)): return tb(x != 0)
    return z3.BoolVal(bool(x))


def _real_const(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    n, d = float(x).as_integer_ratio()
    return z3.RealVal("%d/%d" % (n, d))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_))


def lift(x):
    """
    Any number -> SF, or None if it is not a number.
    """
    if isinstance(x, SF): return x
    if isinstance(x, SI): return SF(z3.ToReal(x.t))
    if isinstance(x, SB): return SF(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, Fraction): return SF(_real_const(x))
    if is_num(x):
        isnp = isinstance(x, np.generic)
        if isinstance(x, (int, np.integer, np.bool_)):
            return SF(_real_const(int(x)), np_=isnp)
        x = float(x)
        if math.isnan(x): return SF(z3.RealVal(0), nan=TRUE, np_=isnp)
        if math.isinf(x):
            if x > 0: return SF(z3.RealVal(0), pinf=TRUE, np_=isnp)
            return SF(z3.RealVal(0), ninf=TRUE, np_=isnp)
        return SF(_real_const(x), np_=isnp)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


class SymbolicNumber(object):
    __slots__ = ()


def _ufunc(self, ufunc, method, *inputs, **kw):
    from . import npshim
    return npshim.array_ufunc(ufunc, method, inputs, kw)


class SF(SymbolicNumber):
    """
    Symbolic float: extended real. np_ marks numpy semantics (division
    by zero gives inf/nan instead of raising).
    """
    __slots__ = ('v', 'nan', 'pinf', 'ninf', 'np_')
    def __init__(self, v, nan=None, pinf=None, ninf=None, np_=False):
        self.v = v
        self.nan = flag(nan)
        self.pinf = flag(pinf)
        self.ninf = flag(ninf)
        self.np_ = np_

    __array_ufunc__ = _ufunc
    __array_priority__ = 1000.0

    # -- structure ----------------------------------------------------------
    @property
    def simple(self):
        return self.nan is None and self.pinf is None and self.ninf is None
    def fin(self):
        return b_and(b_not(self.nan), b_not(self.pinf), b_not(self.ninf))
    def isnan(self): return mkb(self.nan if self.nan is not None else FALSE)
    def isinf(self): return mkb(b_or(self.pinf, self.ninf))
    def isfinite(self): return mkb(self.fin())
    @property
    def dtype(self): return np.dtype(float)
    @property
    def shape(self):
        raise AttributeError('shape')
    @property
    def ndim(self):
        if self.np_: return 0
        raise AttributeError('ndim')
    def item(self): return self
    @property
    def real(self): return self
    def conjugate(self): return self
    def astype(self, t): return self
    def is_integer(self):
        return mkb(b_and(self.fin(), z3.IsInt(self.v)))

    # -- comparisons --------------------------------------------------------
    def _lt(a, b):
        return b_and(
            b_not(a.nan), b_not(b.nan), b_not(a.pinf), b_not(b.ninf),
            b_or(a.ninf, b.pinf, a.v < b.v))
    def _le(a, b):
        return b_and(
            b_not(a.nan), b_not(b.nan),
            b_or(a.ninf, b.pinf, b_and(
                b_not(a.pinf), b_not(b.ninf), a.v <= b.v)))
    def _eq(a, b):
        if a is b: return b_not(a.nan)
        return b_and(
            b_not(a.nan), b_not(b.nan),
            b_or(b_and(a.pinf if a.pinf is not None else FALSE,
                       b.pinf if b.pinf is not None else FALSE),
                 b_and(a.ninf if a.ninf is not None else FALSE,
                       b.ninf if b.ninf is not None else FALSE),
                 b_and(a.fin(), b.fin(), a.v == b.v)))
    def __lt__(self, other):
        o = lift(other)
        if o is None: return NotImplemented
        return mkb(SF._lt(self, o))
    def __gt__(self, other):
        o = lift(other)
        if o is None: return NotImplemented
        return mkb(SF._lt(o, self))
    def __le__(self, other):
        o = lift(other)
        if o is None: return NotImplemented
        return mkb(SF._le(self, o))
    def __ge__(self, other):
        o = lift(other)
        if o is None: return NotImplemented
        return mkb(SF._le(o, self))
    def __eq__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented if isinstance(other, np.ndarray) else False
        return mkb(SF._eq(self, o))
    def __ne__(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented if isinstance(other, np.ndarray) else True
        return mkb(b_not(SF._eq(self, o)))
    def __bool__(self):
        return bool(self != 0)
    def __hash__(self):
        # All symbolic numbers share a hash bucket, so that dicts and
        # sets decide key equality by __eq__, i.e., by forking
        return 0

    # -- arithmetic ---------------------------------------------------------
    def _np(a, b): return a.np_ or b.np_
    def _add(a, b):
        v = _vadd(a.v, b.v)
        if a.simple and b.simple:
            return SF(v, np_=a._np(b))
        nan = b_or(
            a.nan, b.nan,
            b_and(_f(a.pinf), _f(b.ninf)), b_and(_f(a.ninf), _f(b.pinf)))
        return SF(
            v, nan=nan,
            pinf=b_and(b_or(a.pinf, b.pinf), b_not(nan)),
            ninf=b_and(b_or(a.ninf, b.ninf), b_not(nan)),
            np_=a._np(b))
    def _neg(a):
        return SF(_vneg(a.v), nan=a.nan, pinf=a.ninf, ninf=a.pinf, np_=a.np_)
    def _mul(a, b):
        v = _vmul(a.v, b.v)
        if a.simple and b.simple:
            return SF(v, np_=a._np(b))
        ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
        azero = b_and(a.fin(), a.v == 0)
        bzero = b_and(b.fin(), b.v == 0)
        nan = b_or(a.nan, b.nan, b_and(ainf, bzero), b_and(azero, binf))
        apos = b_or(a.pinf, b_and(a.fin(), a.v > 0))
        bpos = b_or(b.pinf, b_and(b.fin(), b.v > 0))
        inf = b_and(b_or(ainf, binf), b_not(nan))
        same = apos == bpos
        return SF(v, nan=nan, pinf=b_and(inf, same),
                  ninf=b_and(inf, b_not(same)), np_=a._np(b))
    def _div(a, b):
        """True division. Forks on a zero divisor."""
        bz = b_and(b.fin(), b.v == 0)
        if bool(mkb(bz)):
            if not a._np(b):
                raise ZeroDivisionError("float division by zero")
            return SF(
                z3.RealVal(0),
                nan=b_or(a.nan, b_and(a.fin(), a.v == 0)),
                pinf=b_or(a.pinf, b_and(a.fin(), a.v > 0)),
                ninf=b_or(a.ninf, b_and(a.fin(), a.v < 0)), np_=True)
        if a.simple and b.simple:
            return SF(_vdiv(a.v, b.v), np_=a._np(b))
        ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
        nan = b_or(a.nan, b.nan, b_and(ainf, binf))
        apos = b_or(a.pinf, b_and(a.fin(), a.v > 0))
        bpos = b_or(b.pinf, b_and(b.fin(), b.v > 0))
        inf = b_and(ainf, b_not(nan))
        same = apos == bpos
        v = z3.If(b_and(b.fin(), b.v != 0), _vdiv(a.v, z3.If(
            b.v == 0, z3.RealVal(1), b.v)), z3.RealVal(0))
        return SF(v, nan=nan, pinf=b_and(inf, same),
                  ninf=b_and(inf, b_not(same)), np_=a._np(b))

    def __add__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._add(self, o)
    __radd__ = __add__
    def __sub__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._add(self, SF._neg(o))
    def __rsub__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._add(o, SF._neg(self))
    def __mul__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._mul(self, o)
    __rmul__ = __mul__
    def __truediv__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._div(self, o)
    def __rtruediv__(self, other):
        o = lift(other)
        return NotImplemented if o is None else SF._div(o, self)
    def __neg__(self): return SF._neg(self)
    def __pos__(self): return self
    def __abs__(self):
        if self.simple:
            return SF(z3.If(self.v < 0, -self.v, self.v), np_=self.np_)
        return SF(z3.If(self.v < 0, -self.v, self.v), nan=self.nan,
                  pinf=b_or(self.pinf, self.ninf), np_=self.np_)
    def __floordiv__(self, other):
        q = self / other
        return q.floor() if isinstance(q, SF) else NotImplemented
    def __rfloordiv__(self, other):
        q = other / self
        return q.floor() if isinstance(q, SF) else NotImplemented
    def __mod__(self, other):
        q = (self / other).floor()
        return self - q * other
    def __rmod__(self, other):
        return lift(other) % self
    def __divmod__(self, other):
        return self // other, self % other
    def __pow__(self, other):
        if isinstance(other, SI):
            other = other.concretize()
        if is_num(other):
            f = float(other)
            if f.is_integer() and abs(f) <= 8:
                n = int(abs(f))
                r = SF(z3.RealVal(1), np_=self.np_)
                for _ in range(n): r = r * self
                return r if f >= 0 else 1 / r
            if f == 0.5:
                return self.sqrt()
        return _eng.CUR.uf('pow', self, lift(other))
    def __rpow__(self, other):
        return _eng.CUR.uf('pow', lift(other), self)
    def _int_term(self):
        """Truncation toward zero, as z3 Int."""
        e = _eng.CUR
        if not self.simple:
            if bool(self.isnan()):
                raise ValueError("cannot convert float NaN to integer")
            if bool(self.isinf()):
                raise OverflowError("cannot convert float infinity to integer")
        if bool(mkb(self.v >= 0)): return z3.ToInt(self.v)
        return -z3.ToInt(-self.v)
    def __trunc__(self): return SI(self._int_term())
    def trunc(self):
        return SF(z3.ToReal(self._int_term()), np_=self.np_)
    def __floor__(self): return SI(z3.ToInt(self.v))
    def __ceil__(self): return SI(-z3.ToInt(-self.v))
    def floor(self):
        return SF(z3.ToReal(z3.ToInt(self.v)), nan=self.nan,
                  pinf=self.pinf, ninf=self.ninf, np_=self.np_)
    def ceil(self):
        return SF(-z3.ToReal(z3.ToInt(-self.v)), nan=self.nan,
                  pinf=self.pinf, ninf=self.ninf, np_=self.np_)
    def rint(self):
        """Round half to even."""
        fl = z3.ToInt(self.v)
        frac = self.v - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        up = z3.Or(frac > half, z3.And(frac == half, fl % 2 == 1))
        return SF(z3.ToReal(z3.If(up, fl + 1, fl)), nan=self.nan,
                  pinf=self.pinf, ninf=self.ninf, np_=self.np_)
    def __round__(self, n=None):
        if n in (None,):
            return SI(z3.ToInt(self.rint().v))
        if n == 0: return self.rint()
        return (self * 10**n).rint() / 10**n
    def round(self, n=0, out=None): return self.__round__(n)
    def sqrt(self): return _eng.CUR.sqrt(self)
    def exp(self): return _eng.CUR.uf('exp', self)
    def log10(self): return _eng.CUR.uf('log10', self)
    def log(self): return _eng.CUR.uf('log', self)
    def sin(self): return _eng.CUR.uf('sin', self)
    def cos(self): return _eng.CUR.uf('cos', self)
    def square(self): return self * self
    def absolute(self): return abs(self)
    fabs = absolute
    def __float__(self):
        # Reached only from C code that insists on a C double
        return _eng.CUR.unsupported("C-level float() of a symbolic float")
    def __int__(self):
        return SI(self._int_term()).concretize()
    def __repr__(self): return _eng.CUR.token(self, '')
    __str__ = __repr__
    def __format__(self, spec): return _eng.CUR.token(self, spec)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self):
        return (_eng.rebuild, (_eng.stash(self),))
    def tobytes(self): return SymBytes([self])


def _f(x): return FALSE if x is None else x

def _is0(t): return z3.is_rational_value(t) and t.as_fraction() == 0
def _is1(t): return z3.is_rational_value(t) and t.as_fraction() == 1
def _isq(t): return z3.is_rational_value(t)

def _vadd(a, b):
    if _is0(a): return b
    if _is0(b): return a
    if _isq(a) and _isq(b):
        return _real_const(a.as_fraction() + b.as_fraction())
    return a + b
def _vneg(a):
    if _isq(a): return _real_const(-a.as_fraction())
    return -a
def _vmul(a, b):
    if _is0(a) or _is0(b): return z3.RealVal(0)
    if _is1(a): return b
    if _is1(b): return a
    if _isq(a) and _isq(b):
        return _real_const(a.as_fraction() * b.as_fraction())
    return a * b
def _vdiv(a, b):
    if _is1(b): return a
    if _is0(a): return a
    if _isq(b) and not _is0(b):
        return _vmul(a, _real_const(1 / b.as_fraction()))
    return a / b


class SI(SymbolicNumber):
    """Symbolic integer."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    __array_ufunc__ = _ufunc
    __array_priority__ = 1000.0
    def concretize(self):
        """Forks until a single concrete value remains."""
        t = z3.simplify(self.t)
        if z3.is_int_value(t): return t.as_long()
        return _eng.CUR.concretize_int(t)
    def __index__(self): return self.concretize()
    def __int__(self): return self.concretize()
    def __float__(self): return float(self.concretize())
    def __hash__(self): return 0
    def __bool__(self): return bool(mkb(self.t != 0))
    def __repr__(self): return str(self.concretize())
    def __str__(self): return str(self.concretize())
    def __format__(self, spec): return format(self.concretize(), spec)
    def _o(self, other):
        if isinstance(other, SI): return other.t
        if isinstance(other, SB): return z3.If(
                other.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(other, (bool, int, np.integer, np.bool_)):
            return z3.IntVal(int(other))
        return None
    def _cmp(self, other, op, fop):
        o = self._o(other)
        if o is not None: return mkb(op(self.t, o))
        f = lift(other)
        if f is None: return NotImplemented
        return fop(lift(self), f)
    def __lt__(self, o): return self._cmp(o, operator.lt, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge, operator.ge)
    def __eq__(self, o):
        r = self._cmp(o, operator.eq, operator.eq)
        if r is NotImplemented:
            return r if isinstance(o, np.ndarray) else False
        return r
    def __ne__(self, o):
        r = self._cmp(o, operator.ne, operator.ne)
        if r is NotImplemented:
            return r if isinstance(o, np.ndarray) else True
        return r
    def _bin(self, other, iop, fop, swap=False):
        o = self._o(other)
        if o is not None and iop is not None:
            return SI(iop(o, self.t) if swap else iop(self.t, o))
        f = lift(other)
        if f is None: return NotImplemented
        return fop(f, lift(self)) if swap else fop(lift(self), f)
    def __add__(self, o): return self._bin(o, operator.add, operator.add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, operator.sub, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul, operator.mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, None, operator.truediv)
    def __rtruediv__(self, o): return self._bin(
            o, None, operator.truediv, True)
    def __floordiv__(self, o):
        ot = self._o(o)
        if ot is not None and z3.is_int_value(ot) and ot.as_long() > 0:
            return SI(self.t / ot)
        return lift(self) // o
    def __mod__(self, o):
        ot = self._o(o)
        if ot is not None and z3.is_int_value(ot) and ot.as_long() > 0:
            return SI(self.t % ot)
        return lift(self) % o
    def __neg__(self): return SI(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SI(z3.If(self.t < 0, -self.t, self.t))
    def __pow__(self, o):
        return lift(self) ** o
    def __rpow__(self, o):
        return o ** self.concretize()
    def __round__(self, n=None): return self
    def floor(self): return self
    def ceil(self): return self
    def rint(self): return self
    def sqrt(self): return lift(self).sqrt()
    def isnan(self): return False
    def isinf(self): return False
    def isfinite(self): return True
    def item(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self):
        return (_eng.rebuild, (_eng.stash(self),))


class SymBytes(object):
    """
    The bytes image of symbolic numbers: equal iff the numbers are.
    """
    def __init__(self, items): self.items = list(items)
    def __add__(self, other):
        if isinstance(other, SymBytes):
            return SymBytes(self.items + other.items)
        if isinstance(other, bytes):
            return SymBytes(self.items + [other])
        return NotImplemented
    def __radd__(self, other):
        return SymBytes([other] + self.items)
    def __eq__(self, other):
        if isinstance(other, SymBytes): return sym_eq(self.items, other.items)
        return False
    def __ne__(self, other):
        r = self == other
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): return 0
    def join(self, seq):
        out = []
        for k, x in enumerate(seq):
            if k: out.extend(self.items)
            out.extend(x.items if isinstance(x, SymBytes) else [x])
        return SymBytes(out)


class SymHash(int):
    """
    Result of hash() on something symbolic: an int (so that it may be
    returned from __hash__) whose equality is that of the thing hashed.
    """
    def __new__(cls, thing):
        self = int.__new__(cls, 0)
        self.thing = thing
        return self
    def __eq__(self, other):
        if isinstance(other, SymHash):
            return sym_eq(self.thing, other.thing)
        return False
    def __ne__(self, other):
        r = self == other
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): return 0
    def __add__(self, n):
        # Same distance from an equal hash
        thing, m = self.thing if isinstance(self.thing, HashPlus) \
            else (self.thing, 0)
        return SymHash(HashPlus((thing, m+n)) if m+n else thing)
    __radd__ = __add__
    def __sub__(self, n): return self + (-n)
    def __reduce__(self):
        return (_eng.rebuild, (_eng.stash(self),))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class HashPlus(tuple):
    """Something hashed, and the number added to its hash."""


def sym_eq(a, b):
    """
    Deep equality as a bool or an SB (does not fork).
    """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b):
            e = sym_eq(x, y)
            if e is False: return False
            if e is True: continue
            r = e if r is True else (r & e)
        return r
    if isinstance(a, SymBytes) and isinstance(b, SymBytes):
        return sym_eq(a.items, b.items)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return sym_eq(
            list(np.asarray(a, dtype=object).ravel()),
            list(np.asarray(b, dtype=object).ravel()))
    r = (a == b)
    if isinstance(r, (bool, SB)): return r
    return bool(r)


def has_sym(x, depth=4):
    """
    Does the (possibly nested) value hold anything symbolic?
    """
    if isinstance(x, (SF, SI, SB, SymBytes, SymHash)): return True
    if isinstance(x, np.ndarray):
        if x.dtype != object: return False
        return any(has_sym(y, depth-1) for y in x.ravel().tolist())
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth-1) for y in x)
    return False


def ite(c, a, b):
    """
    Merges two values under a condition without forking, if they are
    both numbers; otherwise forks.
    """
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if not isinstance(c, SB):
        return a if c else b
    if a is b: return a
    if isinstance(a, SI) and isinstance(b, SI):
        return SI(z3.If(c.t, a.t, b.t))
    fa, fb = lift(a), lift(b)
    if fa is None or fb is None:
        return a if bool(c) else b
    def fl(x, y):
        if x is None and y is None: return None
        return b_or(b_and(c.t, _f(x)), b_and(b_not(c.t), _f(y)))
    v = fa.v if fa.v.eq(fb.v) else z3.If(c.t, fa.v, fb.v)
    return SF(v, nan=fl(fa.nan, fb.nan), pinf=fl(fa.pinf, fb.pinf),
              ninf=fl(fa.ninf, fb.ninf), np_=fa.np_ or fb.np_)


numbers.Real.register(SF)
numbers.Integral.register(SI)

"""Extended reals: a float element is a real term (finite) or an Fl carrying NaN/+inf/-inf flags.

Arithmetic is exact real arithmetic with IEEE rules for the special values (signed zeros are not
distinguished: 1/0 is treated as +inf by the sign of the numerator).
"""
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, and_, or_, not_, ite, lt0, eq


class Unsupported(Exception):
    pass


class Fl:
    __slots__ = ("r", "nan", "pinf", "ninf")

    def __init__(self, r, nan=FALSE, pinf=FALSE, ninf=FALSE):
        self.r, self.nan, self.pinf, self.ninf = r, nan, pinf, ninf

    def __repr__(self):
        return f"Fl({self.r}; nan={self.nan} +inf={self.pinf} -inf={self.ninf})"


def mkf(r, nan=FALSE, pinf=FALSE, ninf=FALSE):
    if nan is FALSE and pinf is FALSE and ninf is FALSE:
        return r
    return Fl(r, nan, pinf, ninf)


PINF = Fl(ZERO, FALSE, TRUE, FALSE)
NINF = Fl(ZERO, FALSE, FALSE, TRUE)
NAN = Fl(ZERO, TRUE, FALSE, FALSE)


def R(x):
    return x.r if isinstance(x, Fl) else x


def nan(x):
    return x.nan if isinstance(x, Fl) else FALSE


def pinf(x):
    return x.pinf if isinstance(x, Fl) else FALSE


def ninf(x):
    return x.ninf if isinstance(x, Fl) else FALSE


def isinf(x):
    return or_(x.pinf, x.ninf) if isinstance(x, Fl) else FALSE


def fin(x):
    return and_(not_(x.nan), not_(x.pinf), not_(x.ninf)) if isinstance(x, Fl) else TRUE


def from_float(v):
    v = float(v)
    if v != v:
        return NAN
    if v == float("inf"):
        return PINF
    if v == float("-inf"):
        return NINF
    return tm.const(Fraction(v))


def to_float(x):
    """concrete value or None"""
    if isinstance(x, Fl):
        if x.nan is TRUE:
            return float("nan")
        if x.pinf is TRUE and x.nan is FALSE and x.ninf is FALSE:
            return float("inf")
        if x.ninf is TRUE and x.nan is FALSE and x.pinf is FALSE:
            return float("-inf")
        if x.nan is FALSE and x.pinf is FALSE and x.ninf is FALSE and x.r.op == "const":
            return float(x.r.val)
        return None
    if x.op == "const":
        return float(x.val)
    return None


def _ispos(x):
    return or_(pinf(x), and_(fin(x), lt0(tm.neg(R(x)))))


def _isneg(x):
    return or_(ninf(x), and_(fin(x), lt0(R(x))))


def _iszero(x):
    return and_(fin(x), eq(R(x), ZERO))


# hook: the context can decide definedness questions with the solver
DECIDE = [None]


def decided(c):
    """c (bool term) simplified with the solver's help if possible."""
    if c is TRUE or c is FALSE:
        return c
    if DECIDE[0] is not None:
        r = DECIDE[0](c)
        if r is not None:
            return TRUE if r else FALSE
    return c


def neg(a):
    if isinstance(a, Fl):
        return mkf(tm.neg(a.r), a.nan, a.ninf, a.pinf)
    return tm.neg(a)


def add(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return tm.add(a, b)
    n = or_(nan(a), nan(b), and_(pinf(a), ninf(b)), and_(ninf(a), pinf(b)))
    p = and_(or_(pinf(a), pinf(b)), not_(n))
    m = and_(or_(ninf(a), ninf(b)), not_(n))
    return mkf(tm.add(R(a), R(b)), n, p, m)


def sub(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return tm.sub(a, b)
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return tm.mul(a, b)
    za, zb = _iszero(a), _iszero(b)
    ia, ib = isinf(a), isinf(b)
    n = or_(nan(a), nan(b), and_(ia, zb), and_(za, ib))
    inf = and_(or_(ia, ib), not_(n))
    if inf is FALSE:
        return mkf(tm.mul(R(a), R(b)), n)
    same = or_(and_(_ispos(a), _ispos(b)), and_(_isneg(a), _isneg(b)))
    return mkf(tm.mul(R(a), R(b)), n, and_(inf, same), and_(inf, not_(same)))


def div(a, b):
    if isinstance(b, T):
        z = decided(eq(b, ZERO))
    else:
        z = decided(_iszero(b))
    if isinstance(a, T) and isinstance(b, T) and z is FALSE:
        return tm.div(a, b)
    ia, ib = isinf(a), isinf(b)
    za = _iszero(a)
    n = or_(nan(a), nan(b), and_(za, z), and_(ia, ib))
    inf = and_(or_(ia, and_(z, not_(za))), not_(n))
    # sign: denominators equal to zero are taken as +0
    bpos = or_(_ispos(b), z)
    same = or_(and_(_ispos(a), bpos), and_(_isneg(a), _isneg(b)))
    r = tm.div(R(a), R(b))
    r = ite(ib, ZERO, r)
    return mkf(r, n, and_(inf, same), and_(inf, not_(same)))


def exp(a):
    if isinstance(a, T):
        return tm.exp(a)
    return mkf(ite(a.ninf, ZERO, tm.exp(a.r)), a.nan, a.pinf, FALSE)


def log(a):
    r = R(a)
    z = decided(and_(fin(a), eq(r, ZERO)))
    n = decided(or_(and_(fin(a), lt0(r)), ninf(a)))
    return mkf(tm.log(r), or_(nan(a), n), pinf(a), z)


def log1p(a):
    return log(add(a, ONE))


def expm1(a):
    return sub(exp(a), ONE)


def sqrt(a):
    r = R(a)
    n = decided(or_(and_(fin(a), lt0(r)), ninf(a)))
    return mkf(tm.sqrt(r), or_(nan(a), n), pinf(a), FALSE)


def tanh(a):
    if isinstance(a, T):
        return tm.tanh(a)
    return mkf(ite(a.pinf, ONE, ite(a.ninf, tm.const(-1), tm.tanh(a.r))), a.nan)


def logistic(a):
    return div(ONE, add(ONE, exp(neg(a))))


def abs_(a):
    if isinstance(a, T):
        return tm.abs_(a)
    return mkf(tm.abs_(a.r), a.nan, or_(a.pinf, a.ninf), FALSE)


def sign(a):
    if isinstance(a, T):
        return ite(lt0(a), tm.const(-1), ite(lt0(tm.neg(a)), ONE, ZERO))
    return mkf(ite(_isneg(a), tm.const(-1), ite(_ispos(a), ONE, ZERO)), a.nan)


def select(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    # a non-finite branch's real part is irrelevant: reuse the other branch when statically special
    ra, rb = R(a), R(b)
    if isinstance(a, Fl) and fin(a) is FALSE:
        ra = rb
    if isinstance(b, Fl) and fin(b) is FALSE:
        rb = ra
    return mkf(ite(c, ra, rb), tm.bite(c, nan(a), nan(b)), tm.bite(c, pinf(a), pinf(b)),
               tm.bite(c, ninf(a), ninf(b)))


def lt(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return tm.lt(a, b)
    ok = and_(not_(nan(a)), not_(nan(b)))
    ff = and_(fin(a), fin(b), tm.lt(R(a), R(b)))
    return and_(ok, or_(and_(ninf(a), not_(ninf(b))), and_(pinf(b), not_(pinf(a))), ff))


def le(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return tm.le(a, b)
    return or_(lt(a, b), feq(a, b))


def feq(a, b):
    """IEEE =="""
    if isinstance(a, T) and isinstance(b, T):
        return tm.eq(a, b)
    return or_(and_(pinf(a), pinf(b)), and_(ninf(a), ninf(b)), and_(fin(a), fin(b), tm.eq(R(a), R(b))))


def same(a, b):
    """identical value (NaN equals NaN): used in obligations"""
    if isinstance(a, T) and isinstance(b, T):
        return tm.eq(a, b)
    return or_(and_(nan(a), nan(b)), feq(a, b))


def max_(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if tm.le(a, b) is TRUE:
            return b
        if tm.le(b, a) is TRUE:
            return a
        c = tm.lt(a, b)
        return ite(c, b, a)
    r = select(lt(a, b), b, a)
    if nan(a) is FALSE and nan(b) is FALSE:
        return r
    n = or_(nan(a), nan(b))
    return mkf(R(r), n, and_(pinf(r), not_(n)), and_(ninf(r), not_(n)))


def min_(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if tm.le(a, b) is TRUE:
            return a
        if tm.le(b, a) is TRUE:
            return b
        c = tm.lt(a, b)
        return ite(c, a, b)
    r = select(lt(a, b), a, b)
    if nan(a) is FALSE and nan(b) is FALSE:
        return r
    n = or_(nan(a), nan(b))
    return mkf(R(r), n, and_(pinf(r), not_(n)), and_(ninf(r), not_(n)))


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    if isinstance(a, T):
        return tm.powi(a, n)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def uninterp(name, *args):
    if all(isinstance(a, T) for a in args):
        return tm.fn(name, *args)
    n = or_(*[nan(a) for a in args])
    if all(isinf(a) is FALSE for a in args):
        return mkf(tm.fn(name, *[R(a) for a in args]), n)
    raise Unsupported(f"{name} of a possibly infinite value")


def subst_elem(x, mp):
    if isinstance(x, Fl):
        r, a, b, c = tm.subst([x.r, x.nan, x.pinf, x.ninf], mp)
        return mkf(r, a, b, c)
    return tm.subst([x], mp)[0]


def elem_terms(x):
    if isinstance(x, Fl):
        return [x.r, x.nan, x.pinf, x.ninf]
    return [x]

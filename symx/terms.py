"""Hash-consed term DAG over reals, booleans and PRNG keys.

Real terms (sort 'R'):
  const(Fraction) | var | u(key,idx) | nrm(key,idx) | app(name,args)   -- atoms
  fn(name,args)  exp log sqrt tanh ...                                  -- atoms
  ite(c,a,b)                                                            -- atom
  mon  ((atom,exp),...)      product of atoms (a 'sum' may be an atom here)
  sum  (const, ((mon|atom,coef),...))
Bool terms (sort 'B'): true false bvar bapp not and or iff lt0 eq0
Key terms (sort 'K'):  root(name) child(key,i) fold(key,i)
Other symbolic bit-level sorts used only inside the random generator: 'KD','BITS'.
"""
from fractions import Fraction
import math
import numpy as np

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "args", "val", "id", "sort", "_bnd", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.id = _COUNT[0]
        t._bnd = None
        _COUNT[0] += 1
        _TABLE[key] = t
    return t


def reset():
    """Forget all terms (used between harnesses to bound memory)."""
    pass


# ---------------------------------------------------------------- booleans
TRUE = mk("true", sort="B")
FALSE = mk("false", sort="B")


def bconst(b):
    return TRUE if b else FALSE


def bvar(name):
    return mk("bvar", val=name, sort="B")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), sort="B")


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                s[y.id] = y
        else:
            s[x.id] = x
    for y in s.values():
        n = y.args[0] if y.op == "not" else None
        if n is not None and n.id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("and", [s[k] for k in sorted(s)], sort="B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is not_(b):
        return FALSE
    neg = False
    if a.op == "not":
        a, neg = a.args[0], not neg
    if b.op == "not":
        b, neg = b.args[0], not neg
    if a.id > b.id:
        a, b = b, a
    r = mk("iff", (a, b), sort="B")
    return not_(r) if neg else r


def implies(a, b):
    return or_(not_(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return or_(and_(c, a), and_(not_(c), b))


# ---------------------------------------------------------------- reals
F0, F1 = Fraction(0), Fraction(1)


def const(x):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, (bool, np.bool_)):
        f = Fraction(int(x))
    elif isinstance(x, (int, np.integer)):
        f = Fraction(int(x))
    else:
        f = Fraction(float(x))
    return mk("const", val=f)


ZERO, ONE = const(0), const(1)


def var(name):
    return mk("var", val=name)


def is_const(t):
    return t.op == "const"


def _split(t):
    """t -> (const, {factor: coef})"""
    if t.op == "const":
        return t.val, ()
    if t.op == "sum":
        c, coefs = t.val
        return c, tuple(zip(t.args, coefs))
    return F0, ((t, F1),)


def _mksum(c, d):
    items = [(m, k) for m, k in d.items() if k != 0]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda mk_: mk_[0].id)
    return mk("sum", [m for m, _ in items], (c, tuple(k for _, k in items)))


SNAP = Fraction(1, 1000000)


def _snap(a, b):
    """a+b, with constants that cancel up to float32 rounding taken as cancelling exactly"""
    r = a + b
    if r != 0 and a != 0 and b != 0 and abs(r) < SNAP * max(abs(a), abs(b)):
        return F0
    return r


def add(*ts):
    if len(ts) == 2:
        a, b = ts
        if a is ZERO:
            return b
        if b is ZERO:
            return a
    c = F0
    d = {}
    for t in ts:
        c0, items = _split(t)
        c = _snap(c, c0)
        for m, k in items:
            d[m] = _snap(d.get(m, F0), k)
    # merge ites with equal conditions when both have constant branches / complement
    return _mksum(c, d)


def lin(pairs, c=F0):
    d = {}
    c = Fraction(c)
    for t, k in pairs:
        c0, items = _split(t)
        c = _snap(c, c0 * k)
        for m, kk in items:
            d[m] = _snap(d.get(m, F0), kk * k)
    return _mksum(c, d)


def scale(t, k):
    if k == 0:
        return ZERO
    if k == 1:
        return t
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if is_const(a) and is_const(b):
            return ite(t.args[0], const(a.val * k), const(b.val * k))
    c, items = _split(t)
    return _mksum(c * k, {m: kk * k for m, kk in items})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _factor(t):
    """t -> (coef, {atom: exponent})"""
    if t.op == "const":
        return t.val, {}
    if t.op == "mon":
        return F1, dict(zip(t.args, t.val))
    if t.op == "sum":
        c, coefs = t.val
        if c == 0 and len(t.args) == 1:
            k, f = _factor(t.args[0])
            return coefs[0] * k, f
        # normalise the sum: leading coefficient 1 (highest id term)
        lead = coefs[-1]
        if lead != 1:
            t2 = scale(t, 1 / lead)
            return lead, {t2: F1}
        return F1, {t: F1}
    return F1, {t: F1}


def _mkmon(coef, f):
    items = [(a, e) for a, e in f.items() if e != 0]
    if coef == 0:
        return ZERO
    if not items:
        return const(coef)
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], coef)
    # even powers of sqrt atoms
    changed = False
    g = {}
    extra = []
    for a, e in items:
        if a.op == "fn" and a.val == "sqrt" and abs(e) >= 2 and e.denominator == 1:
            q, r = divmod(abs(int(e)), 2)
            s = 1 if e > 0 else -1
            extra.append((a.args[0], s * q))
            if r:
                g[a] = g.get(a, F0) + s * r
            changed = True
        else:
            g[a] = g.get(a, F0) + e
    if changed:
        t = _mkmon(coef, g)
        for a, q in extra:
            t = mul(t, powi(a, q))
        return t
    items.sort(key=lambda ae: ae[0].id)
    m = mk("mon", [a for a, _ in items], tuple(e for _, e in items))
    return scale(m, coef)


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == "const":
        return scale(b, a.val)
    if b.op == "const":
        return scale(a, b.val)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and is_const(x.args[1]) and is_const(x.args[2]):
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    ca, fa = _factor(a)
    cb, fb = _factor(b)
    f = dict(fa)
    for k, e in fb.items():
        f[k] = f.get(k, F0) + e
    return _mkmon(ca * cb, f)


def _common(t):
    """(common factor, rest) of a sum whose addends share a monomial; None if they share nothing"""
    c, coefs = t.val
    if c != 0 or len(t.args) < 2:
        return None
    fs = [_factor(a) for a in t.args]
    com = dict(fs[0][1])
    for _, f in fs[1:]:
        com = {a: (min(e, f[a]) if e > 0 else max(e, f[a])) for a, e in com.items() if a in f and (e > 0) == (f[a] > 0)}
        if not com:
            return None
    rest = ZERO
    for (k, f), co in zip(fs, coefs):
        g = dict(f)
        for a, e in com.items():
            g[a] = g[a] - e
        rest = add(rest, _mkmon(k * co, g))
    return _mkmon(F1, com), rest


def powi(t, n):
    """t**n for Fraction/int n (fractional only for positive atoms)."""
    n = Fraction(n)
    if n == 0:
        return ONE
    if n == 1:
        return t
    if t.op == "const" and n.denominator == 1:
        if t.val == 0 and n < 0:
            return ZERO  # guarded by the caller's flags
        return const(t.val ** int(n))
    if t.op == "ite" and is_const(t.args[1]) and is_const(t.args[2]):
        return ite(t.args[0], powi(t.args[1], n), powi(t.args[2], n))
    if n < 0 and n.denominator == 1 and t.op == "sum":
        cf = _common(t)
        if cf is not None:
            return mul(powi(cf[0], n), powi(cf[1], n))
    c, f = _factor(t)
    if n.denominator == 1:
        if c == 0:
            return ZERO
        return _mkmon(c ** int(n), {a: e * n for a, e in f.items()})
    assert c == 1
    return _mkmon(F1, {a: e * n for a, e in f.items()})


def inv(t):
    return powi(t, -1)


def div(a, b):
    return mul(a, inv(b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b))


def lt0(d):
    """d < 0"""
    if d.op == "const":
        return bconst(d.val < 0)
    lo, ls, hi, hs = bounds(d)
    if hi is not None and (hi < 0 or (hi == 0 and hs)):
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    # normalise positive scale
    if d.op == "sum":
        k = abs(d.val[1][-1])
        if k != 1:
            d = scale(d, 1 / k)
    if d.op == "ite" and is_const(d.args[1]) and is_const(d.args[2]):
        return bite(d.args[0], lt0(d.args[1]), lt0(d.args[2]))
    return mk("lt0", (d,), sort="B")


def _explike(t):
    """a positive product of powers of exponentials"""
    if t.op not in ("fn", "mon", "sum"):
        return False
    c, f = _factor(t)
    return c > 0 and bool(f) and all(a.op == "fn" and a.val == "exp" for a in f)


def _nonneg_atom(t):
    if t.op in ("sum", "ite", "const"):
        return t.op == "const" and t.val >= 0
    lo = bounds(t)[0]
    return lo is not None and lo >= 0


def lt(a, b):
    # comparisons with exponentials are made on the log scale
    for x, y, flip in ((a, b, False), (b, a, True)):
        if y.op == "ite" and (_explike(y.args[1]) or _explike(y.args[2])) and (_explike(x) or _nonneg_atom(x)):
            r = [lt(z, x) if flip else lt(x, z) for z in y.args[1:]]
            return bite(y.args[0], r[0], r[1])
    ea, eb = _explike(a), _explike(b)
    if ea and eb or ea and is_const(b) and b.val > 0 or eb and is_const(a) and a.val > 0:
        if not (is_const(a) and a.val != 1 or is_const(b) and b.val != 1):
            return lt0(sub(log(a), log(b)))
    elif eb and _nonneg_atom(a):
        z = eq(a, ZERO)
        return or_(z, and_(not_(z), lt0(sub(log(a), log(b)))))
    elif ea and _nonneg_atom(b):
        return and_(not_(eq(b, ZERO)), lt0(sub(log(a), log(b))))
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    d = sub(a, b)
    if d.op == "const":
        return bconst(d.val == 0)
    lo, ls, hi, hs = bounds(d)
    if lo is not None and (lo > 0 or (lo == 0 and ls)):
        return FALSE
    if hi is not None and (hi < 0 or (hi == 0 and hs)):
        return FALSE
    for p, q in ((a, b), (b, a)):
        if is_const(q) and p.op == "ite" and is_const(p.args[1]) and is_const(p.args[2]):
            return bite(p.args[0], bconst(p.args[1].val == q.val), bconst(p.args[2].val == q.val))
    if d.op == "sum":
        k = d.val[1][-1]
        if k != 1:
            d = scale(d, 1 / k)
    return mk("eq0", (d,), sort="B")


def min_(a, b):
    return ite(lt(a, b), a, b)


def max_(a, b):
    return ite(lt(a, b), b, a)


def abs_(a):
    lo, _, hi, _ = bounds(a)
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return neg(a)
    return ite(lt0(a), neg(a), a)


# transcendental atoms ------------------------------------------------------
def _cfn(name, v, f32=True):
    """evaluate a function on a constant in float32 (as JAX would)"""
    x = float(v)
    f = {
        "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh,
        "log1p": math.log1p, "erf": math.erf, "sin": math.sin, "cos": math.cos,
    }[name]
    return Fraction(float(np.float32(f(x))))


def exp(t):
    """exp of a linear combination is split into powers of exp(monomial)."""
    if t.op == "const":
        if t.val == 0:
            return ONE
        return const(_cfn("exp", t.val))
    c, items = _split(t)
    r = ONE
    for m, k in items:
        if m.op == "fn" and m.val == "log":
            if k.denominator == 1 or positive(m.args[0]) and m.args[0].op not in ("sum", "mon"):
                r = mul(r, powi(m.args[0], k))
                continue
            if k.denominator == 2:
                r = mul(r, powi(sqrt(m.args[0]), 2 * k))
                continue
        base = mk("fn", (m,), "exp")
        r = mul(r, powi(base, k))
    if c != 0:
        r = mul(const(_cfn("exp", c)), r)
    return r


def log(t):
    """log of a positive term (caller guards the domain)."""
    if t.op == "const":
        if t.val == 1:
            return ZERO
        if t.val <= 0:
            return ZERO
        return const(_cfn("log", t.val))
    c, f = _factor(t)
    if c > 0 and all(positive(a) for a in f) and (len(f) > 1 or c != 1 or any(e != 1 for e in f.values()) or
                                                  any(a.op == "fn" and a.val in ("exp",) for a in f)):
        r = log(const(c))
        for a, e in f.items():
            if a.op == "fn" and a.val == "exp":
                r = lin([(r, F1), (a.args[0], e)])
            elif a.op == "fn" and a.val == "sqrt" and positive(a.args[0]):
                r = lin([(r, F1), (log(a.args[0]), e / 2)])
            else:
                r = lin([(r, F1), (mk("fn", (a,), "log"), e)])
        return r
    return mk("fn", (t,), "log")


def sqrt(t):
    if t.op == "const":
        if t.val < 0:
            return ZERO
        n, d = t.val.numerator, t.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
        return const(_cfn("sqrt", t.val))
    c, f = _factor(t)
    # exp atoms: halve the exponent; positive atoms with even exponent
    out = ONE
    rest = {}
    for a, e in f.items():
        if a.op == "fn" and a.val == "exp":
            out = mul(out, _mkmon(F1, {a: e / 2}))
        elif e.denominator == 1 and e % 2 == 0 and nonneg(a):
            out = mul(out, powi(a, e / 2))
        elif e.denominator == 1 and abs(e) > 1 and positive(a):
            q = (abs(e) // 2) * (1 if e > 0 else -1)
            out = mul(out, powi(a, q))
            rest[a] = e - 2 * q
        else:
            rest[a] = e
    n, d = c.numerator, c.denominator
    if c > 0:
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            out = scale(out, Fraction(rn, rd))
            c = F1
    if not rest:
        return mul(out, sqrt(const(c))) if c != 1 else out
    if c == 1 and len(rest) > 1 and all(positive(a) for a in rest):
        for a, e in rest.items():
            out = mul(out, powi(sqrt(a), e) if e.denominator == 1 else mk("fn", (powi(a, e),), "sqrt"))
        return out
    if c == 1 and len(rest) == 1:
        (a, e), = rest.items()
        if e == -1:
            return mul(out, inv(mk("fn", (a,), "sqrt")))
    r = mk("fn", (_mkmon(c, rest),), "sqrt")
    return mul(out, r)


def tanh(t):
    if t.op == "const":
        return const(_cfn("tanh", t.val))
    # odd function: normalise sign of leading coefficient
    if t.op == "sum" and t.val[1][-1] < 0:
        return neg(mk("fn", (neg(t),), "tanh"))
    return mk("fn", (t,), "tanh")


def fn(name, *ts):
    return mk("fn", ts, name)


def app(name, *args):
    return mk("app", args, name)


def bapp(name, *args):
    return mk("bapp", args, name, sort="B")


# keys ------------------------------------------------------------------------
def key_root(name):
    return mk("root", val=name, sort="K")


def key_child(k, i):
    return mk("child", (k,), int(i), sort="K")


def key_fold(k, i):
    return mk("fold", (k,), i, sort="K")


def keydata(k, w):
    return mk("kd", (k,), w, sort="KD")


def bits(k, bw, idx):
    return mk("bits", (k,), (bw, idx), sort="BITS")


def u_atom(k, idx):
    return mk("u", (k,), idx)


def nrm_atom(k, idx):
    return mk("nrm", (k,), idx)


# ---------------------------------------------------------------- bounds
_INF = (None, False, None, False)
APP_BOUNDS = {}  # opaque function name -> (lo,ls,hi,hs)
EXTRA_BOUNDS = {}  # term -> (lo,ls,hi,hs) supplied by assumptions (per harness)


def bounds(t):
    b = EXTRA_BOUNDS.get(t)
    if b is not None:
        return b
    if t._bnd is not None and not EXTRA_BOUNDS:
        return t._bnd
    if EXTRA_BOUNDS and t._bnd is not None and t._bnd[0] == "x" and t._bnd[2] == len(EXTRA_BOUNDS):
        return t._bnd[1]
    b = _bounds(t)
    t._bnd = b if not EXTRA_BOUNDS else ("x", b, len(EXTRA_BOUNDS))
    return b


def clear_bounds():
    EXTRA_BOUNDS.clear()
    APP_BOUNDS.clear()
    for t in _TABLE.values():
        t._bnd = None


def _addb(p, q):
    if p[0] is None or q[0] is None:
        lo, ls = None, False
    else:
        lo, ls = p[0] + q[0], p[1] or q[1]
    if p[2] is None or q[2] is None:
        hi, hs = None, False
    else:
        hi, hs = p[2] + q[2], p[3] or q[3]
    return (lo, ls, hi, hs)


def _scaleb(p, k):
    if k > 0:
        return (None if p[0] is None else p[0] * k, p[1], None if p[2] is None else p[2] * k, p[3])
    return (None if p[2] is None else p[2] * k, p[3], None if p[0] is None else p[0] * k, p[1])


def _bounds(t):
    op = t.op
    if op == "const":
        return (t.val, False, t.val, False)
    if op == "u":
        return (F0, False, F1, True)
    if op == "ri":
        return (F0, False, Fraction(t.val[1] - 1), False)
    if op == "pm":
        return (F0, False, Fraction(t.val[1] - 1), False)
    if op == "app":
        return APP_BOUNDS.get(t.val, _INF)
    if op == "fn":
        v = t.val
        if v == "exp":
            a = bounds(t.args[0])
            lo, ls = F0, True
            hi, hs = None, False
            if a[0] is not None and a[0] >= 0:
                lo, ls = F1, a[1] or a[0] > 0
            if a[2] is not None and a[2] <= 0:
                hi, hs = F1, a[3] or a[2] < 0
            return (lo, ls, hi, hs)
        if v == "sqrt":
            a = bounds(t.args[0])
            if a[0] is not None and (a[0] > 0 or (a[0] == 0 and a[1])):
                return (F0, True, None, False)
            return (F0, False, None, False)
        if v == "tanh":
            a = bounds(t.args[0])
            lo, ls, hi, hs = Fraction(-1), True, F1, True
            if a[0] is not None and a[0] >= 0:
                lo, ls = F0, a[1] or a[0] > 0
            if a[2] is not None and a[2] <= 0:
                hi, hs = F0, a[3] or a[2] < 0
            return (lo, ls, hi, hs)
        if v == "log":
            a = bounds(t.args[0])
            lo, ls, hi, hs = _INF
            if a[0] is not None and a[0] >= 1:
                lo, ls = F0, (a[1] or a[0] > 1)
            if a[2] is not None and a[2] <= 1:
                hi, hs = F0, (a[3] or a[2] < 1)
            return (lo, ls, hi, hs)
        if v in ("erf", "sin", "cos"):
            return (Fraction(-1), False, F1, False)
        return _INF
    if op == "ite":
        a, b = bounds(t.args[1]), bounds(t.args[2])
        if a[0] is None or b[0] is None:
            lo, ls = None, False
        elif a[0] == b[0]:
            lo, ls = a[0], a[1] and b[1]
        else:
            lo, ls = min((a[0], a[1]), (b[0], b[1]), key=lambda p: p[0])
        if a[2] is None or b[2] is None:
            hi, hs = None, False
        elif a[2] == b[2]:
            hi, hs = a[2], a[3] and b[3]
        else:
            hi, hs = max((a[2], a[3]), (b[2], b[3]), key=lambda p: p[0])
        c = t.args[0]
        # max(a,b) / min(a,b) shapes: ite(a<b, b, a)
        if c.op == "lt0":
            d = c.args[0]
            x, y = t.args[1], t.args[2]
            k = sub(y, x)
            # cond  <=> y - x < 0 (scaled): value is max when cond means y<x... then-branch x
            if k is d or (k.op == "sum" and scale(k, 1 / abs(k.val[1][-1])) is d):
                # d = y-x <0 -> choose x : max(x,y)
                for p in (a, b):
                    if p[0] is not None and (lo is None or p[0] > lo or (p[0] == lo and p[1])):
                        lo, ls = p[0], p[1]
            k = sub(x, y)
            if k is d or (k.op == "sum" and scale(k, 1 / abs(k.val[1][-1])) is d):
                # x<y -> x : min(x,y)
                for p in (a, b):
                    if p[2] is not None and (hi is None or p[2] < hi or (p[2] == hi and p[3])):
                        hi, hs = p[2], p[3]
        return (lo, ls, hi, hs)
    if op == "mon":
        # product of one-signed factors
        sgn = 1
        strict = True
        upper = F1
        for a, e in zip(t.args, t.val):
            b = bounds(a)
            pos = b[0] is not None and b[0] >= 0
            ngt = b[2] is not None and b[2] <= 0
            st = (pos and (b[0] > 0 or b[1])) or (ngt and (b[2] < 0 or b[3]))
            if e.denominator == 1 and e % 2 == 0:
                strict = strict and st
                if upper is not None:
                    m = max(abs(b[0]), abs(b[2])) if b[0] is not None and b[2] is not None else None
                    upper = upper * m ** int(e) if m is not None and e > 0 else None
                continue
            if pos:
                strict = strict and st
            elif ngt:
                strict = strict and st
                sgn = -sgn
            else:
                return _INF
            if upper is not None:
                if e.denominator == 1 and e > 0 and b[0] is not None and b[2] is not None:
                    upper = upper * max(abs(b[0]), abs(b[2])) ** int(e)
                else:
                    upper = None
        # odd factors of unknown sign returned above
        if sgn > 0:
            return (F0, strict, upper, False)
        return (None if upper is None else -upper, False, F0, strict)
    if op == "sum":
        c, coefs = t.val
        r = (c, False, c, False)
        for m, k in zip(t.args, coefs):
            r = _addb(r, _scaleb(bounds(m), k))
            if r[0] is None and r[2] is None:
                return _INF
        return r
    return _INF


ORACLE = [None]  # optional solver-backed positivity oracle: f(boolterm) -> bool


def positive(t):
    lo, ls, _, _ = bounds(t)
    if lo is not None and (lo > 0 or (lo == 0 and ls)):
        return True
    if ORACLE[0] is not None and t.op != "const":
        return ORACLE[0](lt0(neg(t)))
    return False


def nonneg(t):
    lo, _, _, _ = bounds(t)
    if lo is not None and lo >= 0:
        return True
    if ORACLE[0] is not None and t.op != "const":
        return ORACLE[0](not_(lt0(t)))
    return False


# ---------------------------------------------------------------- traversal
def postorder(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen:
                st.append((a, False))
    return out


ATOM_OPS = ("var", "bvar", "u", "nrm", "ri", "pm", "app", "bapp")


def support(*roots):
    """leaf atoms (vars, draws, function applications including nested ones)"""
    return [t for t in postorder(roots) if t.op in ATOM_OPS]


def rebuild(t, args):
    op, v = t.op, t.val
    if op == "sum":
        c, coefs = v
        return lin(list(zip(args, coefs)), c)
    if op == "mon":
        r = ONE
        for a, e in zip(args, v):
            r = mul(r, powi(a, e))
        return r
    if op == "ite":
        return ite(*args)
    if op == "fn":
        f = {"exp": exp, "log": log, "sqrt": sqrt, "tanh": tanh}.get(v)
        return f(*args) if f else mk("fn", args, v)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "iff":
        return iff(*args)
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq(args[0], ZERO)
    return mk(op, args, v, t.sort)


def subst(roots, mp):
    """simultaneous substitution {term: term}; returns list"""
    memo = {k.id: v for k, v in mp.items()}
    for t in postorder(roots):
        if t.id in memo:
            continue
        if not t.args:
            memo[t.id] = t
            continue
        na = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, na)
    return [memo[r.id] for r in roots]


def keystr(k):
    if k.op == "root":
        return str(k.val)
    if k.op == "child":
        return keystr(k.args[0]) + "." + str(k.val)
    if k.op == "fold":
        return keystr(k.args[0]) + "~" + str(k.val)
    return show(k)


def keyroot_path(k):
    p = []
    while k.op in ("child", "fold"):
        p.append((0 if k.op == "child" else 1, k.val))
        k = k.args[0]
    return (str(k.val), tuple(reversed(p)))


def atom_name(t):
    if t.op in ("var", "bvar"):
        return str(t.val)
    if t.op in ("u", "nrm", "ri", "pm"):
        return f"{t.op}[{keystr(t.args[0])};{t.val}]"
    raise ValueError(t.op)


def show(t, depth=6):
    if depth == 0:
        return "…"
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == "const":
        return str(t.val) if t.val.denominator < 10000 else f"{float(t.val):.6g}"
    if op in ("var", "bvar"):
        return str(t.val)
    if op in ("u", "nrm", "ri", "pm"):
        return atom_name(t)
    if op == "sum":
        c, coefs = t.val
        ps = [s(m) if k == 1 else f"{k if k.denominator<1000 else float(k)}*{s(m)}" for m, k in zip(t.args, coefs)]
        if c != 0:
            ps.append(str(c if c.denominator < 1000 else float(c)))
        return "(" + " + ".join(ps) + ")"
    if op == "mon":
        return "*".join(s(a) if e == 1 else f"{s(a)}^{e}" for a, e in zip(t.args, t.val))
    if op in ("root", "child", "fold"):
        return keystr(t)
    if op in ("fn", "app", "bapp"):
        return f"{t.val}(" + ",".join(s(a) for a in t.args) + ")"
    if op == "true":
        return "true"
    if op == "false":
        return "false"
    return f"{op}" + (f"<{t.val}>" if t.val is not None else "") + "(" + ",".join(s(a) for a in t.args) + ")"


# ---------------------------------------------------------------- numeric evaluation
def keynum(k):
    """stable number standing for a PRNG key handed to an opaque function"""
    import zlib
    return (zlib.crc32(("key" + keystr(k)).encode()) % 1000003) / 1000003.0


def evaluate(roots, env, memo=None):
    """Evaluate terms with numpy (values may be arrays of samples).

    env: function(term)->value for var/bvar/u/nrm/app/bapp leaves (apps get evaluated args).
    """
    memo = {} if memo is None else memo
    with np.errstate(all="ignore"):
        for t in postorder(roots):
            if t.id in memo:
                continue
            op = t.op
            if op == "const":
                v = float(t.val)
            elif op in ("var", "bvar", "u", "nrm", "ri", "pm"):
                v = env(t, None)
            elif op in ("app", "bapp"):
                v = env(t, [memo[a.id] for a in t.args])
            elif op == "sum":
                c, coefs = t.val
                v = float(c)
                for a, k in zip(t.args, coefs):
                    v = v + float(k) * memo[a.id]
            elif op == "mon":
                v = 1.0
                for a, e in zip(t.args, t.val):
                    x = memo[a.id]
                    if e.denominator == 1:
                        v = v * (np.power(np.asarray(x, float), float(int(e))))
                    else:
                        v = v * np.power(np.asarray(x, float), float(e))
            elif op == "ite":
                v = np.where(memo[t.args[0].id], memo[t.args[1].id], memo[t.args[2].id])
            elif op == "fn":
                x = np.asarray(memo[t.args[0].id], float)
                if t.val == "erf":
                    v = np.vectorize(math.erf)(x)
                elif t.val == "erfinv":
                    from statistics import NormalDist
                    v = np.vectorize(lambda z: NormalDist().inv_cdf(min(max((z + 1) / 2, 1e-12), 1 - 1e-12)) / math.sqrt(2))(x)
                elif t.val == "trunc":
                    v = np.trunc(x)
                elif t.val.startswith("round_"):
                    v = x
                else:
                    v = {"exp": np.exp, "log": np.log, "sqrt": np.sqrt, "tanh": np.tanh,
                         "sin": np.sin, "cos": np.cos}[t.val](x)
            elif op == "true":
                v = True
            elif op == "false":
                v = False
            elif op == "not":
                v = np.logical_not(memo[t.args[0].id])
            elif op == "and":
                v = True
                for a in t.args:
                    v = np.logical_and(v, memo[a.id])
            elif op == "iff":
                v = np.equal(memo[t.args[0].id], memo[t.args[1].id])
            elif op == "lt0":
                v = np.less(memo[t.args[0].id], 0)
            elif op == "eq0":
                v = np.abs(memo[t.args[0].id]) <= 1e-9
            elif t.sort == "K":
                v = None
            elif op == "keyarg":
                v = keynum(t.args[0])
            else:
                raise ValueError("evaluate " + op)
            memo[t.id] = v
    return [memo[r.id] for r in roots]

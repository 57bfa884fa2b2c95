"""Deciding obligations with z3 (and cvc5 as a second opinion on `unknown`).

An obligation is  assumptions |= goal  over the term DAG.  Steps:
  1. numeric candidates: random points satisfying the assumptions; a point at which the goal is false
     with a margin is pinned in a solver query (sat = counterexample) -- only a search aid;
  2. the negated goal is given to the solver: unsat = holds for all values;
  3. otherwise equal subterms are merged bottom-up by solver queries (SAT sweeping) and 2 is repeated;
  4. a model whose violation cannot be re-evaluated with the true transcendental functions leaves the obligation undecided;
  5. otherwise undecided.
"""
import math
import sys
import time
from fractions import Fraction

import numpy as np

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms as tm  # noqa: E402
from .terms import FALSE, T, TRUE, ZERO  # noqa: E402

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "quick": 0, "lemmas": 0}


def q(f):
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------- lowering
class Lower:
    """term DAG -> z3 with defining constraints collected in self.side"""

    def __init__(self, perms=()):
        self.memo = {}
        self.side = []
        self.atoms = {}  # term -> z3 var for leaves/apps/fns
        self.fns = {}
        self.apps = {}
        self.invs = {}
        self.roots = {}
        self.perms = perms
        self.n = 0
        self.nonlinear = False

    def fresh(self, p):
        self.n += 1
        return z3.Real(f"{p}!{self.n}")

    def lower(self, root):
        for t in tm.postorder([root]):
            if t.id in self.memo or t.sort not in ("R", "B"):
                continue
            self.memo[t.id] = self._low(t)
        return self.memo[root.id]

    def _leaf(self, t, boolean=False):
        nm = (t.op + ":" + str(t.id))
        v = z3.Bool(nm) if boolean else z3.Real(nm)
        self.atoms[t] = v
        return v

    def _low(self, t):
        op = t.op
        m = self.memo
        if op == "const":
            return q(t.val)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvar":
            return self._leaf(t, True)
        if op == "var":
            v = self._leaf(t)
            self._bnd(t, v)
            from . import trace as tr
            if t in tr.INT_VARS:
                lo, hi = tr.INT_VARS[t]
                self.side.append(z3.Or([v == k for k in range(lo, hi + 1)]))
            return v
        if op == "u":
            v = self._leaf(t)
            lo = 0
            self.side += [v >= lo, v < 1]
            return v
        if op == "nrm":
            return self._leaf(t)
        if op == "ri":
            v = self._leaf(t)
            self.side.append(z3.Or([v == k for k in range(t.val[1] if isinstance(t.val, tuple) else t.val)]))
            return v
        if op == "pm":
            v = self._leaf(t)
            n = t.val[1]
            self.side.append(z3.Or([v == k for k in range(n)]))
            for p in self.perms:
                if t in p:
                    for o in p:
                        if o is not t and o in self.atoms:
                            self.side.append(v != self.atoms[o])
            return v
        if op == "keyarg":
            return q(Fraction(tm.keynum(t.args[0])))
        if op in ("app", "bapp"):
            v = self._leaf(t, op == "bapp")
            self.apps.setdefault((op, t.val, len(t.args)), []).append(t)
            if op == "app":
                self._bnd(t, v)
            return v
        if op == "fn":
            v = self._leaf(t)
            self._fn(t, v)
            return v
        if op == "ite":
            return z3.If(m[t.args[0].id], m[t.args[1].id], m[t.args[2].id])
        if op == "sum":
            c, ks = t.val
            parts = [(m[a.id] if k == 1 else q(k) * m[a.id]) for a, k in zip(t.args, ks)]
            if c != 0:
                parts.append(q(c))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mon":
            ps = []
            for a, e in zip(t.args, t.val):
                ps.extend(self._pow(a, e))
            if len(ps) > 1:
                self.nonlinear = True
            return z3.Product(ps) if len(ps) > 1 else ps[0]
        if op == "not":
            return z3.Not(m[t.args[0].id])
        if op == "and":
            return z3.And([m[a.id] for a in t.args])
        if op == "iff":
            return m[t.args[0].id] == m[t.args[1].id]
        if op == "lt0":
            return self._cmp(t.args[0], True)
        if op == "eq0":
            return self._cmp(t.args[0], False)
        raise ValueError("lower " + op)

    def _cmp(self, d, strict):
        z = self.memo[d.id]
        return z < 0 if strict else z == 0

    def _bnd(self, t, v):
        lo, ls, hi, hs = tm.bounds(t)
        if lo is not None:
            self.side.append(v > q(lo) if ls else v >= q(lo))
        if hi is not None:
            self.side.append(v < q(hi) if hs else v <= q(hi))

    def _pow(self, a, e):
        if e.denominator == 1:
            n = int(e)
            if n > 0:
                return [self.memo[a.id]] * n
            return [self._inv(a)] * (-n)
        base = self._root(a, e.denominator)
        n = e.numerator
        if n > 0:
            return [base] * n
        i = self.invs.get((a.id, e.denominator))
        if i is None:
            i = self.fresh("rinv")
            self.invs[(a.id, e.denominator)] = i
            self.side += [i * base == 1, i > 0]
        return [i] * (-n)

    def _inv(self, a):
        i = self.invs.get(a.id)
        if i is None:
            i = self.fresh("inv")
            self.invs[a.id] = i
            z = self.memo[a.id]
            lo, ls, hi, hs = tm.bounds(a)
            pos = lo is not None and (lo > 0 or (lo == 0 and ls))
            neg = hi is not None and (hi < 0 or (hi == 0 and hs))
            self.nonlinear = True
            if pos or neg:
                self.side += [i * z == 1, i > 0 if pos else i < 0]
            else:
                self.side += [z3.Implies(z != 0, i * z == 1)]
        return i

    def _root(self, a, d):
        r = self.roots.get((a.id, d))
        if r is None:
            r = self.fresh("root")
            self.roots[(a.id, d)] = r
            p = r
            for _ in range(d - 1):
                p = p * r
            self.side += [r > 0, p == self.memo[a.id]]
            self.nonlinear = True
        return r

    def _fn(self, t, v):
        x = self.memo[t.args[0].id] if t.args else None
        nm = t.val
        S = self.side
        others = self.fns.setdefault(nm, [])
        if nm == "exp":
            S += [v > 0, v >= 1 + x, z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1), z3.Implies(x > 0, v > 1 + x)]
        elif nm == "log":
            S += [v <= x - 1, z3.Implies(x == 1, v == 0), z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0)]
        elif nm == "sqrt":
            lo = tm.bounds(t.args[0])[0]
            self.nonlinear = True
            if lo is not None and lo >= 0:
                S += [v >= 0, v * v == x]
            else:
                S += [v >= 0, z3.Implies(x >= 0, v * v == x)]
        elif nm == "tanh":
            S += [v > -1, v < 1, z3.Implies(x > 0, z3.And(v > 0, v < x)), z3.Implies(x < 0, z3.And(v < 0, v > x)),
                  z3.Implies(x == 0, v == 0)]
        elif nm in ("erf", "sin", "cos"):
            S += [v >= -1, v <= 1]
        if nm in ("exp", "log", "tanh", "erf"):
            if len(others) <= 6:
                for (o, ov) in others:
                    ox = self.memo[o.args[0].id]
                    dom = z3.And(x > 0, ox > 0) if nm == "log" else z3.BoolVal(True)
                    S += [z3.Implies(z3.And(dom, x < ox), v < ov), z3.Implies(z3.And(dom, ox < x), ov < v),
                          z3.Implies(x == ox, v == ov)]
        others.append((t, v))

    def congruence(self):
        """congruence axioms for opaque applications (all pairs)"""
        out = []
        for ts in self.apps.values():
            for i in range(len(ts)):
                for j in range(i):
                    a, b = ts[i], ts[j]
                    eqs = [self.memo[x.id] == self.memo[y.id] for x, y in zip(a.args, b.args) if x is not y]
                    out.append(z3.Implies(z3.And(eqs), self.atoms[a] == self.atoms[b]))
        for nm, ts in self.fns.items():
            if nm in ("exp", "log", "tanh", "erf"):
                continue
            for i in range(len(ts)):
                for j in range(i):
                    (a, va), (b, vb) = ts[i], ts[j]
                    eqs = [self.memo[x.id] == self.memo[y.id] for x, y in zip(a.args, b.args) if x is not y]
                    out.append(z3.Implies(z3.And(eqs), va == vb))
        return out


def _check(cons, timeout_ms, nonlinear, want_model=False):
    t0 = time.time()
    STATS["queries"] += 1
    res, model = z3.unknown, None
    tries = []
    if nonlinear:
        tries = [("smt", 0.4), ("nlsat", 0.6)]
    else:
        tries = [("smt", 1.0)]
    for kind, frac in tries:
        if kind == "smt":
            s = z3.Solver()
        else:
            s = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite",
                        "simplify", "tseitin-cnf", "nlsat").solver() if False else z3.SolverFor("QF_NRA")
        s.set("timeout", max(50, int(timeout_ms * frac)))
        s.add(cons)
        try:
            res = s.check()
        except z3.Z3Exception:
            res = z3.unknown
        if res == z3.sat and want_model:
            model = s.model()
        if res != z3.unknown:
            break
    STATS["time"] += time.time() - t0
    STATS[str(res)] += 1
    return res, model


# ---------------------------------------------------------------- numeric points
def _hash01(s):
    import zlib
    return (zlib.crc32(s.encode()) % 100003) / 100003.0


class Sampler:
    """random values for atoms (arrays of n samples); opaque applications are smooth pseudo-random functions"""

    def __init__(self, n, seed, perms=(), overrides=None):
        self.n = n
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.vals = {}
        self.perms = perms
        self.over = overrides or {}

    def __call__(self, t, args):
        op = t.op
        if args is not None:
            if t in self.over:
                return self.over[t]
            k0 = f"{t.val}/{len(args)}/{self.seed}"
            acc = 7 * _hash01(k0)
            for i, a in enumerate(args):
                w = 0.4 + 1.6 * _hash01(k0 + "w" + str(i))
                w = w if _hash01(k0 + "s" + str(i)) < 0.5 else -w
                acc = acc + w * np.asarray(a, float)
            v = np.sin(acc) * 1.7 + 0.6 * np.cos(1.7 * acc + 1)
            if op == "bapp":
                return v > 1.2
            lo, ls, hi, hs = tm.bounds(t)
            if lo is not None and hi is not None:
                return float(lo) + (float(hi) - float(lo)) / (1 + np.exp(-2 * v))
            if lo is not None:
                return float(lo) + np.exp(v * 0.7)
            if hi is not None:
                return float(hi) - np.exp(v * 0.7)
            return v
        if t in self.vals:
            return self.vals[t]
        if t in self.over:
            v = self.over[t]
        elif op == "bvar":
            v = self.rng.random(self.n) < 0.5
        elif op == "u":
            v = self.rng.random(self.n)
        elif op == "nrm":
            v = self.rng.standard_normal(self.n)
        elif op == "ri":
            v = self.rng.integers(0, t.val[1] if isinstance(t.val, tuple) else t.val, self.n).astype(float)
        elif op == "pm":
            for p in self.perms:
                if t in p:
                    o = np.argsort(self.rng.random((self.n, len(p))), axis=1)
                    for j, x in enumerate(p):
                        self.vals[x] = o[:, j].astype(float)
                    return self.vals[t]
            v = self.rng.integers(0, t.val[1], self.n).astype(float)
        elif op == "var":
            from . import trace as tr
            if t in tr.INT_VARS:
                lo, hi = tr.INT_VARS[t]
                v = self.rng.integers(lo, hi + 1, self.n).astype(float)
            else:
                lo, ls, hi, hs = tm.bounds(t)
                if lo is not None and hi is not None:
                    v = float(lo) + (float(hi) - float(lo)) * (0.001 + 0.998 * self.rng.random(self.n))
                elif lo is not None:
                    v = float(lo) + np.exp(self.rng.normal(-0.3, 0.8, self.n))
                elif hi is not None:
                    v = float(hi) - np.exp(self.rng.normal(-0.3, 0.8, self.n))
                else:
                    sc = np.where(self.rng.random(self.n) < 0.15, 4.0, 1.0)
                    v = self.rng.normal(0, 1.0, self.n) * sc
        else:
            raise ValueError(op)
        self.vals[t] = v
        return v


def eval_margin(goals, env, n, memo=None, mag=None):
    """three-valued evaluation: for every goal (definitely_true, definitely_false) arrays; also memo of values"""
    memo = {} if memo is None else memo
    mag = {} if mag is None else mag
    tri = {}
    full = lambda v: np.broadcast_to(np.asarray(v), (n,))
    with np.errstate(all="ignore"):
        for t in tm.postorder(goals):
            if t.id in memo:
                continue
            if t.sort == "K":
                memo[t.id] = None
                continue
            op = t.op
            if op in ("lt0", "eq0"):
                d = np.asarray(memo[t.args[0].id], float)
                m = 1e-4 * (1e-2 + np.asarray(mag[t.args[0].id], float))
                if op == "lt0":
                    tri[t.id] = (full(d < -m), full(d > m))
                    memo[t.id] = full(d < -1e-9 * m)
                else:
                    exact = np.abs(d) <= m * 1e-3
                    tri[t.id] = (full(exact), full(np.abs(d) > m))
                    memo[t.id] = full(exact)
                continue
            if op == "not":
                a = tri[t.args[0].id]
                tri[t.id] = (a[1], a[0])
                memo[t.id] = np.logical_not(memo[t.args[0].id])
                continue
            if op == "and":
                tt, ff = np.ones(n, bool), np.zeros(n, bool)
                v = np.ones(n, bool)
                for a in t.args:
                    tt = tt & tri[a.id][0]
                    ff = ff | tri[a.id][1]
                    v = v & memo[a.id]
                tri[t.id] = (tt, ff)
                memo[t.id] = v
                continue
            if op == "iff":
                a, b = tri[t.args[0].id], tri[t.args[1].id]
                tri[t.id] = ((a[0] & b[0]) | (a[1] & b[1]), (a[0] & b[1]) | (a[1] & b[0]))
                memo[t.id] = np.equal(memo[t.args[0].id], memo[t.args[1].id])
                continue
            if op in ("true", "false"):
                b = op == "true"
                tri[t.id] = (np.full(n, b), np.full(n, not b))
                memo[t.id] = np.full(n, b)
                continue
            if op in ("bvar", "bapp"):
                v = full(env(t, [memo[a.id] for a in t.args] if op == "bapp" else None)).astype(bool)
                memo[t.id] = v
                tri[t.id] = (v, ~v)
                continue
            (v,) = tm.evaluate([t], env, memo)
            if op == "sum":
                c, ks = t.val
                mg = abs(float(c))
                for a, k in zip(t.args, ks):
                    mg = mg + abs(float(k)) * mag[a.id]
            elif op == "ite":
                mg = np.where(memo[t.args[0].id], mag[t.args[1].id], mag[t.args[2].id])
            elif op == "mon":
                mg = 1.0
                for a, e in zip(t.args, t.val):
                    x = np.maximum(np.abs(np.asarray(mag[a.id], float)), 1e-30) if e > 0 else np.abs(memo[a.id])
                    mg = mg * np.power(x, float(e))
            elif op == "fn" and t.val == "exp":
                mg = np.abs(np.asarray(v, float)) * (1 + np.abs(np.asarray(mag[t.args[0].id], float)))
            elif op == "app":
                # an unknown function passes on the rounding error of its arguments
                mg = np.abs(np.asarray(v, float)) + 1.0
                for a in t.args:
                    if a.id in mag:
                        mg = mg + 1e-7 * np.abs(np.asarray(mag[a.id], float))
            else:
                mg = np.abs(np.asarray(v, float)) + (0.0 if op in ("const", "var", "u", "nrm") else 0.1)
            mag[t.id] = mg
    return [tri[g.id] for g in goals], memo


def eval_exact(goal, pt):
    """truth value of goal at a point, in exact rational arithmetic; transcendental values are enclosed in intervals.
    True / False / None (not decided)."""
    memo = {}
    F = Fraction

    def enc(x):
        f = F(float(x))
        w = abs(f) * F(1, 10**13) + F(1, 10**300)
        return (f - w, f + w)

    def out(f, up):
        # outward rounding to about 100 bits
        if f.denominator.bit_length() + f.numerator.bit_length() < 400:
            return f
        e = f.numerator.bit_length() - f.denominator.bit_length() - 100
        sc = F(2) ** e
        k = f / sc
        return F(-((-k.numerator) // k.denominator) if up else k.numerator // k.denominator) * sc

    def mulI(a, b):
        if a[0] == a[1] and b[0] == b[1]:
            p = a[0] * b[0]
            if p.denominator.bit_length() + p.numerator.bit_length() > 4000:
                return (out(p, False), out(p, True))
            return (p, p)
        ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        return (out(min(ps), False), out(max(ps), True))

    def powI(a, e):
        if e.denominator == 1:
            k = abs(int(e))
            r = (F(1), F(1))
            for _ in range(k):
                r = mulI(r, a)
            if k % 2 == 0 and r[0] < 0:
                r = (F(0), r[1])
            if e < 0:
                if r[0] <= 0 <= r[1]:
                    return None
                r = (1 / r[1], 1 / r[0])
            return r
        if a[0] <= 0:
            return None
        lo, hi = enc(float(a[0]) ** float(e)), enc(float(a[1]) ** float(e))
        return (min(lo[0], hi[0]), max(lo[1], hi[1]))

    MONO = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "erf": math.erf}
    FIX = {("exp", 0): 1, ("log", 1): 0, ("sqrt", 0): 0, ("sqrt", 1): 1, ("tanh", 0): 0, ("erf", 0): 0}
    try:
        for t in tm.postorder([goal]):
            op = t.op
            g = lambda k: memo[t.args[k].id]
            v = None
            if op == "const":
                v = (F(t.val), F(t.val))
            elif op in ("true", "false"):
                v = op == "true"
            elif t.sort == "K":
                pass
            elif op in tm.ATOM_OPS + ("ri", "pm"):
                x = pt.get(t)
                v = None if x is None else (bool(x) if t.sort == "B" else (F(x), F(x)))
            elif op == "sum":
                c, ks = t.val
                if all(memo[a.id] is not None for a in t.args):
                    lo = hi = F(c)
                    for a, k in zip(t.args, ks):
                        x = memo[a.id]
                        lo, hi = lo + k * x[0 if k > 0 else 1], hi + k * x[1 if k > 0 else 0]
                    v = (lo, hi)
            elif op == "mon":
                v = (F(1), F(1))
                for a, e in zip(t.args, t.val):
                    x = memo[a.id]
                    x = powI(x, e) if x is not None else None
                    v = mulI(v, x) if x is not None and v is not None else None
            elif op == "ite":
                c = g(0)
                v = g(1) if c is True else g(2) if c is False else None
            elif op == "fn":
                x = g(0)
                if x is not None:
                    if x[0] == x[1] and (t.val, x[0]) in FIX:
                        v = (F(FIX[t.val, x[0]]),) * 2
                    elif t.val in MONO and not (t.val == "log" and x[0] <= 0) and not (t.val == "sqrt" and x[0] < 0):
                        v = (enc(MONO[t.val](float(x[0])))[0], enc(MONO[t.val](float(x[1])))[1])
                        if t.val == "exp":
                            w = F(1, 10**12) * (1 + max(abs(x[0]), abs(x[1])))
                            v = (v[0] * (1 - w), v[1] * (1 + w))
                    elif t.val in ("sin", "cos") and x[0] == x[1]:
                        y = F(getattr(math, t.val)(float(x[0])))
                        v = (y - F(1, 10**9), y + F(1, 10**9))
            elif op == "not":
                v = None if g(0) is None else not g(0)
            elif op == "and":
                xs = [memo[a.id] for a in t.args]
                v = False if any(x is False for x in xs) else True if all(x is True for x in xs) else None
            elif op == "iff":
                v = None if g(0) is None or g(1) is None else g(0) == g(1)
            elif op == "lt0":
                x = g(0)
                v = None if x is None else True if x[1] < 0 else False if x[0] >= 0 else None
            elif op == "eq0":
                x = g(0)
                v = None if x is None else True if x[0] == x[1] == 0 else False if x[0] > 0 or x[1] < 0 else None
            memo[t.id] = v
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
    return memo[goal.id]


# ---------------------------------------------------------------- merging helper (sum-of-monomials, denominators cleared)
def clear_denominators(d):
    """numerator of d over a common denominator (a term); d = result / product of nonzero factors"""
    c, items = tm._split(d)
    fac = []
    need = {}
    for m, k in items:
        cc, f = tm._factor(m)
        fac.append((k * cc, f))
        for a, e in f.items():
            if e < 0:
                need[a] = min(need.get(a, 0), e)
    if not need:
        return d
    if c != 0:
        fac.append((c, {}))
    out = []
    for k, f in fac:
        g = dict(f)
        for a, e in need.items():
            g[a] = g.get(a, Fraction(0)) - e
        out.append((tm._mkmon(Fraction(1), g), k))
    return tm.lin(out)


_EXP = {}


def expand(t, limit=40000):
    """polynomial expansion of sums inside products (None if too large)"""
    memo = {}

    def poly_mul(a, b):
        ca, ia = tm._split(a)
        cb, ib = tm._split(b)
        if (len(ia) + 1) * (len(ib) + 1) > limit:
            raise OverflowError
        pairs = []
        for x, k in ia:
            for y, l in ib:
                pairs.append((tm.mul(x, y), k * l))
        if cb:
            pairs += [(x, k * cb) for x, k in ia]
        if ca:
            pairs += [(y, l * ca) for y, l in ib]
        return tm.lin(pairs, ca * cb)

    def ex(t):
        if t.id in memo:
            return memo[t.id]
        if t.op == "sum":
            c, ks = t.val
            r = tm.lin([(ex(a), k) for a, k in zip(t.args, ks)], c)
        elif t.op == "mon":
            base = tm.ONE
            sums = []
            for a, e in zip(t.args, t.val):
                if a.op == "sum" and e.denominator == 1 and e > 0:
                    s = ex(a)
                    sums.extend([s] * int(e))
                else:
                    base = tm.mul(base, tm.powi(a, e))
            r = base
            for s in sums:
                r = poly_mul(r, s)
            if r.op == "sum" and r is not t:
                # products of monomials may have produced new sums (sqrt^2): expand again once
                if any(m.op == "mon" and any(a.op == "sum" and e > 0 and e.denominator == 1 for a, e in zip(m.args, m.val)) for m in r.args):
                    r = ex(r)
            elif r.op == "mon" and r is not t and any(a.op == "sum" and e > 0 for a, e in zip(r.args, r.val)):
                r = ex(r)
        else:
            r = t
        memo[t.id] = r
        return r

    try:
        return ex(t)
    except (OverflowError, RecursionError):
        return None


def ring_zero(d, rounds=4):
    """is d identically zero as a rational function of its atoms?"""
    for _ in range(rounds):
        if d is ZERO:
            return True
        n = clear_denominators(d)
        e = expand(n)
        if e is None:
            return False
        if e is ZERO:
            return True
        if e is d:
            return False
        d = e
    return d is ZERO


# ---------------------------------------------------------------- the problem object
class Problem:
    """one symbolic path: assumptions, permutations, caches"""

    def __init__(self, assumptions, perms=(), seed=1, timeout_ms=8000):
        self.A = [a for a in assumptions if a is not TRUE]
        self.perms = [list(p) for p in perms]
        self.seed = seed
        self.timeout = timeout_ms
        self._pts = None
        self._known = {}
        self.log = []

    # --- quick cached entailment (definedness)
    def entails_quick(self, g, ms=250):
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        if g.id in self._known:
            return self._known[g.id]
        STATS["quick"] += 1
        L = Lower(self.perms)
        z = L.lower(g)
        za = [L.lower(a) for a in self._relevant([g])]
        r, _ = _check(za + L.side + [z3.Not(z)], ms, False)
        ok = r == z3.unsat
        self._known[g.id] = ok
        return ok

    def _relevant(self, goals):
        """assumptions connected to the goals through shared leaf atoms"""
        sup = {x.id for x in tm.support(*goals)}
        rem = [(a, {x.id for x in tm.support(a)}) for a in self.A]
        out = []
        changed = True
        while changed:
            changed = False
            for it in list(rem):
                if it[1] & sup or not it[1]:
                    out.append(it[0])
                    sup |= it[1]
                    rem.remove(it)
                    changed = True
        return out

    # --- sample points satisfying the assumptions
    def points(self, n=2000):
        if self._pts is None:
            self._pts = []
            for rnd in range(3):
                self._pts.append((Sampler(n, self.seed + 17 * rnd, self.perms), n))
        return self._pts

    def falsify(self, goal, n=1500):
        """a sample at which the assumptions definitely hold and goal is definitely false"""
        best = None
        nsat = 0
        conj = tm.and_(*self.A) if self.A else TRUE
        for rnd in range(3):
            S = Sampler(n, self.seed + 17 * rnd, self.perms)
            try:
                (ta, tg), memo = eval_margin([conj, goal], S, n)
            except (ValueError, KeyError) as e:
                self.log.append(f"numeric evaluation failed: {e!r}")
                return None, 0
            # undefined (nan) values disqualify
            ok = ta[0]
            nsat += int(ok.sum())
            bad = ok & tg[1]
            if bad.any():
                # all values finite there
                vals = [np.broadcast_to(np.asarray(v, float), (n,)) for k, v in memo.items()
                        if v is not None and np.asarray(v).dtype != object]
                fin = np.ones(n, bool)
                for t in tm.support(conj, goal):
                    v = memo.get(t.id)
                    if v is not None and t.sort == "R":
                        fin &= np.isfinite(np.broadcast_to(np.asarray(v, float), (n,)))
                        fin &= np.abs(np.broadcast_to(np.asarray(v, float), (n,))) < 1e6
                idx = np.nonzero(bad & fin)[0]
                if not len(idx):
                    idx = np.nonzero(bad & self._usable(conj, goal, memo, n))[0]
                if len(idx):
                    return self._point(conj, goal, memo, n, int(idx[0])), nsat
            # violations at a boundary (an equality where a strict change is required): decided by exact evaluation
            near = np.nonzero(np.broadcast_to(memo[conj.id], (n,)) & ~np.broadcast_to(memo[goal.id], (n,)) & self._usable(conj, goal, memo, n))[0]
            for i in near[:6]:
                pt = self._point(conj, goal, memo, n, int(i))
                if eval_exact(conj, pt) is True and eval_exact(goal, pt) is False:
                    return pt, nsat
        return best, nsat

    def _usable(self, conj, goal, memo, n):
        ok = np.ones(n, bool)
        for t in tm.support(conj, goal):
            v = memo.get(t.id)
            if v is not None and t.sort == "R":
                x = np.broadcast_to(np.asarray(v, float), (n,))
                ok &= np.isfinite(x) & (np.abs(x) < 1e150)
        return ok

    def _point(self, conj, goal, memo, n, i):
        pt = {}
        for t in tm.postorder([conj, goal]):
            if t.op in tm.ATOM_OPS + ("ri", "pm", "fn"):
                v = np.broadcast_to(np.asarray(memo[t.id]), (n,))[i]
                pt[t] = bool(v) if t.sort == "B" else float(v)
        return pt

    def confirm(self, goal, pt):
        """solver confirms the pinned point violates the goal"""
        L = Lower(self.perms)
        z = L.lower(goal)
        za = [L.lower(a) for a in self.A]
        pins = []
        pt, cong = self._consistent(L, pt)
        for t, v in pt.items():
            zv = L.atoms.get(t)
            if zv is None:
                continue
            if t.sort == "B":
                pins.append(zv if v else z3.Not(zv))
            elif t.op in ("var", "u", "nrm", "ri", "pm", "app"):
                pins.append(zv == q(Fraction(v)))
            else:
                w = abs(v) * 1e-6 + 1e-9
                pins += [zv >= q(Fraction(v - w)), zv <= q(Fraction(v + w))]
        # the pinned transcendental values are approximations: only the arithmetic side is exact
        r, _ = _check(pins + cong + [z3.Not(z)] + za + self._arith_side(L), 4000, True)
        return r

    def _consistent(self, L, pt, limit=3000):
        """applications of one unknown function at (numerically) one point get one value; congruence axioms for the rest:
        the values were computed in floating point, where equal arguments written differently need not coincide"""
        S = Sampler(1, 1, self.perms, {t: np.array([v]) for t, v in pt.items()})
        memo, out, cong = {}, dict(pt), []
        for ts in L.apps.values():
            if len(ts) < 2:
                continue
            try:
                tm.evaluate([x for t in ts for x in t.args if x.sort in ("R", "B")], S, memo)
            except Exception:
                return pt, []
            av = [np.array([float(np.asarray(memo[x.id]).reshape(-1)[0]) if x.sort in ("R", "B") else float(x.id) for x in t.args]) for t in ts]
            n = 0
            for i in range(len(ts)):
                for j in range(i):
                    near = np.all(np.abs(av[i] - av[j]) <= 1e-7 * (1 + np.abs(av[j])))
                    if near and ts[j] in out and ts[i] in out:
                        out[ts[i]] = out[ts[j]]
                    n += 1
                    if near or n <= limit:
                        eqs = [L.memo[x.id] == L.memo[y.id] for x, y in zip(ts[i].args, ts[j].args) if x is not y]
                        cong.append(z3.Implies(z3.And(eqs), L.atoms[ts[i]] == L.atoms[ts[j]]))
                    if near:
                        break
        return out, cong

    def _arith_side(self, L):
        return [s for s in L.side]

    # --- the main query
    def refute(self, goal, timeout=None, extra=(), want_model=True):
        L = Lower(self.perms)
        z = L.lower(goal)
        za = [L.lower(a) for a in self._relevant([goal])]
        ex = [L.lower(e) for e in extra]
        cons = za + L.side + ex + [z3.Not(z)]
        r, m = _check(cons, timeout or self.timeout, L.nonlinear, want_model)
        if r == z3.sat or r == z3.unknown:
            cg = L.congruence()
            if cg:
                r, m = _check(cons + cg, timeout or self.timeout, L.nonlinear, want_model)
        pt = None
        if r == z3.sat and m is not None:
            pt = {}
            for t, v in L.atoms.items():
                x = m.eval(v, model_completion=True)
                pt[t] = _val(x)
        return r, pt

    def prove(self, goal, label="", raws=()):
        """-> (verdict, point, how);  verdict in proved / cex / unknown"""
        if goal is TRUE:
            # both sides have one normal form; the solver still gets the two lowered sides
            if raws:
                L = Lower(self.perms)
                try:
                    ne = [L.lower(a) != L.lower(b) for a, b in raws[:200]]
                    r, _ = _check(L.side + [z3.Or(ne)], 1500, False)
                    if r == z3.unsat:
                        return "proved", None, "unsat"
                except z3.Z3Exception:
                    pass
            return "proved", None, "normal form"
        parts = list(goal.args) if goal.op == "and" else [goal]
        if len(parts) > 1:
            how = []
            unk = None
            for g in parts:
                v, p, h = self.prove(g, label)
                if v == "cex":
                    return v, p, h
                if v == "unknown":
                    unk = h
                how.append(h)
            if unk:
                return "unknown", None, unk
            return "proved", None, how[0]
        pt, nsat = self.falsify(goal)
        if pt is not None:
            r = self.confirm(goal, pt)
            if r == z3.sat:
                return "cex", pt, "sat (pinned)"
            self.log.append(f"{label}: numeric candidate not confirmed by the solver ({r})")
        r, m = self.refute(goal, timeout=min(self.timeout, 600))
        if r == z3.unsat:
            return "proved", None, "unsat"
        g2 = self.sweep(goal)
        if g2 is TRUE:
            return "proved", None, "unsat (merged)"
        if g2 is not goal:
            r2, m2 = self.refute(g2)
            if r2 == z3.unsat:
                return "proved", None, "unsat (merged)"
            if r2 == z3.sat and m is None:
                r, m = r2, m2
        if r == z3.unknown:
            r, m = self.refute(goal)
            if r == z3.unsat:
                return "proved", None, "unsat"
        if r == z3.sat and m is not None:
            good = self.validate(goal, m)
            if good is not None:
                return "cex", good, "sat"
            return "unknown", m, "sat in the abstraction, not reproduced numerically"
        return "unknown", None, "solver gave up"

    def validate(self, goal, pt):
        """re-evaluate the goal at the solver's input point with the true transcendental functions"""
        over = {t: (np.array([v]) if t.sort == "R" else np.array([bool(v)])) for t, v in pt.items()
                if t.op in ("var", "bvar", "u", "nrm", "ri", "pm", "app", "bapp") and v is not None}
        conj = tm.and_(*self.A) if self.A else TRUE
        S = Sampler(1, 1, self.perms, over)
        try:
            (ta, tg), memo = eval_margin([conj, goal], S, 1)
        except Exception as e:
            self.log.append(f"validate: {e!r}")
            return None
        c = np.asarray(memo[conj.id]).reshape(-1)[0]
        if c and tg[1][0]:
            out = {}
            for t in tm.postorder([conj, goal]):
                if t.op in tm.ATOM_OPS + ("ri", "pm", "fn"):
                    v = np.asarray(memo[t.id]).reshape(-1)[0]
                    out[t] = bool(v) if t.sort == "B" else float(v)
            return out
        return None

    # --- SAT sweeping
    def sweep(self, goal, budget_s=20.0):
        t0 = time.time()
        n = 48
        conj = tm.and_(*self.A) if self.A else TRUE
        S = None
        keep = None
        for rnd in range(4):
            S = Sampler(4000, 991 + rnd, self.perms)
            try:
                (ta, tg), memo = eval_margin([conj, goal], S, 4000)
            except Exception as e:
                self.log.append(f"sweep: {e!r}")
                return goal
            keep = np.nonzero(np.asarray(memo[conj.id]) & np.ones(4000, bool))[0][:n]
            if len(keep) >= 8:
                break
        if keep is None or len(keep) < 4:
            return goal
        reps = []  # (signature, term)
        mp = {}
        order = tm.postorder([goal])
        new = {}
        for t in order:
            if time.time() - t0 > budget_s:
                new[t.id] = t if not t.args else tm.rebuild(t, [new.get(a.id, a) for a in t.args])
                continue
            if not t.args:
                new[t.id] = t
                continue
            na = [new.get(a.id, a) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
            if t.sort == "B":
                v = np.asarray(memo[t.id])[keep] if np.asarray(memo[t.id]).shape else None
                if t.op in ("lt0", "eq0") and r.op not in ("true", "false"):
                    hit = False
                    for (sg, tt) in reps:
                        if tt.sort == "B" and tt is not r and sg is not None and v is not None:
                            if (sg == v).all() and v.any() and not v.all():
                                if self._lemma_iff(r, tt):
                                    r = tt
                                    hit = True
                                    break
                    if not hit:
                        reps.append((v, r))
                new[t.id] = r
                continue
            if t.sort == "R" and r.op not in ("const",) and r.op in ("sum", "mon", "fn", "ite", "app"):
                v = np.broadcast_to(np.asarray(memo[t.id], float), (4000,))[keep]
                if np.isfinite(v).all():
                    if np.abs(v - v[0]).max() < 1e-9 * (1 + abs(v[0])):
                        f = Fraction(float(v[0])).limit_denominator(64)
                        if abs(float(f) - v[0]) < 1e-9 and self._lemma_eq(r, tm.const(f)):
                            new[t.id] = tm.const(f)
                            continue
                    hit = False
                    for (sg, tt) in reps:
                        if tt.sort != "R" or tt is r:
                            continue
                        if np.abs(sg - v).max() <= 1e-8 * (1 + np.abs(v).max()):
                            if self._lemma_eq(r, tt):
                                r = tt
                                hit = True
                                break
                    if not hit and r.op != "const":
                        if not any(tt is r for _, tt in reps):
                            reps.append((v, r))
            new[t.id] = r
        return new[goal.id]

    # --- case analysis with proved rewrites
    def settle(self, roots, cands=(), roots_of=(), max_cases=16, timeout=1000):
        """[(path condition, rewritten roots)]: comparisons decided by the solver or split on, subterms proved equal to a
        candidate replaced by it, sqrt(c^2) replaced by the given positive c (roots_of: pairs (c^2, c))"""
        out = []
        work = [()]
        sq = {a: b for a, b in roots_of}
        cands = list(cands) + [a for a, _ in roots_of]
        while work:
            path = work.pop()
            if len(out) + len(work) > max_cases:
                raise ValueError("too many cases")
            P = Problem(self.A + list(path), self.perms, self.seed, timeout)
            new = P._rewrite(roots, cands, sq, timeout)
            split = next((t for t in tm.postorder(new) if t.op in ("lt0", "eq0")), None)
            if split is not None:
                work += [path + (split,), path + (tm.not_(split),)]
            else:
                out.append((tm.and_(*path), new))
        return out

    def _rewrite(self, roots, cands, sq, timeout):
        memo = {}

        def go(t):
            if t.id in memo:
                return memo[t.id]
            if not t.args:
                r = t
            elif t.op == "ite":
                c = go(t.args[0])
                r = go(t.args[1]) if c is TRUE else go(t.args[2]) if c is FALSE else tm.ite(c, go(t.args[1]), go(t.args[2]))
            elif t.op == "and":
                xs = []
                for a in t.args:
                    xs.append(go(a))
                    if xs[-1] is FALSE:
                        break
                r = tm.and_(*xs)
            else:
                r = tm.rebuild(t, [go(a) for a in t.args])
                if r.op in ("lt0", "eq0") and not self._has_ite(r):
                    r = self._decide(r, cands, timeout)
                elif r.sort == "R" and r.op in ("sum", "mon"):
                    r = self._candidate(r, cands)
                elif r.op == "fn" and r.val == "sqrt" and r.args[0] in sq:
                    r = sq[r.args[0]]
            memo[t.id] = r
            return r

        return [go(t) for t in roots]

    def _has_ite(self, t):
        return any(x.op == "ite" for x in tm.postorder([t]))

    def _decide(self, r, cands, timeout):
        d = r.args[0]
        for c in cands:
            k = self._ratio(d, c)
            if k is not None and self._lemma_eq(d, tm.scale(c, k)):
                r = tm.lt0(tm.scale(c, k)) if r.op == "lt0" else tm.eq(c, ZERO)
                break
        if r.op not in ("lt0", "eq0"):
            return r
        if self.refute(r, timeout=timeout, want_model=False)[0] == z3.unsat:
            return TRUE
        if self.refute(tm.not_(r), timeout=timeout, want_model=False)[0] == z3.unsat:
            return FALSE
        return r

    def _signature(self, ts, n=2000):
        conj = tm.and_(*self.A) if self.A else TRUE
        S = Sampler(n, 55, self.perms)
        try:
            _, memo = eval_margin([conj] + [tm.mk("eq0", (t,), sort="B") for t in ts], S, n)
        except Exception as e:
            self.log.append(f"signature: {e!r}")
            return None
        ok = np.asarray(memo[conj.id]) & np.ones(n, bool)
        return [np.broadcast_to(np.asarray(memo[t.id], float), (n,))[ok] for t in ts]

    def _candidate(self, t, cands):
        if t in cands or t.op == "const":
            return t
        v = self._signature([t] + cands)
        if v is None or not len(v[0]):
            return t
        for c, w in zip(cands, v[1:]):
            g = np.isfinite(v[0]) & np.isfinite(w)
            if g.any() and np.median(np.abs(v[0] - w)[g]) <= 1e-7 * (1 + np.median(np.abs(w[g]))) and self._lemma_eq(t, c):
                return c
        return t

    def _lemma_eq(self, a, b):
        STATS["lemmas"] += 1
        d = tm.sub(a, b)
        if d is ZERO:
            return True
        if d.op == "const":
            return False
        for _ in range(4):
            n = clear_denominators(d)
            e = expand(n)
            if e is None or (e is d and e is not ZERO):
                break
            if e is ZERO:
                # put the last polynomial identity (no denominators left) to the solver
                L = Lower(self.perms)
                r, _ = _check([L.lower(n) != 0], 2000, False)
                if r == z3.unknown:
                    self.log.append("polynomial identity by expansion only")
                return r != z3.sat
            d = e
        d = tm.sub(a, b)
        g = tm.eq(d, ZERO)
        r, _ = self.refute(g, timeout=1500, want_model=False)
        return r == z3.unsat

    def _lemma_iff(self, a, b):
        STATS["lemmas"] += 1
        if a.op == b.op:
            d1, d2 = a.args[0], b.args[0]
            k = self._ratio(d1, d2)
            if k is not None and (k > 0 or a.op == "eq0"):
                d = tm.lin([(d1, Fraction(1)), (d2, -k)])
                if d is ZERO:
                    return True
                e = clear_denominators(d)
                if ring_zero(e):
                    return True
                # d1 and k*d2 equal under the assumptions
                if self._lemma_eq(d1, tm.scale(d2, k)):
                    return True
        r, _ = self.refute(tm.iff(a, b), timeout=1500, want_model=False)
        return r == z3.unsat

    def _ratio(self, d1, d2):
        """rational k with d1 = k*d2 at sample points, or None"""
        n = 400
        conj = tm.and_(*self.A) if self.A else TRUE
        S = Sampler(n, 77, self.perms)
        try:
            _, memo = eval_margin([conj, tm.mk("lt0", (d1,), sort="B"), tm.mk("lt0", (d2,), sort="B")], S, n)
        except Exception:
            return None
        ok = np.asarray(memo[conj.id]) & np.ones(n, bool)
        x = np.broadcast_to(np.asarray(memo[d1.id], float), (n,))[ok]
        y = np.broadcast_to(np.asarray(memo[d2.id], float), (n,))[ok]
        g = np.isfinite(x) & np.isfinite(y) & (np.abs(y) > 1e-3)
        if g.sum() < 4:
            return None
        r = x[g] / y[g]
        k = np.median(r)
        if np.abs(r - k).max() > 1e-5 * (1 + abs(k)) or k == 0:
            return None
        f = Fraction(float(k)).limit_denominator(1000)
        return f if abs(float(f) - k) < 1e-6 * abs(k) else Fraction(float(k))

    def satisfiable(self, cond=TRUE, timeout=4000):
        """vacuity guard: are the assumptions (with cond) satisfiable?"""
        r, m = self.refute(tm.not_(tm.and_(*(self.A + [cond]))) if (self.A or cond is not TRUE) else FALSE, timeout)
        return r, m


def _val(x):
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(12)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


# ---------------------------------------------------------------- keys
_KEYSORT = []


def _ks():
    if not _KEYSORT:
        K = z3.Datatype("Key")
        K.declare("root", ("name", z3.IntSort()))
        K.declare("child", ("kp", K), ("ki", z3.IntSort()))
        K.declare("fold", ("fp", K), ("fi", z3.IntSort()))
        _KEYSORT.append(K.create())
    return _KEYSORT[0]


def key_z3(k):
    K = _ks()
    if k.op == "root":
        return K.root(k.id)
    if k.op == "child":
        return K.child(key_z3(k.args[0]), k.val)
    if k.op == "fold":
        return K.fold(key_z3(k.args[0]), k.val)
    raise ValueError(k.op)


def _ancestors(k):
    while k.op in ("child", "fold"):
        k = k.args[0]
        yield k


def keys_clash(pairs):
    """pairs of (key, counter) of random numbers: solver decides whether two coincide or whether a key that was drawn from was
    also split into a key that was drawn from (its children are made of the same random words); returns an offending pair or None"""
    if len(pairs) < 2:
        return None
    zs = [(key_z3(k), i) for k, i in pairs]
    clauses = []
    for i in range(len(zs)):
        for j in range(i):
            if zs[i][1] == zs[j][1]:
                clauses.append(zs[i][0] == zs[j][0])
    drawn = {k.id: k for k, _ in pairs}
    above = {a.id: (a, k) for k in drawn.values() for a in _ancestors(k)}
    zd = [key_z3(k) for k in drawn.values()]
    for a, _ in above.values():
        za = key_z3(a)
        clauses += [za == z for z in zd]
    if not clauses:
        return None
    r, _ = _check([z3.Or(clauses)], 20000, False)
    if r == z3.unsat:
        return None
    for i in range(len(pairs)):
        for j in range(i):
            if pairs[i][1] == pairs[j][1] and pairs[i][0] is pairs[j][0]:
                return pairs[i], pairs[j]
    for i, (a, k) in above.items():
        if i in drawn:
            return "drawn from and split", a, k
    return None

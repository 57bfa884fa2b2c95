"""Harness environment: symbolic inputs, opaque functions, path exploration, obligations, replay."""
import json
import math
import os
import time
import traceback
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core
from jax.interpreters import ad, batching

from . import fl, solve, terms as tm, trace as tr
from .fl import Fl, Unsupported
from .terms import FALSE, T, TRUE, ZERO


# ---------------------------------------------------------------- opaque functions
_PRIMS = {}


def opaque_prim(name, out_core=(), arg_cores=None):
    """primitive for an unknown function; args have cores of given ndim, identical leading batch dims"""
    key = (name, tuple(out_core))
    if key in _PRIMS:
        return _PRIMS[key]
    p = core.Primitive("opq_" + name + "_" + "x".join(map(str, out_core)))
    _PRIMS[key] = p
    p.opq_name = name

    def batch_shape(avals, nds):
        return avals[0].shape[: len(avals[0].shape) - nds[0]]

    def abstract(*avals, nds, dtype):
        return core.ShapedArray(batch_shape(avals, nds) + tuple(out_core), np.dtype(dtype))

    p.def_abstract_eval(abstract)

    def impl(*vals, nds, dtype):
        return handler(list(vals), dict(nds=nds, dtype=dtype))

    p.def_impl(impl)

    def batcher(args, dims, *, nds, dtype):
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
        out = []
        for a, d in zip(args, dims):
            if d is batching.not_mapped:
                out.append(jnp.broadcast_to(a, (size,) + a.shape))
            else:
                out.append(jnp.moveaxis(a, d, 0))
        return p.bind(*out, nds=nds, dtype=dtype), 0

    batching.primitive_batchers[p] = batcher

    def jvp(primals, tangents, *, nds, dtype):
        y = p.bind(*primals, nds=nds, dtype=dtype)
        t = None
        for k, (x, dx) in enumerate(zip(primals, tangents)):
            if type(dx) is ad.Zero:
                continue
            core_shape = x.shape[x.ndim - nds[k]:]
            dp = opaque_prim(f"{name}.d{k}", tuple(out_core) + tuple(core_shape))
            J = dp.bind(*primals, nds=nds, dtype=dtype)
            nb = x.ndim - nds[k]
            dxe = dx.reshape(x.shape[:nb] + (1,) * len(out_core) + tuple(core_shape))
            c = J * dxe
            if nds[k]:
                c = jnp.sum(c, axis=tuple(range(nb + len(out_core), nb + len(out_core) + nds[k])))
            t = c if t is None else t + c
        if t is None:
            t = ad.Zero.from_primal_value(y)
        return y, t

    ad.primitive_jvps[p] = jvp

    def handler(vals, params):
        ctx = tr.CURRENT[0]
        nds, dtype = params["nds"], np.dtype(params["dtype"])
        els = [tr.to_el(v) for v in vals]
        bs = els[0].shape[: els[0].ndim - nds[0]]
        out = np.empty(bs + tuple(out_core), object)
        for b in np.ndindex(*bs):
            args = []
            for e in els:
                args.extend(np.asarray(e[b], object).reshape(-1).tolist())
            for o in np.ndindex(*out_core):
                nm = name + ("" if not out_core else "[" + ",".join(map(str, o)) + "]")
                out[b + o] = ctx.opaque_value(name, nm, args)
        return tr.from_el(out, dtype)

    tr.OPAQUE[p.name] = handler
    return p


PLAIN = [False]  # run without the executor, on ordinary JAX values (used to confirm exceptions)


def plain_fn(name, args, out_core):
    """an ordinary smooth function standing in for an unknown one"""
    h = solve._hash01(name)
    t = jnp.asarray(h)
    for k, a in enumerate(args):
        a = jnp.asarray(a, jnp.result_type(float))
        w = jnp.arange(1, a.size + 1).reshape(a.shape) * (0.37 + h + 0.11 * k)
        t = t + jnp.sum(w * a)
    o = jnp.sin(t)
    if out_core:
        n = int(np.prod(out_core))
        o = jnp.sin(t + jnp.arange(n) * 0.7).reshape(out_core)
    return o


def opaque_call(name, args, out_core=(), dtype=None):
    if PLAIN[0]:
        return plain_fn(name, args, tuple(out_core))
    args = [jnp.asarray(a) for a in args]
    dt = dtype or jnp.result_type(float)
    args = [a for a in args]
    p = opaque_prim(name, tuple(out_core))
    return p.bind(*args, nds=tuple(a.ndim for a in args), dtype=np.dtype(dt).name)


def default_app(nm, args, seed):
    """the pseudo-random smooth stand-in used at points the solver left unconstrained (must match solve.Sampler)"""
    t = tm.mk("app", tuple(tm.const(0) for _ in args), nm)
    S = solve.Sampler(1, seed)
    return float(np.asarray(S(t, [np.float64(a) for a in args])).reshape(-1)[0])


def default_bapp(nm, args, seed):
    t = tm.mk("bapp", tuple(tm.const(0) for _ in args), nm, sort="B")
    S = solve.Sampler(1, seed)
    return bool(np.asarray(S(t, [np.float64(a) for a in args])).reshape(-1)[0])


# ---------------------------------------------------------------- contexts
class Ctx:
    mode = "sym"

    def __init__(self, prefix=(), prune=False, decide_defined=True, timeout=8000):
        self.trace = tr.SymTrace(self)
        self.prune = prune
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.assumptions = []
        self.perms = []
        self.events = []  # (kind,key)
        self.special = {}  # opaque name -> set of flags
        self.quick = {}
        self.decide_defined = decide_defined
        self.timeout = timeout
        self._prob = None
        self._nass = -1

    def problem(self):
        n = (len(self.assumptions), len(self.perms))
        if self._prob is None or self._nass != n:
            self._prob = solve.Problem(self.assumptions, self.perms, timeout_ms=self.timeout)
            self._nass = n
        return self._prob

    def known(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        P = self.problem()
        if P.entails_quick(tm.not_(c)):
            return False
        if P.entails_quick(c):
            return True
        return None

    def known_false(self, c):
        """used for definedness: only the expected answer is worth a query"""
        if not self.decide_defined:
            return None
        if self.problem().entails_quick(tm.not_(c)):
            return False
        return None

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = self.known(c)
        if k is not None:
            return k
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.alts.append(tuple(self.taken) + (False,))
        self.taken.append(v)
        self.assumptions.append(c if v else tm.not_(c))
        return v

    def draw(self, kind, key, idx):
        return tm.mk(kind, (key,), idx)

    def note_perm(self, pm):
        if pm not in self.perms:
            self.perms.append(list(pm))

    def key_event(self, kind, key):
        self.events.append((kind, key))

    def opaque_value(self, name, nm, args):
        fl_args = [a for a in args if isinstance(a, Fl)]
        rs = [fl.R(a) for a in args]
        if any(a.sort != "R" for a in rs):
            rs = [a if a.sort == "R" else (tm.ite(a, tm.ONE, tm.ZERO) if a.sort == "B" else tm.mk("keyarg", (a,))) for a in rs]
        n = FALSE
        anyinf = FALSE
        for a in fl_args:
            n = tm.or_(n, a.nan)
            anyinf = tm.or_(anyinf, fl.isinf(a))
        if anyinf is not FALSE:
            # an infinite argument is a different argument: a separate function of tagged arguments
            z = [tm.ite(fl.isinf(a), ZERO, r) if isinstance(a, Fl) else r for a, r in zip(args, rs)]
            tags = []
            for a in args:
                tags += [tm.ite(fl.pinf(a), tm.ONE, ZERO) if isinstance(a, Fl) else ZERO,
                         tm.ite(fl.ninf(a), tm.ONE, ZERO) if isinstance(a, Fl) else ZERO]
            vt, nt, pt, mt = self._opaque_parts(name, nm + "~", z + tags, n)
            v, nn, pi, ni = self._opaque_parts(name, nm, rs, n)
            return fl.mkf(tm.ite(anyinf, vt, v), tm.bite(anyinf, nt, nn), tm.bite(anyinf, pt, pi), tm.bite(anyinf, mt, ni))
        return fl.mkf(*self._opaque_parts(name, nm, rs, n))

    def _opaque_parts(self, name, nm, rs, n):
        v = tm.app(nm, *rs)
        fs = self.special.get(name, ())
        nn = tm.or_(n, tm.bapp(nm + "?nan", *rs)) if "nan" in fs else n
        pi = FALSE
        ni = FALSE
        if "ninf" in fs:
            ni = tm.and_(tm.bapp(nm + "?ninf", *rs), tm.not_(nn))
        if "pinf" in fs:
            pi = tm.and_(tm.bapp(nm + "?pinf", *rs), tm.not_(nn), tm.not_(ni))
        return v, nn, pi, ni


class RepCtx(Ctx):
    """concrete run of the real code at one point; draws and opaque functions come from the point"""
    mode = "rep"

    def __init__(self, point):
        super().__init__()
        self.vals = point.get("vals", {})
        self.tab = {}
        for nm, args, v in point.get("apps", []):
            self.tab.setdefault(nm, []).append((np.array(args, float), v))
        self.seed = point.get("seed", 1)

    def known(self, c):
        return None if c not in (TRUE, FALSE) else c is TRUE

    def known_false(self, c):
        return None

    def decide(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        raise Unsupported(f"symbolic decision in replay: {c}")

    def draw(self, kind, key, idx):
        nm = f"{kind}[{tm.keystr(key)};{idx}]"
        if nm in self.vals:
            return tm.const(Fraction(float(self.vals[nm])))
        if kind == "u":
            nn = f"nrm[{tm.keystr(key)};{idx}]"
            if nn in self.vals:
                return tm.const(Fraction(0.5 * (1 + math.erf(float(self.vals[nn]) / math.sqrt(2)))))
            return tm.const(Fraction(0.05 + 0.9 * solve._hash01(nm)))
        if kind == "ri":
            return tm.const(int(solve._hash01(nm) * idx[1]))
        if kind == "pm":
            return tm.const(idx[0])
        return tm.const(Fraction(2 * solve._hash01(nm) - 1))

    def note_perm(self, pm):
        pass

    def _lookup(self, nm, xs):
        for a, v in self.tab.get(nm, ()):
            if len(a) == len(xs) and np.all(np.abs(a - xs) <= 1e-5 * (1 + np.abs(a))):
                return v
        return None

    def opaque_value(self, name, nm, args):
        keys = [a for a in args if isinstance(a, T) and a.sort not in ("R", "B")]
        if keys:
            rs = [fl.R(a) for a in args]
            rs = [a if a.sort == "R" else (tm.ite(a, tm.ONE, tm.ZERO) if a.sort == "B" else tm.mk("keyarg", (a,))) for a in rs]
            vals = [float(a.val) if a.op == "const" else keynum(a.args[0]) for a in rs]
            xs = np.array(vals, float)
            v = self._lookup(nm, xs)
            if v is None:
                v = default_app(nm, xs, self.seed)
            return tm.const(Fraction(float(v)))
        xs = np.array([1.0 if a is TRUE else 0.0 if a is FALSE else fl.to_float(a) for a in args], float)
        if np.isnan(xs).any():
            return fl.NAN
        if np.isinf(xs).any():
            xs = np.concatenate([np.where(np.isinf(xs), 0, xs)] + [[float(x == np.inf), float(x == -np.inf)] for x in xs])
            nm = nm + "~"
        fs = self.special.get(name, ())

        def flag(f):
            if f not in fs:
                return False
            v = self._lookup(nm + "?" + f, xs)
            return default_bapp(nm + "?" + f, xs, self.seed) if v is None else bool(v)

        if flag("nan"):
            return fl.NAN
        if flag("ninf"):
            return fl.NINF
        if flag("pinf"):
            return fl.PINF
        v = self._lookup(nm, xs)
        if v is None:
            v = default_app(nm, xs, self.seed)
        return tm.const(Fraction(float(v)))


keynum = tm.keynum


# ---------------------------------------------------------------- harness environment
class Env:
    def __init__(self, ctx, tier="quick"):
        self.ctx = ctx
        self.tier = tier
        self.thorough = tier == "thorough"
        self.outs = {}
        self.obligations = []
        self.names = {}
        self.notes = []
        self.reach_checks = []
        self.cfg = {}

    @property
    def sym(self):
        return self.ctx.mode == "sym"

    # inputs ---------------------------------------------------------------
    def real(self, name, shape=(), lo=None, hi=None, los=False, his=False, pos=False, default=None, dtype=None, bounds=None):
        """symbolic real array; bounds inclusive unless los/his; pos means > 0"""
        shape = tuple(shape) if not isinstance(shape, int) else (shape,)
        if pos:
            lo, los = 0, True
        el = np.empty(shape, object)
        for i in np.ndindex(*shape):
            nm = name + ("" if not shape else "[" + ",".join(map(str, i)) + "]")
            b = (None if lo is None else Fraction(lo), los, None if hi is None else Fraction(hi), his)
            if bounds is not None:
                b = bounds(i)
            v = tm.var(nm)
            if self.sym:
                if b[0] is not None or b[2] is not None:
                    tm.EXTRA_BOUNDS[v] = b
                el[i] = v
            else:
                x = self.ctx.vals.get(nm)
                if x is None:
                    h = solve._hash01(nm)
                    if b[0] is not None and b[2] is not None:
                        x = float(b[0]) + (float(b[2]) - float(b[0])) * (0.1 + 0.8 * h)
                    elif b[0] is not None:
                        x = float(b[0]) + 0.2 + h
                    elif b[2] is not None:
                        x = float(b[2]) - 0.2 - h
                    else:
                        x = 2 * h - 1
                el[i] = tm.const(Fraction(float(x)))
        return self.wrap(el, dtype or jnp.result_type(float))

    def wrap(self, el, dtype=None):
        """elements -> JAX value. In replay mode always a concrete array."""
        el = np.asarray(el, object)
        dtype = dtype or jnp.result_type(float)
        if self.sym:
            return tr.from_el(el, np.dtype(dtype))
        flat = np.array([fl.to_float(e) if not (isinstance(e, T) and e.sort == "B") else (e is TRUE) for e in el.reshape(-1)])
        with core.set_current_trace(core.eval_trace):
            return jnp.asarray(flat.reshape(el.shape), dtype=dtype)

    def bool(self, name):
        if self.sym:
            return self.wrap(np.array(tm.bvar(name), object), np.bool_)
        return self.wrap(np.array(tm.bconst(bool(self.ctx.vals.get(name, solve._hash01(name) < 0.5))), object), np.bool_)

    def choice(self, name, options):
        """solver-level choice: the run forks over the options"""
        options = list(options)
        self.cfg[name] = options
        if len(options) == 1:
            return options[0]
        v = tm.var("choice:" + name)
        if not self.sym:
            return options[int(round(self.ctx.vals.get("choice:" + name, 0)))]
        tr.INT_VARS[v] = (0, len(options) - 1)
        tm.EXTRA_BOUNDS[v] = (Fraction(0), False, Fraction(len(options) - 1), False)
        for k in range(len(options) - 1):
            if self.ctx.decide(tm.eq(v, tm.const(k))):
                return options[k]
        self.ctx.assumptions.append(tm.eq(v, tm.const(len(options) - 1)))
        return options[-1]

    def key(self, name="key"):
        if PLAIN[0]:
            return jax.random.PRNGKey(int(1e6 * solve._hash01(name)))
        el = np.array([tm.keydata(tm.key_root(name), 0), tm.keydata(tm.key_root(name), 1)], object)
        return tr.SymTracer(self.ctx.trace, core.ShapedArray((2,), np.dtype("uint32")), el)

    def keyterm(self, k):
        """key term(s) of a raw key value (uint32[...,2]) or typed key array"""
        e = tr.to_el(k)
        if e.dtype == object and e.size and isinstance(e.reshape(-1)[0], T) and e.reshape(-1)[0].sort == "K":
            return e if e.shape else e.reshape(())[()]
        out = np.empty(e.shape[:-1], object)
        for i in np.ndindex(*out.shape):
            out[i] = tr._wrap1(list(e[i]))
        return out if out.shape else out[()]

    def opaque(self, name, special=(), lo=None, los=False, hi=None, his=False):
        """unknown differentiable scalar function f(x, data)"""
        self.ctx.special[name] = tuple(special)
        if lo is not None or hi is not None:
            tm.APP_BOUNDS[name] = (None if lo is None else Fraction(lo), los, None if hi is None else Fraction(hi), his)

        def f(x, data=None):
            leaves = [l for l in jax.tree_util.tree_leaves(data)]
            return opaque_call(name, [x] + [jnp.asarray(l, jnp.result_type(float)) for l in leaves])

        return f

    def fapp(self, name, *args):
        """the value of opaque function `name` at elements (spec side); args: element arrays"""
        flat = []
        for a in args:
            flat.extend(np.asarray(a, object).reshape(-1).tolist())
        base = name.split("[")[0]
        return self.ctx.opaque_value(base, name, flat)

    def assume(self, b):
        if self.sym:
            self.ctx.assumptions.append(b)

    def tokens(self):
        """let symbolic arrays pass through files as unique numbers"""
        self.ctx.tokens = tr.Tokens()

    def thaw(self, x):
        if self.sym:
            return self.ctx.tokens.thaw(x)
        return x

    # outputs --------------------------------------------------------------
    def out(self, name, value):
        if PLAIN[0]:
            jax.block_until_ready([l for l in jax.tree_util.tree_leaves(value) if hasattr(l, "dtype")])
            return value
        leaves, tree = jax.tree_util.tree_flatten(value)
        self.outs[name] = [tr.to_el(l) if (tr.is_sym(l) or hasattr(l, "dtype") or isinstance(l, (int, float, bool))) else l
                           for l in leaves]
        return value

    @staticmethod
    def el(x):
        return tr.to_el(x)

    # spec -----------------------------------------------------------------
    def draws(self, x, kind=None):
        """draw atoms in the support of elements x, in key order"""
        ts = []
        for e in np.asarray(x, object).reshape(-1):
            ts.extend(fl.elem_terms(e))
        s = [t for t in tm.support(*ts) if t.op in ("u", "nrm", "ri", "pm") and (kind is None or t.op == kind)]
        return sorted(s, key=lambda t: (t.op, tm.keyroot_path(t.args[0])[0], natural(tm.keyroot_path(t.args[0])[1]), natural(t.val)))

    def support(self, x):
        ts = []
        for e in np.asarray(x, object).reshape(-1):
            ts.extend(fl.elem_terms(e))
        return tm.support(*ts)

    def subst(self, x, mp):
        x = np.asarray(x, object)
        out = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            out[i] = fl.subst_elem(x[i], mp)
        return out

    def settle(self, elems, cands=(), roots_of=()):
        """case analysis of elements: [(path condition, rewritten elements)] (see solve.Problem.settle)"""
        elems = list(elems)
        if not self.sym:
            return [(TRUE, elems)]
        ts = [t for e in elems for t in ([fl.R(e), fl.nan(e), fl.pinf(e), fl.ninf(e)])]
        out = []
        for path, new in self.ctx.problem().settle(ts, cands, roots_of):
            out.append((path, [fl.mkf(*new[4 * i:4 * i + 4]) for i in range(len(elems))]))
        return out

    def check(self, goal, label, when=TRUE):
        if isinstance(goal, (bool, np.bool_)):
            goal = tm.bconst(bool(goal))
        self.obligations.append((label, tm.implies(when, goal), []))

    def same(self, a, b, label, when=TRUE):
        """two scalar elements are the same value"""
        self.eq(np.array([a], object), np.array([b], object), label, when)

    def iff(self, a, b, label, when=TRUE):
        self.obligations.append((label, tm.implies(when, tm.iff(a, b)), [(a, b)]))

    def eq(self, a, b, label, when=TRUE):
        a, b = np.asarray(a, object), np.asarray(b, object)
        if a.shape != b.shape:
            self.obligations.append((label + f" (shape {a.shape} expected {b.shape})", FALSE, []))
            return
        gs, raws = [], []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            gs.append(tm.implies(when, same_el(x, y)))
            raws += [(p, q_) for p, q_ in zip(fl.elem_terms(x), fl.elem_terms(y)) if p.sort in ("R", "B") and p.sort == q_.sort]
        self.obligations.append((label, tm.and_(*gs), raws))

    def keys_distinct(self, pairs, label):
        """pairs: list of (keyterm, index); decided over the free key algebra"""
        self.obligations.append((label, ("keys", list(pairs)), []))

    def note(self, s):
        self.notes.append(s)


def natural(v):
    """order by the numbers in v"""
    import re
    return [int(q) for q in re.findall(r"-?\d+", str(v))], str(v)


def same_el(x, y):
    if isinstance(x, T) and isinstance(y, T) and (x.sort == "B" or y.sort == "B"):
        if x.sort != "B":
            x = tm.not_(tm.eq(x, ZERO))
        if y.sort != "B":
            y = tm.not_(tm.eq(y, ZERO))
        return tm.iff(x, y)
    if isinstance(x, T) and x.sort not in ("R", "B"):
        return tm.bconst(x is y)
    return fl.same(x, y)


class Harness:
    """subclass: name, run(E) -> outputs object, spec(E, o)"""
    name = "?"
    prune = False
    decide_defined = True
    max_paths = 64
    timeout = 8000
    budget = 120.0
    replay_x64 = True
    functions = ()
    bounds = ""

    def run(self, E):
        raise NotImplementedError

    def spec(self, E, o):
        pass


def in_repo_traceback(tb):
    return any("/flowMC/" in (f.filename or "") for f in traceback.extract_tb(tb))


def setup_ctx(ctx):
    tr.CURRENT[0] = ctx
    fl.DECIDE[0] = ctx.known_false
    tm.ORACLE[0] = None


def run_path(h, prefix, tier):
    ctx = Ctx(prefix, prune=h.prune, decide_defined=h.decide_defined, timeout=h.timeout)
    setup_ctx(ctx)
    E = Env(ctx, tier)
    err = None
    o = None
    with core.set_current_trace(ctx.trace):
        try:
            o = h.run(E)
            h.spec(E, o)
        except Unsupported as e:
            err = ("unsupported", str(e), traceback.format_exc())
        except Exception as e:
            err = ("exception", f"{type(e).__name__}: {e}", traceback.format_exc(),
                   in_repo_traceback(e.__traceback__), type(e).__name__)
    return ctx, E, err


def run_replay(h, point, tier="quick"):
    """concrete run; returns (outs, error)"""
    ctx = RepCtx(point)
    setup_ctx(ctx)
    E = Env(ctx, tier)
    err = None
    with core.set_current_trace(ctx.trace):
        try:
            h.run(E)
        except Exception as e:
            err = (type(e).__name__, str(e), in_repo_traceback(e.__traceback__), traceback.format_exc())
    outs = {}
    for k, leaves in E.outs.items():
        outs[k] = [_num(l) for l in leaves]
    return outs, err


def run_plain(h, point, tier="quick"):
    """the same harness on ordinary JAX; only tells whether it raises"""
    PLAIN[0] = True
    setup_ctx(RepCtx(point))
    E = Env(RepCtx(point), tier)
    try:
        h.run(E)
    except Exception as e:
        return (type(e).__name__, str(e), in_repo_traceback(e.__traceback__), traceback.format_exc())
    return None


def _num(l):
    if isinstance(l, np.ndarray):
        return {"shape": list(l.shape), "v": [_numel(e) for e in l.reshape(-1)]}
    return {"lit": repr(l)}


def _numel(e):
    if isinstance(e, T) and e.sort == "B":
        return 1.0 if e is TRUE else 0.0 if e is FALSE else "?"
    if isinstance(e, T) and e.sort != "R":
        return "k:" + tm.show(e)
    v = fl.to_float(e)
    if v is None:
        return "?" + tm.show(fl.R(e))
    return "nan" if v != v else ("inf" if v == math.inf else "-inf" if v == -math.inf else v)


def make_point(pt, seed=1):
    vals, apps = {}, []
    for t, v in pt.items():
        if v is None:
            continue
        if t.op in ("var", "bvar"):
            vals[str(t.val)] = v
        elif t.op in ("u", "nrm", "ri", "pm"):
            vals[tm.atom_name(t)] = v
    return {"vals": vals, "apps": apps, "seed": seed}


def eval_outs(E, pt, seed, perms, goal=None):
    """symbolic outputs evaluated at the point (dict as in run_replay) plus the application table used"""
    over = {t: (np.array([v]) if t.sort == "R" else np.array([bool(v)])) for t, v in pt.items()
            if t.op in ("var", "bvar", "u", "nrm", "ri", "pm", "app", "bapp") and v is not None}

    apps = []
    tab = {}

    class S1(solve.Sampler):
        def __call__(self, t, args):
            if args is None:
                if t in self.over:
                    return self.over[t]
                nm = tm.atom_name(t)
                if t.op == "u":
                    return np.array([0.05 + 0.9 * solve._hash01(nm)])
                if t.op == "ri":
                    return np.array([float(int(solve._hash01(nm) * t.val[1]))])
                if t.op == "pm":
                    return np.array([float(t.val[0])])
                if t.op == "nrm":
                    from statistics import NormalDist
                    nu = nm.replace("nrm[", "u[")
                    u = 0.05 + 0.9 * solve._hash01(nu)
                    return np.array([NormalDist().inv_cdf(u)])
                if t.op == "bvar":
                    return np.array([solve._hash01(nm) < 0.5])
                from . import trace as tr_
                if t in tr_.INT_VARS:
                    return np.array([0.0])
                b = tm.bounds(t)
                h = solve._hash01(nm)
                if b[0] is not None and b[2] is not None:
                    x = float(b[0]) + (float(b[2]) - float(b[0])) * (0.1 + 0.8 * h)
                elif b[0] is not None:
                    x = float(b[0]) + 0.2 + h
                elif b[2] is not None:
                    x = float(b[2]) - 0.2 - h
                else:
                    x = 2 * h - 1
                return np.array([x])
            xs = np.array([float(np.asarray(a).reshape(-1)[0]) for a in args])
            for a, v in tab.get(t.val, ()):
                if len(a) == len(xs) and np.all(np.abs(a - xs) <= 1e-5 * (1 + np.abs(a))):
                    return np.array([v])
            v = super().__call__(t, args)
            vv = np.asarray(v).reshape(-1)[0]
            vv = bool(vv) if t.sort == "B" else float(vv)
            if np.isfinite(xs).all():
                tab.setdefault(t.val, []).append((xs, vv))
                apps.append((t.val, xs.tolist(), vv))
            return np.array([vv])

    S = S1(1, seed, perms, over)
    memo = {}
    # keyed arguments get a stable number
    roots = []
    for leaves in E.outs.values():
        for l in leaves:
            if isinstance(l, np.ndarray):
                for e in l.reshape(-1):
                    roots.extend([x for x in fl.elem_terms(e) if x.sort in ("R", "B")])
    pts = list(over)
    tm.evaluate([t for t in pts if t.op in ("app", "bapp")], S, memo)
    tm.evaluate(roots, S, memo)

    E.goal_holds = False
    if goal is not None:
        try:
            (tg,), _ = solve.eval_margin([goal], S, 1)
            E.goal_holds = bool(np.asarray(tg[0]).reshape(-1)[0])
        except Exception:
            pass

    def num(e):
        if isinstance(e, T) and e.sort == "B":
            return 1.0 if bool(np.asarray(memo[e.id]).reshape(-1)[0]) else 0.0
        if isinstance(e, T) and e.sort != "R":
            return "k:" + tm.show(e)
        g = lambda t: np.asarray(memo[t.id]).reshape(-1)[0]
        if isinstance(e, Fl):
            if g(e.nan):
                return "nan"
            if g(e.pinf):
                return "inf"
            if g(e.ninf):
                return "-inf"
            return float(g(e.r))
        return float(g(e))

    outs = {}
    for k, leaves in E.outs.items():
        outs[k] = [{"shape": list(l.shape), "v": [num(e) for e in l.reshape(-1)]} if isinstance(l, np.ndarray) else
                   {"lit": repr(l)} for l in leaves]
    return outs, apps


def compare_outs(a, b, tol=2e-4):
    """-> (agree, message)"""
    if set(a) != set(b):
        return False, f"outputs {sorted(a)} vs {sorted(b)}"
    for k in a:
        if len(a[k]) != len(b[k]):
            return False, f"{k}: leaf count"
        for x, y in zip(a[k], b[k]):
            if "lit" in x or "lit" in y:
                if x != y:
                    return False, f"{k}: {x} vs {y}"
                continue
            if x["shape"] != y["shape"]:
                return False, f"{k}: shape {x['shape']} vs {y['shape']}"
            for p, q_ in zip(x["v"], y["v"]):
                if isinstance(p, str) or isinstance(q_, str):
                    if str(p) != str(q_):
                        if isinstance(p, str) and p.startswith("k:"):
                            continue
                        if isinstance(p, float) and abs(p) > 3e38 and str(q_) == ("inf" if p > 0 else "-inf"):
                            continue  # overflow of the single-precision result
                        return False, f"{k}: predicted {p}, real code gave {q_}"
                    continue
                if not abs(p - q_) <= tol * (1 + abs(p)):
                    return False, f"{k}: predicted {p}, real code gave {q_}"
    return True, ""

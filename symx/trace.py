"""Symbolic executor for JAX primitives: a Trace whose values are arrays of terms.

SymTrace is installed as JAX's ambient trace; every primitive bound by the real code arrives in
`bind`.  If all operands are concrete, JAX itself evaluates it; otherwise the rule below applies.
Structural primitives (gather, scatter, slicing, transposition, ...) are executed by JAX on arrays
of element ids, so that their semantics is JAX's own.
"""
import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core, dtypes
from jax.extend import core as xcore  # noqa: F401

from . import fl, terms as tm
from .fl import Fl, Unsupported
from .terms import FALSE, ONE, T, TRUE, ZERO

Literal = core.Literal


class SymTracer(core.Tracer):
    __slots__ = ["aval", "el"]

    def __init__(self, trace, aval, el):
        self._trace = trace
        self.aval = aval
        self.el = el  # numpy object array of elements, shape aval.shape

    def full_lower(self):
        return self

    def to_concrete_value(self):
        return None

    def __bool__(self):
        assert self.aval.shape == () or self.aval.size == 1
        e = self.el.reshape(-1)[0]
        if self.aval.dtype == np.bool_:
            return CURRENT[0].decide(e)
        return CURRENT[0].decide(tm.not_(fl.feq(e, ZERO)))

    def _scalar(self, what):
        e = self.el.reshape(-1)[0]
        if isinstance(e, T) and e.op == "true":
            return True
        if isinstance(e, T) and e.op == "false":
            return False
        v = fl.to_float(e) if (isinstance(e, Fl) or e.sort == "R") else None
        if v is not None:
            return v
        if isinstance(e, T) and e.sort == "R":
            try:
                d = domain(e)
            except Unsupported:
                d = None
            if d is not None and len(d) <= 64:
                for x in d[:-1]:
                    if CURRENT[0].decide(tm.eq(e, tm.const(x))):
                        return x
                return d[-1]
        raise Unsupported(f"{what} of a symbolic value {e}")

    def __index__(self):
        return int(self._scalar("index"))

    def __int__(self):
        return int(self._scalar("int"))

    def __float__(self):
        return float(self._scalar("float"))

    def __array__(self, *a, **k):
        tok = getattr(CURRENT[0], "tokens", None)
        if tok is not None and np.issubdtype(self.aval.dtype, np.floating):
            return tok.freeze(self.el, self.aval.dtype)
        raise Unsupported("numpy conversion of a symbolic array")

    def __repr__(self):
        return f"Sym({self.aval.str_short()})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class SymTrace(core.Trace):
    def __init__(self, ctx):
        self.ctx = ctx

    def process_primitive(self, primitive, tracers, params):
        return bind(primitive, list(tracers), params)

    def process_call(self, call_primitive, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_map(self, *a, **k):
        raise Unsupported("pmap")

    def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros):
        return fun.call_wrapped(*tracers)

    def process_custom_transpose(self, prim, call, tracers, **params):
        return call.call_wrapped(*tracers)

    def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        return fun.call_wrapped(*tracers)


class Tokens:
    """Lets symbolic arrays pass through code that only stores and restores numbers (numpy files): every
    non-constant element is represented by a number of its own, mapped back afterwards."""

    BASE = 7340033.0

    def __init__(self):
        self.val = {}
        self.by = {}

    def freeze(self, el, dtype):
        out = np.empty(el.shape, dtype)
        for i in np.ndindex(*el.shape):
            e = el[i]
            v = fl.to_float(e)
            if v is None:
                k = tuple(t.id for t in fl.elem_terms(e))
                if k not in self.by:
                    self.by[k] = self.BASE + 4.0 * len(self.by)
                    self.val[self.by[k]] = e
                v = self.by[k]
            out[i] = v
        return out

    def thaw(self, x):
        el = np.array(to_el(x), dtype=object)
        for i in np.ndindex(*el.shape):
            v = fl.to_float(el[i]) if not (isinstance(el[i], T) and el[i].sort != "R") else None
            if v is not None and v in self.val:
                el[i] = self.val[v]
        return from_el(el, aval_of(x).dtype)


CURRENT = [None]  # the running Context (decide(), record...)
STATS = {"prims": {}, "sym_ops": 0}


def is_sym(x):
    return isinstance(x, SymTracer)


def is_key_dtype(dt):
    return dtypes.issubdtype(dt, dtypes.extended)


def aval_of(x):
    return core.get_aval(x)


def to_el(x):
    """elements of a value (numpy object array)"""
    if is_sym(x):
        return x.el
    if isinstance(x, core.Tracer):
        raise Unsupported(f"foreign tracer {type(x)}")
    if hasattr(x, "dtype") and is_key_dtype(x.dtype):
        with core.set_current_trace(core.eval_trace):
            raw = np.asarray(jax.random.key_data(x))
        out = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            out[i] = tm.mk("root", val="#" + "-".join(str(int(w)) for w in raw[i]), sort="K")
        return out
    a = np.asarray(x)
    out = np.empty(a.shape, object)
    f = out.reshape(-1)
    flat = a.reshape(-1)
    if a.dtype == np.bool_:
        for i, v in enumerate(flat):
            f[i] = TRUE if v else FALSE
    elif np.issubdtype(a.dtype, np.integer):
        for i, v in enumerate(flat):
            f[i] = tm.const(int(v))
    else:
        for i, v in enumerate(flat.astype(np.float64)):
            f[i] = fl.from_float(v)
    return out if out.shape == a.shape else f.reshape(a.shape)


def _concrete_value(el, dtype):
    """numpy array if every element is a constant exactly representable in dtype, else None"""
    flat = el.reshape(-1)
    if dtype == np.bool_:
        out = np.empty(flat.shape, np.bool_)
        for i, e in enumerate(flat):
            if e is TRUE:
                out[i] = True
            elif e is FALSE:
                out[i] = False
            else:
                return None
        return out.reshape(el.shape)
    if np.issubdtype(dtype, np.integer):
        out = np.empty(flat.shape, dtype)
        for i, e in enumerate(flat):
            if not isinstance(e, T) or e.op != "const" or e.val.denominator != 1:
                return None
            try:
                out[i] = int(e.val)
            except OverflowError:
                return None
        return out.reshape(el.shape)
    out = np.empty(flat.shape, np.float64)
    for i, e in enumerate(flat):
        if isinstance(e, T):
            if e.op != "const":
                return None
            v = float(e.val)
            if Fraction(v) != e.val:
                return None
        else:
            v = fl.to_float(e)
            if v is None:
                return None
        out[i] = v
    with np.errstate(all="ignore"):
        low = out.astype(dtype)
    if not np.array_equal(low.astype(np.float64), out, equal_nan=True):
        return None
    return low.reshape(el.shape)


def from_el(el, dtype, weak_type=False):
    """value from elements; lowered to a concrete array when all elements are constants"""
    el = np.asarray(el, dtype=object)
    if not is_key_dtype(dtype):
        c = _concrete_value(el, np.dtype(dtype))
        if c is not None:
            with core.set_current_trace(core.eval_trace):
                return jnp.asarray(c, dtype=dtype)
    aval = core.ShapedArray(el.shape, dtype, weak_type=weak_type) if not is_key_dtype(dtype) else core.ShapedArray(
        el.shape, dtype)
    return SymTracer(CURRENT[0].trace, aval, el)


def concrete_bind(prim, vals, params):
    with core.set_current_trace(core.eval_trace):
        return prim.bind(*vals, **params)


OPAQUE = {}  # primitive name -> handler(vals, params)


def bind(prim, vals, params):
    name = prim.name
    h = OPAQUE.get(name)
    if h is not None:
        return h(vals, params)
    if not any(is_sym(v) for v in vals):
        for v in vals:
            if isinstance(v, core.Tracer):
                raise Unsupported(f"foreign tracer in {name}: {type(v)}")
        if name in ("scan", "while", "cond", "pjit", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr",
                    "closed_call", "core_call", "checkpoint", "remat2", "remat") and has_opaque(params):
            pass
        elif name in ("custom_jvp_call", "custom_vjp_call_jaxpr", "custom_vjp_call"):
            return RULES[name](prim, vals, params)
        else:
            return concrete_bind(prim, vals, params)
    STATS["sym_ops"] += 1
    STATS["prims"][name] = STATS["prims"].get(name, 0) + 1
    r = RULES.get(name)
    if r is None:
        raise Unsupported(f"primitive {name}")
    return r(prim, vals, params)


_HAS = {}


def has_opaque(params):
    for v in params.values():
        for j in _jaxprs(v):
            if jaxpr_has_opaque(j):
                return True
    return False


def _jaxprs(v):
    if isinstance(v, core.ClosedJaxpr):
        yield v.jaxpr
        for c in v.consts:
            if is_sym(c):
                yield None
    elif isinstance(v, core.Jaxpr):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from _jaxprs(x)


def jaxpr_has_opaque(j):
    if j is None:
        return True
    k = id(j)
    if k in _HAS:
        return _HAS[k][0]
    r = any(e.primitive.name in OPAQUE or has_opaque(e.params) for e in j.eqns)
    _HAS[k] = (r, j)
    return r


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if type(v) is Literal else env[v]

    for v, x in zip(jaxpr.constvars, consts):
        env[v] = x
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, x in zip(jaxpr.invars, args):
        env[v] = x
    # free dead values early? sizes are tiny, keep simple
    for eqn in jaxpr.eqns:
        out = bind(eqn.primitive, [read(v) for v in eqn.invars], eqn.params)
        if eqn.primitive.multiple_results:
            for v, x in zip(eqn.outvars, out):
                env[v] = x
        else:
            env[eqn.outvars[0]] = out
    return [_lit(v) if type(v) is Literal else env[v] for v in jaxpr.outvars]


def _lit(v):
    with core.set_current_trace(core.eval_trace):
        return jnp.asarray(v.val, dtype=v.aval.dtype)


def eval_closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, list(args))


# ------------------------------------------------------------------------- rules
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def out_aval(prim, vals, params):
    avs = [aval_of(v) for v in vals]
    out, _ = prim.abstract_eval(*avs, **params)
    return out


def elementwise(f):
    def r(prim, vals, params):
        av = out_aval(prim, vals, params)
        els = [to_el(v) for v in vals]
        shp = av.shape
        els = [np.broadcast_to(e, shp) if e.shape != shp else e for e in els]
        out = np.empty(shp, object)
        of = out.reshape(-1)
        fs = [e.reshape(-1) for e in els]
        for i in range(of.shape[0]):
            of[i] = f(*[x[i] for x in fs])
        return from_el(of.reshape(shp), av.dtype, av.weak_type)

    return r


def reg(name, f):
    RULES[name] = elementwise(f)


def _isB(x):
    return isinstance(x, T) and x.sort == "B"


reg("add", fl.add)
reg("add_any", fl.add)
reg("sub", fl.sub)
reg("mul", fl.mul)
reg("neg", fl.neg)
reg("exp", fl.exp)
reg("exp2", lambda a: fl.exp(fl.mul(a, tm.const(math.log(2)))))
reg("log", fl.log)
reg("log1p", fl.log1p)
reg("expm1", fl.expm1)
reg("sqrt", fl.sqrt)
reg("rsqrt", lambda a: fl.div(ONE, fl.sqrt(a)))
reg("tanh", fl.tanh)
reg("logistic", fl.logistic)
reg("abs", fl.abs_)
reg("sign", fl.sign)
reg("max", lambda a, b: tm.or_(a, b) if _isB(a) else fl.max_(a, b))
reg("min", lambda a, b: tm.and_(a, b) if _isB(a) else fl.min_(a, b))
reg("lt", lambda a, b: tm.and_(tm.not_(a), b) if _isB(a) else decide_cmp(fl.lt(a, b)))
reg("gt", lambda a, b: tm.and_(a, tm.not_(b)) if _isB(a) else decide_cmp(fl.lt(b, a)))
reg("le", lambda a, b: tm.or_(tm.not_(a), b) if _isB(a) else decide_cmp(fl.le(a, b)))
reg("ge", lambda a, b: tm.or_(a, tm.not_(b)) if _isB(a) else decide_cmp(fl.le(b, a)))
reg("eq", lambda a, b: tm.iff(a, b) if _isB(a) else decide_cmp(fl.feq(a, b)))
reg("ne", lambda a, b: tm.not_(tm.iff(a, b)) if _isB(a) else tm.not_(decide_cmp(fl.feq(a, b))))
for _n in ("lt", "le"):  # the total order of sorts and searches: the same on numbers (a NaN never reaches it undetected: it poisons the branch)
    RULES[_n + "_to"] = RULES[_n]
reg("is_finite", fl.fin)
reg("copy", lambda a: a)
reg("copy_p", lambda a: a)
reg("real", lambda a: a)
reg("stop_gradient", lambda a: a)
reg("reduce_precision", lambda a: a)
reg("erf", lambda a: fl.uninterp("erf", a))
reg("erfc", lambda a: fl.sub(ONE, fl.uninterp("erf", a)))
reg("sin", lambda a: fl.uninterp("sin", a))
reg("cos", lambda a: fl.uninterp("cos", a))
reg("square", lambda a: fl.mul(a, a))


def decide_cmp(c):
    ctx = CURRENT[0]
    if ctx is not None and ctx.prune and c is not TRUE and c is not FALSE:
        r = ctx.known(c)
        if r is not None:
            return tm.bconst(r)
    return c


RULES["copy_p"] = RULES["copy"]


@rule("div")
def _div(prim, vals, params):
    av = aval_of(vals[0])
    if np.issubdtype(av.dtype, np.integer):
        b = vals[1]
        if is_sym(b):
            raise Unsupported("integer division by symbolic value")

        def idiv(x, y):
            dom = domain(x)
            q = int(y.val)
            r = tm.const(int(Fraction(int(dom[-1])) / q))
            for d in reversed(dom[:-1]):
                v = abs(d) // abs(q) * (1 if (d >= 0) == (q > 0) else -1)
                r = tm.ite(tm.eq(x, tm.const(d)), tm.const(v), r)
            return r

        return elementwise(idiv)(prim, vals, params)
    return elementwise(fl.div)(prim, vals, params)


@rule("and")
def _and(prim, vals, params):
    if aval_of(vals[0]).dtype == np.bool_:
        return elementwise(tm.and_)(prim, vals, params)
    raise Unsupported("integer and")


@rule("or")
def _or(prim, vals, params):
    dt = aval_of(vals[0]).dtype
    if dt == np.bool_:
        return elementwise(tm.or_)(prim, vals, params)

    def f(a, b):
        for x, y in ((a, b), (b, a)):
            if x.sort == "BITS" and x.op == "shr" and y.op == "const":
                return tm.mk("bor", (x,), int(y.val), sort="BITS")
        raise Unsupported("integer or")

    return elementwise(f)(prim, vals, params)


@rule("xor")
def _xor(prim, vals, params):
    if aval_of(vals[0]).dtype == np.bool_:
        return elementwise(lambda a, b: tm.not_(tm.iff(a, b)))(prim, vals, params)
    raise Unsupported("integer xor")


@rule("not")
def _not(prim, vals, params):
    if aval_of(vals[0]).dtype == np.bool_:
        return elementwise(tm.not_)(prim, vals, params)
    raise Unsupported("integer not")


@rule("integer_pow")
def _ipow(prim, vals, params):
    y = params["y"]
    return elementwise(lambda a: fl.powi(a, y))(prim, vals, params)


@rule("pow")
def _pow(prim, vals, params):
    def f(a, b):
        if isinstance(b, T) and b.op == "const":
            v = b.val
            if v.denominator == 1 and abs(v) <= 16:
                return fl.powi(a, int(v))
            if v.denominator == 2 and abs(v) <= 8:
                r = fl.powi(fl.sqrt(a), abs(int(v * 2)))
                return r if v > 0 else fl.div(ONE, r)
        return fl.exp(fl.mul(b, fl.log(a)))

    return elementwise(f)(prim, vals, params)


@rule("clamp")
def _clamp(prim, vals, params):
    return elementwise(lambda lo, x, hi: fl.min_(fl.max_(x, lo), hi))(prim, vals, params)


@rule("select_n")
def _select_n(prim, vals, params):
    which, cases = vals[0], vals[1:]
    av = out_aval(prim, vals, params)
    w = to_el(which)
    cs = [to_el(c) for c in cases]
    if w.shape != av.shape:
        w = np.broadcast_to(w, av.shape)
    out = np.empty(av.shape, object)
    isb = aval_of(which).dtype == np.bool_
    for i in np.ndindex(*av.shape):
        e = w[i]
        if isb:
            a, b = cs[1][i] if len(cs) > 1 else cs[0][i], cs[0][i]
            out[i] = sel(e, a, b)
        else:
            r = cs[-1][i]
            for k in range(len(cs) - 2, -1, -1):
                r = sel(tm.eq(e, tm.const(k)), cs[k][i], r)
            out[i] = r
    return from_el(out, av.dtype, av.weak_type)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T) and a.sort != "R":
        if a.sort == "B":
            return tm.bite(c, a, b)
        return tm.mk("site", (c, a, b), sort=a.sort)
    return fl.select(c, a, b)


@rule("convert_element_type")
def _convert(prim, vals, params):
    src = aval_of(vals[0]).dtype
    dst = np.dtype(params["new_dtype"])

    def f(a):
        if isinstance(a, T) and a.sort in ("BITS", "KD"):
            return a
        if src == dst:
            return a
        if src == np.bool_:
            return tm.ite(a, ONE, ZERO)
        if dst == np.bool_:
            return tm.not_(fl.feq(a, ZERO))
        if np.issubdtype(src, np.integer):
            return a
        if np.issubdtype(dst, np.integer):
            return to_int(a)
        if jnp.finfo(dst).nmant < min(jnp.finfo(src).nmant, 23) and not getattr(CURRENT[0], "exact_round", False):
            return fl.uninterp(f"round_{dst}", a)
        return a

    return elementwise(f)(prim, vals, params)


def to_int(a):
    if isinstance(a, Fl):
        raise Unsupported("float->int of special value")
    if a.op == "const":
        return tm.const(int(a.val))
    if a.op == "ite":
        return tm.ite(a.args[0], to_int(a.args[1]), to_int(a.args[2]))
    try:
        domain(a)
        return a
    except Unsupported:
        return tm.fn("trunc", a)


def domain(t):
    """finite set of values of an integer-valued term (sorted list)"""
    op = t.op
    if op == "const":
        return [int(t.val)] if t.val.denominator == 1 else _dom_fail(t)
    if op == "ri":
        return list(range(t.val[1]))
    if op == "pm":
        return list(range(t.val[1]))
    if op == "ite":
        return sorted(set(domain(t.args[1])) | set(domain(t.args[2])))
    if op == "sum":
        c, coefs = t.val
        cur = {c}
        for a, k in zip(t.args, coefs):
            d = domain(a)
            cur = {x + k * y for x in cur for y in d}
            if len(cur) > 4096:
                _dom_fail(t)
        if any(Fraction(x).denominator != 1 for x in cur):
            _dom_fail(t)
        return sorted(int(x) for x in cur)
    if op == "mon" and all(e > 0 and e.denominator == 1 for e in t.val):
        cur = {1}
        for a, e in zip(t.args, t.val):
            cur = {x * y ** int(e) for x in cur for y in domain(a)}
        return sorted(cur)
    if op == "var" and t in INT_VARS:
        lo, hi = INT_VARS[t]
        return list(range(lo, hi + 1))
    _dom_fail(t)


INT_VARS = {}  # integer-valued variables with inclusive bounds


def _dom_fail(t):
    raise Unsupported(f"no finite domain for {t}")


# --- structural: run the primitive on element ids
_FILL = -(2 ** 31)


def structural(prim, data_vals, build, dtype_outs=None, multi=False):
    """build(ids...) -> ids result computed by JAX; elements are then looked up."""
    pool = []
    ids = []
    off = 0
    for v in data_vals:
        e = to_el(v).reshape(-1)
        pool.append(e)
        ids.append(np.arange(off, off + e.size, dtype=np.int32).reshape(aval_of(v).shape))
        off += e.size
    pool = np.concatenate(pool) if pool else np.empty(0, object)
    with core.set_current_trace(core.eval_trace):
        res = build(*[jnp.asarray(i) for i in ids])
    return pool, res


def lookup(pool, idarr, dtype):
    idarr = np.asarray(idarr)
    flat = idarr.reshape(-1)
    out = np.empty(flat.shape, object)
    for i, k in enumerate(flat):
        if k == _FILL or k < 0:
            out[i] = fl.NAN if not np.issubdtype(dtype, np.integer) and dtype != np.bool_ else tm.const(
                np.iinfo(dtype).min if np.issubdtype(dtype, np.signedinteger) else 0)
        else:
            out[i] = pool[k]
    return out.reshape(idarr.shape)


def npstruct(f):
    def r(prim, vals, params):
        av = aval_of(vals[0])
        out = f(to_el(vals[0]), params)
        return from_el(out, av.dtype, getattr(av, "weak_type", False))

    return r


def _bid(e, p):
    shape, dims = p["shape"], p["broadcast_dimensions"]
    new = [1] * len(shape)
    for i, d in enumerate(dims):
        new[d] = e.shape[i]
    return np.broadcast_to(e.reshape(new), shape).copy()


RULES["broadcast_in_dim"] = lambda prim, vals, params: npstruct(_bid)(prim, vals[:1], params)
RULES["reshape"] = lambda prim, vals, params: npstruct(lambda e, p: e.reshape(p["new_sizes"]))(prim, vals[:1], params)
RULES["squeeze"] = npstruct(lambda e, p: e.reshape([s for i, s in enumerate(e.shape) if i not in p["dimensions"]]))
RULES["expand_dims"] = npstruct(lambda e, p: np.expand_dims(e, tuple(p["dimensions"])))
RULES["transpose"] = npstruct(lambda e, p: np.transpose(e, p["permutation"]))
RULES["rev"] = npstruct(lambda e, p: np.flip(e, tuple(p["dimensions"])))
RULES["slice"] = npstruct(lambda e, p: e[tuple(
    slice(a, b, c) for a, b, c in zip(p["start_indices"], p["limit_indices"], p["strides"] or [1] * e.ndim))])


@rule("concatenate")
def _concat(prim, vals, params):
    av = out_aval(prim, vals, params)
    return from_el(np.concatenate([to_el(v) for v in vals], axis=params["dimension"]), av.dtype)


@rule("split")
def _split(prim, vals, params):
    av = aval_of(vals[0])
    e = to_el(vals[0])
    cuts = np.cumsum(params["sizes"])[:-1]
    return [from_el(x, av.dtype) for x in np.split(e, cuts, axis=params["axis"])]


@rule("pad")
def _pad(prim, vals, params):
    av = out_aval(prim, vals, params)
    pool, res = structural(prim, vals, lambda a, b: prim.bind(a, b.reshape(()), **params))
    return from_el(lookup(pool, res, av.dtype), av.dtype)


def _int_rows(idx):
    return to_el(idx)


@rule("gather")
def _gather(prim, vals, params):
    operand, indices = vals
    av = out_aval(prim, vals, params)
    params = dict(params)
    if params.get("fill_value") is not None:
        params["fill_value"] = _FILL

    def run(idx):
        pool, res = structural(prim, [operand], lambda a: prim.bind(a, jnp.asarray(idx), **params))
        return lookup(pool, res, av.dtype)

    if not is_sym(indices):
        return from_el(run(indices), av.dtype, av.weak_type)
    ie = to_el(indices)
    K = ie.shape[-1]
    rows = ie.reshape(-1, K)
    cands = []
    for r in rows:
        doms = [domain(x) for x in r]
        cs = list(itertools.product(*doms))
        if len(cs) > 256:
            raise Unsupported("gather: index domain too large")
        cands.append([(tm.and_(*[tm.eq(x, tm.const(v)) for x, v in zip(r, c)]), c) for c in cs])
    m = max(len(c) for c in cands)
    # row of every output element
    dn = params["dimension_numbers"]
    nb = ie.ndim - 1
    batch_pos = [d for d in range(len(av.shape)) if d not in dn.offset_dims]
    rowid = np.arange(len(rows)).reshape(ie.shape[:-1])
    shp = [1] * len(av.shape)
    for p, s in zip(batch_pos, ie.shape[:-1]):
        shp[p] = s
    rowid = np.broadcast_to(rowid.reshape(shp), av.shape)
    idt = aval_of(indices).dtype
    out = None
    for j in range(m - 1, -1, -1):
        conc = np.array([c[min(j, len(c) - 1)][1] for c in cands]).reshape(ie.shape).astype(idt)
        o = run(conc)
        if out is None:
            out = o
            continue
        new = np.empty(av.shape, object)
        for p in np.ndindex(*av.shape):
            cl = cands[rowid[p]]
            new[p] = sel(cl[j][0], o[p], out[p]) if j < len(cl) else out[p]
            if j == len(cl) - 1:
                new[p] = o[p]
        out = new
    return from_el(out, av.dtype, av.weak_type)


def _with_symbolic_starts(prim, data, starts, av, run):
    """case split over symbolic scalar start indices"""
    doms = []
    for s in starts:
        if is_sym(s):
            doms.append(domain(to_el(s).reshape(-1)[0]))
        else:
            doms.append([int(s)])
    combos = list(itertools.product(*doms))
    if len(combos) > 256:
        raise Unsupported("symbolic start: domain too large")
    out = run(combos[-1])
    for c in reversed(combos[:-1]):
        cond = tm.and_(*[tm.eq(to_el(s).reshape(-1)[0], tm.const(v)) for s, v in zip(starts, c) if is_sym(s)])
        o = run(c)
        new = np.empty(av.shape, object)
        for p in np.ndindex(*av.shape):
            new[p] = sel(cond, o[p], out[p])
        out = new
    return out


@rule("dynamic_slice")
def _dslice(prim, vals, params):
    operand, starts = vals[0], vals[1:]
    av = out_aval(prim, vals, params)

    def run(c):
        pool, res = structural(prim, [operand], lambda a: prim.bind(a, *[np.int32(x) for x in c], **params))
        return lookup(pool, res, av.dtype)

    return from_el(_with_symbolic_starts(prim, operand, starts, av, run), av.dtype, av.weak_type)


@rule("dynamic_update_slice")
def _dus(prim, vals, params):
    operand, upd, starts = vals[0], vals[1], vals[2:]
    av = out_aval(prim, vals, params)

    def run(c):
        pool, res = structural(prim, [operand, upd], lambda a, b: prim.bind(a, b, *[np.int32(x) for x in c], **params))
        return lookup(pool, res, av.dtype)

    return from_el(_with_symbolic_starts(prim, operand, starts, av, run), av.dtype, av.weak_type)


@rule("scatter")
def _scatter(prim, vals, params):
    operand, indices, upd = vals
    av = out_aval(prim, vals, params)
    p = dict(params)
    p["update_jaxpr"] = None
    p["update_consts"] = ()

    def run(idx):
        def b(a, u):
            return jax.lax.scatter(a, jnp.asarray(idx), u, params["dimension_numbers"],
                                   indices_are_sorted=params["indices_are_sorted"],
                                   unique_indices=params["unique_indices"], mode=params["mode"])

        pool, res = structural(prim, [operand, upd], b)
        return lookup(pool, res, av.dtype)

    if not is_sym(indices):
        return from_el(run(indices), av.dtype, av.weak_type)
    ie = to_el(indices)
    flat = ie.reshape(-1)
    doms = [domain(x) for x in flat]
    combos = list(itertools.product(*doms))
    if len(combos) > 256:
        raise Unsupported("scatter: index domain too large")
    idt = aval_of(indices).dtype
    out = run(np.array(combos[-1]).reshape(ie.shape).astype(idt))
    for c in reversed(combos[:-1]):
        cond = tm.and_(*[tm.eq(x, tm.const(v)) for x, v in zip(flat, c)])
        o = run(np.array(c).reshape(ie.shape).astype(idt))
        new = np.empty(av.shape, object)
        for q in np.ndindex(*av.shape):
            new[q] = sel(cond, o[q], out[q])
        out = new
    return from_el(out, av.dtype, av.weak_type)


@rule("scatter-add", "scatter_add")
def _scatter_add(prim, vals, params):
    operand, indices, upd = vals
    if is_sym(indices):
        # linear: sum over candidate positions
        ie = to_el(indices)
        flat = ie.reshape(-1)
        doms = [domain(x) for x in flat]
        combos = list(itertools.product(*doms))
        if len(combos) > 256:
            raise Unsupported("scatter-add: index domain too large")
        av = out_aval(prim, vals, params)
        idt = aval_of(indices).dtype
        out = None
        for c in reversed(combos):
            o = to_el(_scatter_add(prim, [operand, np.array(c).reshape(ie.shape).astype(idt), upd], params))
            if out is None:
                out = o
                continue
            cond = tm.and_(*[tm.eq(x, tm.const(v)) for x, v in zip(flat, c)])
            new = np.empty(av.shape, object)
            for q in np.ndindex(*av.shape):
                new[q] = sel(cond, o[q], out[q])
            out = new
        return from_el(out, av.dtype)
    av = out_aval(prim, vals, params)
    ue = to_el(upd).reshape(-1)
    out = to_el(operand).copy()
    of = out.reshape(-1)
    # one update element at a time: where does it land?
    ushape = aval_of(upd).shape
    with core.set_current_trace(core.eval_trace):
        for k in range(ue.size):
            m = np.zeros(ue.size, np.int32)
            m[k] = 1
            r = jax.lax.scatter_add(jnp.zeros(av.shape, jnp.int32), jnp.asarray(indices), jnp.asarray(m.reshape(ushape)),
                                    params["dimension_numbers"], indices_are_sorted=params["indices_are_sorted"],
                                    unique_indices=params["unique_indices"], mode=params["mode"])
            r = np.asarray(r).reshape(-1)
            for q in np.nonzero(r)[0]:
                of[q] = fl.add(of[q], ue[k])
    return from_el(of.reshape(av.shape), av.dtype)


# --- reductions
def reducer(f, empty):
    def r(prim, vals, params):
        e = to_el(vals[0])
        av = out_aval(prim, vals, params)
        axes = tuple(params["axes"])
        keep = [i for i in range(e.ndim) if i not in axes]
        x = np.transpose(e, keep + list(axes)).reshape([e.shape[i] for i in keep] + [-1])
        out = np.empty(av.shape, object)
        for i in np.ndindex(*av.shape):
            col = x[i]
            if len(col) == 0:
                out[i] = empty(av.dtype)
                continue
            a = col[0]
            for b in col[1:]:
                a = f(a, b)
            out[i] = a
        return from_el(out, av.dtype, av.weak_type)

    return r


RULES["reduce_sum"] = reducer(fl.add, lambda d: ZERO)
RULES["reduce_prod"] = reducer(fl.mul, lambda d: ONE)
RULES["reduce_max"] = reducer(lambda a, b: tm.or_(a, b) if _isB(a) else fl.max_(a, b), lambda d: fl.NINF)
RULES["reduce_min"] = reducer(lambda a, b: tm.and_(a, b) if _isB(a) else fl.min_(a, b), lambda d: fl.PINF)
RULES["reduce_and"] = reducer(tm.and_, lambda d: TRUE)
RULES["reduce_or"] = reducer(tm.or_, lambda d: FALSE)


def _argred(better):
    def r(prim, vals, params):
        e = to_el(vals[0])
        av = out_aval(prim, vals, params)
        (ax,) = params["axes"]
        x = np.moveaxis(e, ax, -1)
        out = np.empty(av.shape, object)
        for i in np.ndindex(*av.shape):
            col = x[i]
            best, bi = col[0], ZERO
            for k in range(1, len(col)):
                c = better(col[k], best)
                # NaN wins (jax/numpy semantics), first occurrence
                c = tm.or_(c, tm.and_(fl.nan(col[k]), tm.not_(fl.nan(best))))
                c = tm.and_(c, tm.not_(fl.nan(best)))
                best = sel(c, col[k], best)
                bi = tm.ite(c, tm.const(k), bi)
            out[i] = bi
        return from_el(out, av.dtype)

    return r


RULES["argmax"] = _argred(lambda a, b: (tm.and_(a, tm.not_(b)) if _isB(a) else fl.lt(b, a)))
RULES["argmin"] = _argred(lambda a, b: (tm.and_(b, tm.not_(a)) if _isB(a) else fl.lt(a, b)))


def cumul(f):
    def r(prim, vals, params):
        e = to_el(vals[0])
        av = out_aval(prim, vals, params)
        x = np.moveaxis(e, params["axis"], 0).copy()
        n = x.shape[0]
        rng = range(n - 2, -1, -1) if params["reverse"] else range(1, n)
        for k in rng:
            p = k + 1 if params["reverse"] else k - 1
            for i in np.ndindex(*x.shape[1:]):
                x[(k,) + i] = f(x[(p,) + i], x[(k,) + i])
        return from_el(np.moveaxis(x, 0, params["axis"]), av.dtype)

    return r


RULES["cumsum"] = cumul(fl.add)
RULES["cumprod"] = cumul(fl.mul)
RULES["cummax"] = cumul(fl.max_)
RULES["cummin"] = cumul(fl.min_)


@rule("dot_general")
def _dot(prim, vals, params):
    a, b = to_el(vals[0]), to_el(vals[1])
    av = out_aval(prim, vals, params)
    (lc, rc), (lb, rb) = params["dimension_numbers"]
    lo = [i for i in range(a.ndim) if i not in lc and i not in lb]
    ro = [i for i in range(b.ndim) if i not in rc and i not in rb]
    A = np.transpose(a, list(lb) + lo + list(lc))
    B = np.transpose(b, list(rb) + ro + list(rc))
    bs = A.shape[:len(lb)]
    ls = A.shape[len(lb):len(lb) + len(lo)]
    rs = B.shape[len(rb):len(rb) + len(ro)]
    k = int(np.prod(A.shape[len(lb) + len(lo):], dtype=int))
    A = A.reshape(bs + ls + (k,))
    B = B.reshape(bs + rs + (k,))
    out = np.empty(bs + ls + rs, object)
    for i in np.ndindex(*bs):
        for p in np.ndindex(*ls):
            for q in np.ndindex(*rs):
                x, y = A[i + p], B[i + q]
                s = ZERO
                for t in range(k):
                    s = fl.add(s, fl.mul(x[t], y[t]))
                out[i + p + q] = s
    return from_el(out, av.dtype)


@rule("sort")
def _sort(prim, vals, params):
    ops = [to_el(v).copy() for v in vals]
    dim, nk = params["dimension"], params["num_keys"]
    dts = [aval_of(v).dtype for v in vals]
    if any(isinstance(e, T) and e.sort == "BITS" for e in ops[0].reshape(-1)):
        return _sort_bits(vals, params)
    xs = [np.moveaxis(o, dim, -1) for o in ops]
    n = xs[0].shape[-1]
    if n > 12:
        raise Unsupported("sort of a long symbolic array")

    def less(a, b):
        if _isB(a):
            return tm.and_(tm.not_(a), b)
        # NaN sorts last
        return tm.or_(fl.lt(a, b), tm.and_(fl.nan(b), tm.not_(fl.nan(a))))

    for i in np.ndindex(*xs[0].shape[:-1]):
        for p in range(n - 1):
            for j in range(n - 1 - p):
                c = FALSE
                eqs = TRUE
                for kk in range(nk):
                    a, b = xs[kk][i][j], xs[kk][i][j + 1]
                    c = tm.or_(c, tm.and_(eqs, less(b, a)))
                    eqs = tm.and_(eqs, tm.not_(less(b, a)), tm.not_(less(a, b)))
                for x in xs:
                    a, b = x[i + (j,)], x[i + (j + 1,)]
                    x[i + (j,)], x[i + (j + 1,)] = sel(c, b, a), sel(c, a, b)
    return [from_el(np.moveaxis(x, -1, dim), d) for x, d in zip(xs, dts)]


def _sort_bits(vals, params):
    """sorting by fresh random keys: an arbitrary permutation, keyed by the generator key"""
    keys = to_el(vals[0])
    if keys.ndim != 1 or params["num_keys"] != 1:
        raise Unsupported("random sort of this shape")
    n = keys.shape[0]
    ks = {e.args[0] for e in keys}
    if len(ks) != 1 or any(e.op != "bits" for e in keys):
        raise Unsupported("random sort with mixed keys")
    (k,) = ks
    ctx = CURRENT[0]
    pm = [ctx.draw("pm", k, (j, n)) for j in range(n)]
    if all(isinstance(x, T) and x.op == "pm" for x in pm):
        ctx.note_perm(pm)
    outs = [vals[0]]
    for v in vals[1:]:
        e = to_el(v)
        dt = aval_of(v).dtype
        o = np.empty(n, object)
        ident = all(isinstance(e[i], T) and e[i].op == "const" and e[i].val == i for i in range(n))
        for j in range(n):
            if ident:
                o[j] = pm[j]
                continue
            r = e[n - 1]
            for i in range(n - 2, -1, -1):
                r = sel(tm.eq(pm[j], tm.const(i)), e[i], r)
            o[j] = r
        outs.append(from_el(o, dt))
    return outs


@rule("optimization_barrier", "device_put")
def _ident_multi(prim, vals, params):
    return list(vals)


@rule("debug_callback")
def _dbg(prim, vals, params):
    return []


# --- randomness
def _keyaval(shape):
    kdt = _key_dtype()
    return core.ShapedArray(shape, kdt)


_KD = []


def _key_dtype():
    if not _KD:
        with core.set_current_trace(core.eval_trace):
            _KD.append(jax.random.key(0).dtype)
    return _KD[0]


def key_tracer(el):
    return SymTracer(CURRENT[0].trace, core.ShapedArray(el.shape, _key_dtype()), el)


@rule("random_wrap")
def _rwrap(prim, vals, params):
    e = to_el(vals[0])
    out = np.empty(e.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        out[i] = _wrap1(list(e[i]))
    return key_tracer(out)


def _wrap1(ws):
    if all(w.op == "kd" for w in ws) and ws[0].args[0] is ws[1].args[0] and ws[0].val == 0 and ws[1].val == 1:
        return ws[0].args[0]
    if all(w.op == "const" for w in ws):
        return tm.mk("root", val="#" + "-".join(str(int(w.val)) for w in ws), sort="K")
    if all(w.op == "site" for w in ws) and ws[0].args[0] is ws[1].args[0]:
        a = _wrap1([w.args[1] for w in ws])
        b = _wrap1([w.args[2] for w in ws])
        return tm.mk("site", (ws[0].args[0], a, b), sort="K")
    raise Unsupported(f"key data {ws}")


@rule("random_unwrap")
def _runwrap(prim, vals, params):
    e = to_el(vals[0])
    out = np.empty(e.shape + (2,), object)
    for i in np.ndindex(*e.shape):
        out[i + (0,)] = tm.keydata(e[i], 0)
        out[i + (1,)] = tm.keydata(e[i], 1)
    return SymTracer(CURRENT[0].trace, core.ShapedArray(out.shape, np.dtype("uint32")), out)


@rule("random_split")
def _rsplit(prim, vals, params):
    e = to_el(vals[0])
    shape = tuple(params["shape"])
    out = np.empty(e.shape + shape, object)
    for i in np.ndindex(*e.shape):
        CURRENT[0].key_event("split", e[i])
        for n, j in enumerate(np.ndindex(*shape)):
            out[i + j] = tm.key_child(e[i], n)
    return key_tracer(out)


@rule("random_fold_in")
def _rfold(prim, vals, params):
    e = to_el(vals[0])
    d = to_el(vals[1])
    e, d = np.broadcast_arrays(e, d)
    out = np.empty(e.shape, object)
    for i in np.ndindex(*e.shape):
        if d[i].op != "const":
            raise Unsupported("fold_in of symbolic data")
        CURRENT[0].key_event("fold", e[i])
        out[i] = tm.key_fold(e[i], int(d[i].val))
    return key_tracer(out)


@rule("random_bits")
def _rbits(prim, vals, params):
    e = to_el(vals[0])
    shape = tuple(params["shape"])
    bw = params["bit_width"]
    out = np.empty(e.shape + shape, object)
    for i in np.ndindex(*e.shape):
        CURRENT[0].key_event("bits", e[i])
        for n, j in enumerate(np.ndindex(*shape)):
            out[i + j] = tm.bits(e[i], bw, n)
    dt = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[bw]
    return SymTracer(CURRENT[0].trace, core.ShapedArray(out.shape, np.dtype(dt)), out)


@rule("shift_right_logical")
def _shr(prim, vals, params):
    def f(a, b):
        if a.sort == "BITS" and a.op == "bits" and b.op == "const":
            return tm.mk("shr", (a,), int(b.val), sort="BITS")
        raise Unsupported("shift")

    return elementwise(f)(prim, vals, params)


@rule("bitcast_convert_type")
def _bitcast(prim, vals, params):
    dst = np.dtype(params["new_dtype"])
    nm = {"float32": (9, 0x3F800000, 32), "float64": (12, 0x3FF0000000000000, 64)}.get(dst.name)

    def f(a):
        if nm and a.sort == "BITS" and a.op == "bor" and a.val == nm[1] and a.args[0].val == nm[0] and \
                a.args[0].args[0].val[0] == nm[2]:
            b = a.args[0].args[0]
            return fl.add(ONE, CURRENT[0].draw("u", b.args[0], b.val[1]))
        raise Unsupported("bitcast")

    return elementwise(f)(prim, vals, params)


@rule("erf_inv")
def _erfinv(prim, vals, params):
    dt = aval_of(vals[0]).dtype
    c = Fraction(float(np.array(np.sqrt(2), dt)))

    def f(a):
        if isinstance(a, T) and a.op == "sum" and len(a.args) == 1 and a.args[0].op == "u":
            k0, (k1,) = a.val
            if abs(float(k0) + 1) < 1e-5 and abs(float(k1) - 2) < 1e-5:
                u = a.args[0]
                return fl.mul(tm.const(1 / c), CURRENT[0].draw("nrm", u.args[0], u.val))
        return fl.uninterp("erfinv", a)

    return elementwise(f)(prim, vals, params)


@rule("rem")
def _rem(prim, vals, params):
    def f(a, b):
        if isinstance(b, T) and b.op == "const" and isinstance(a, T):
            n = int(b.val)
            if a.op == "const":
                return tm.const(int(math.fmod(a.val, n)))
            if a.sort == "BITS" and a.op == "bits":
                return tm.mk("rb", (a.args[0],), (a.val[1], n))
            if any(x.op == "rb" for x in tm.postorder([a])):
                ks = sorted({x for x in tm.postorder([a]) if x.op == "rb"}, key=lambda x: x.id)
                # an integer draw in [0,n) determined by the keys of the random words
                return CURRENT[0].draw("ri", ks[-1].args[0], (ks[-1].val[0], n))
            try:
                d = domain(a)
            except Unsupported:
                d = None
            if d is not None:
                r = tm.const(int(math.fmod(d[-1], n)))
                for v in reversed(d[:-1]):
                    r = tm.ite(tm.eq(a, tm.const(v)), tm.const(int(math.fmod(v, n))), r)
                return r
        raise Unsupported("rem")

    return elementwise(f)(prim, vals, params)


# --- linear algebra (small)
def _batched(e, nd):
    bs = e.shape[:-nd] if nd else e.shape
    return bs


@rule("cholesky")
def _chol(prim, vals, params):
    e = to_el(vals[0])
    av = aval_of(vals[0])
    n = e.shape[-1]
    out = np.full(e.shape, ZERO, dtype=object)
    for b in np.ndindex(*e.shape[:-2]):
        A, L = e[b], out[b]
        for i in range(n):
            for j in range(i + 1):
                s = A[i, j]
                for k in range(j):
                    s = fl.sub(s, fl.mul(L[i, k], L[j, k]))
                L[i, j] = fl.sqrt(s) if i == j else fl.div(s, L[j, j])
    return from_el(out, av.dtype)


@rule("triangular_solve")
def _trisolve(prim, vals, params):
    a, b = to_el(vals[0]), to_el(vals[1])
    av = aval_of(vals[1])
    left, lower, tr, unit = params["left_side"], params["lower"], params["transpose_a"], params["unit_diagonal"]
    out = np.empty(b.shape, object)
    for i in np.ndindex(*b.shape[:-2]):
        A, B = a[i], b[i]
        if not left:
            # X A = B  <=>  A^T X^T = B^T
            A, B = A.T, B.T
            lo = not lower
        else:
            lo = lower
        if tr:
            A = A.T
            lo = not lo
        n, m = B.shape
        X = np.empty((n, m), object)
        order = range(n) if lo else range(n - 1, -1, -1)
        for c in range(m):
            for r in order:
                s = B[r, c]
                for k in (range(r) if lo else range(r + 1, n)):
                    s = fl.sub(s, fl.mul(A[r, k], X[k, c]))
                X[r, c] = s if unit else fl.div(s, A[r, r])
        out[i] = X if left else X.T
    return from_el(out, av.dtype)


@rule("lu")
def _lu(prim, vals, params):
    """without row exchanges: every user of the factors needs L U = P A only, so the values agree wherever the leading minors are non-zero"""
    e = to_el(vals[0])
    av = aval_of(vals[0])
    m, n = e.shape[-2:]
    out = e.copy()
    for b in np.ndindex(*e.shape[:-2]):
        A = out[b]
        for k in range(min(m, n)):
            for i in range(k + 1, m):
                A[i, k] = fl.div(A[i, k], A[k, k])
                for j in range(k + 1, n):
                    A[i, j] = fl.sub(A[i, j], fl.mul(A[i, k], A[k, j]))
    with core.set_current_trace(core.eval_trace):
        piv = jnp.broadcast_to(jnp.arange(min(m, n), dtype=jnp.int32), e.shape[:-2] + (min(m, n),))
        perm = jnp.broadcast_to(jnp.arange(m, dtype=jnp.int32), e.shape[:-2] + (m,))
    return [from_el(out, av.dtype), piv, perm]


@rule("custom_linear_solve")
def _linsolve(prim, vals, params):
    cl, js = params["const_lengths"], params["jaxprs"]
    at = cl.matvec + cl.vecmat
    nc = cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve
    return eval_closed(js.solve, list(vals[at:at + cl.solve]) + list(vals[nc:]))


def det_el(A):
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return A[0, 0]
    s = ZERO
    for j in range(n):
        if isinstance(A[0, j], T) and A[0, j] is ZERO:
            continue
        m = np.delete(np.delete(A, 0, 0), j, 1)
        t = fl.mul(A[0, j], det_el(m))
        s = fl.add(s, t) if j % 2 == 0 else fl.sub(s, t)
    return s


def _inv_el(A):
    n = A.shape[0]
    d = det_el(A)
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            c = det_el(np.delete(np.delete(A, j, 0), i, 1))
            if (i + j) % 2:
                c = fl.neg(c)
            out[i, j] = fl.div(c, d)
    return out


# --- higher order
@rule("pjit")
def _pjit(prim, vals, params):
    cj = params["jaxpr"]
    name = params["name"]
    if name == "inv" and len(vals) == 1 and is_sym(vals[0]):
        e = to_el(vals[0])
        if e.ndim >= 2 and e.shape[-1] == e.shape[-2] <= 3:
            out = np.empty(e.shape, object)
            for i in np.ndindex(*e.shape[:-2]):
                out[i] = _inv_el(e[i])
            return [from_el(out, aval_of(vals[0]).dtype)]
    return eval_closed(cj, vals)


@rule("closed_call", "core_call", "remat", "checkpoint", "remat2", "core_closed_call")
def _call(prim, vals, params):
    j = params.get("call_jaxpr", params.get("jaxpr"))
    if isinstance(j, core.ClosedJaxpr):
        return eval_closed(j, vals)
    return eval_jaxpr(j, (), vals)


def _wiring(j):
    """primitive names and argument wiring of a jaxpr, independent of shapes"""
    ids, out = {v: i for i, v in enumerate(j.invars)}, []
    for e in j.eqns:
        out.append((e.primitive.name, tuple("lit" if isinstance(v, core.Literal) else ids[v] for v in e.invars if isinstance(v, core.Literal) or v in ids)))
        for v in e.outvars:
            ids[v] = len(ids)
    return tuple(out)


def _logaddexp_wiring():
    if not _LAE:
        with core.set_current_trace(core.eval_trace):
            e = jax.make_jaxpr(jax.numpy.logaddexp)(1.0, 2.0).jaxpr
        while e.eqns[-1].primitive.name == "pjit":
            e = e.eqns[-1].params["jaxpr"].jaxpr
        _LAE.append(_wiring(e.eqns[-1].params["call_jaxpr"].jaxpr))
    return _LAE[0]


_LAE = []


@rule("custom_jvp_call")
def _cjvp(prim, vals, params):
    j = params["call_jaxpr"]
    if len(vals) == 2 and any(is_sym(v) for v in vals) and _wiring(j.jaxpr) == _logaddexp_wiring():
        # the library's overflow-safe logaddexp; over the reals it is log(exp a + exp b)
        a, b = np.broadcast_arrays(to_el(vals[0]), to_el(vals[1]))
        if all(isinstance(e, T) for e in list(a.flat) + list(b.flat)):
            out = np.empty(a.shape, object)
            for i in np.ndindex(*a.shape):
                out[i] = tm.log(tm.add(tm.exp(a[i]), tm.exp(b[i])))
            return [from_el(out, aval_of(vals[0]).dtype)]
    return eval_closed(j, vals)


@rule("custom_vjp_call_jaxpr")
def _cvjp(prim, vals, params):
    return eval_closed(params["fun_jaxpr"], vals)


@rule("custom_lin", "linear_call")
def _unsup(prim, vals, params):
    raise Unsupported(prim.name)


@rule("cond")
def _cond(prim, vals, params):
    idx, ops = vals[0], vals[1:]
    branches = params["branches"]
    if not is_sym(idx):
        return eval_closed(branches[int(np.clip(int(idx), 0, len(branches) - 1))], ops)
    e = to_el(idx).reshape(-1)[0]
    outs = [eval_closed(b, ops) for b in branches]
    res = []
    n = len(branches)
    for k in range(len(outs[0])):
        av = aval_of(outs[0][k])
        es = [to_el(o[k]) for o in outs]
        out = np.empty(av.shape, object)
        for i in np.ndindex(*av.shape):
            r = es[-1][i]
            for b in range(n - 2, -1, -1):
                c = tm.eq(e, tm.const(b)) if e.sort == "R" else (tm.not_(e) if b == 0 else e)
                if b == 0 and e.sort == "R":
                    c = tm.le(e, ZERO)
                r = sel(c, es[b][i], r)
            out[i] = r
        res.append(from_el(out, av.dtype, getattr(av, "weak_type", False)))
    return res


def _index0(x, i):
    if is_sym(x):
        return from_el(x.el[i], x.aval.dtype)
    with core.set_current_trace(core.eval_trace):
        if hasattr(x, "dtype") and is_key_dtype(x.dtype):
            return x[i]
        return jnp.asarray(np.asarray(x)[i])


def _stack0(xs, av):
    if all(not is_sym(x) for x in xs):
        with core.set_current_trace(core.eval_trace):
            if is_key_dtype(av.dtype):
                return jnp.stack(xs)
            return jnp.asarray(np.stack([np.asarray(x) for x in xs]))
    el = np.empty((len(xs),) + tuple(av.shape[1:]), object)
    for i, x in enumerate(xs):
        e = to_el(x)
        el[i] = e if e.ndim else e[()]
    return from_el(el, av.dtype)


@rule("scan")
def _scan(prim, vals, params):
    nc, nk, L = params["num_consts"], params["num_carry"], params["length"]
    cj = params["jaxpr"]
    consts, carry, xs = vals[:nc], list(vals[nc:nc + nk]), vals[nc + nk:]
    ys = None
    order = range(L - 1, -1, -1) if params["reverse"] else range(L)
    outs = [None] * L
    for i in order:
        o = eval_closed(cj, list(consts) + carry + [_index0(x, i) for x in xs])
        carry, outs[i] = list(o[:nk]), o[nk:]
    avs = [v.aval for v in cj.jaxpr.outvars[nk:]]
    ys = []
    for k, av in enumerate(avs):
        full = core.ShapedArray((L,) + av.shape, av.dtype)
        if L == 0:
            with core.set_current_trace(core.eval_trace):
                ys.append(jnp.zeros(full.shape, full.dtype))
        else:
            ys.append(_stack0([outs[i][k] for i in range(L)], full))
    return carry + ys


@rule("while")
def _while(prim, vals, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = vals[:cn], vals[cn:cn + bn], list(vals[cn + bn:])
    for it in range(100000):
        (p,) = eval_closed(params["cond_jaxpr"], list(cc) + carry)
        if is_sym(p):
            e = p.el.reshape(-1)
            if len(e) > 1:
                raise Unsupported("batched symbolic while condition")
            go = CURRENT[0].decide(e[0])
        else:
            pa = np.asarray(p)
            if pa.ndim:
                raise Unsupported("batched while condition")
            go = bool(pa)
        if not go:
            return carry
        carry = list(eval_closed(params["body_jaxpr"], list(bc) + carry))
    raise Unsupported("while loop bound")


# equinox's own primitives (diffrax's loops): same meaning as their implementation in ordinary JAX operations
@rule("select_if_vmap")
def _select_if_vmap(prim, vals, params):
    return vals[1]


@rule("nonbatchable", "nontraceable", "nondifferentiable_backward", "unvmap_any", "unvmap_all", "unvmap_max", "maybe_set", "vprim")
def _by_impl(prim, vals, params):
    with core.set_current_trace(CURRENT[0].trace):
        return prim.impl(*vals, **params)

"""C28 Changing a flow's precision does not change the function it computes"""
from flowMC.resource.model.nf_model.base import NFModel
from harness.flows import *
from harness.c18 import spd

PREC = {"float16": jnp.float16, "bfloat16": jnp.bfloat16, "float32": jnp.float32, "float64": jnp.float64}


class Permuting(NFModel):
    """a user's own flow with integer and boolean arrays"""
    perm: jax.Array
    keep: jax.Array
    w: jax.Array
    k: int

    def __init__(self, perm, keep, w, k):
        self.perm, self.keep, self.w, self.k = perm, keep, w, k
        self._n_features = len(perm)
        self._data_mean, self._data_cov = jnp.zeros(len(perm)), jnp.eye(len(perm))

    def forward(self, x, key=None):
        y = x[self.perm]
        return jnp.where(self.keep, y, y * jnp.exp(self.w) + self.k), jnp.sum(jnp.where(self.keep, 0, self.w))

    def inverse(self, x):
        y = jnp.where(self.keep, x, (x - self.k) * jnp.exp(-self.w))
        return y[jnp.argsort(self.perm)], -jnp.sum(jnp.where(self.keep, 0, self.w))

    def log_prob(self, x):
        y, d = self.forward(x)
        return d - jnp.sum(y**2)

    def sample(self, rng_key, n_samples):
        return jax.vmap(self.inverse)(jax.random.normal(rng_key, (n_samples, self._n_features)))[0]

    def print_parameters(self):
        pass


class Convert(Harness):
    """real arithmetic: conversion of a floating number is the identity, so the maps have to be equal as functions of the parameters"""
    functions = ("NFModel.to_precision", "RealNVP.forward/inverse/log_prob/sample", "MaskedCouplingRQSpline.forward/inverse/log_prob/sample")
    rep_tol = 0.05

    def __init__(self, kind, nd, nl, names=("float32", "Float64", "float16", "bfloat16"), half=False, budget=120.0):
        self.kind, self.nd, self.nl, self.names, self.half = kind, nd, nl, names, half
        self.name = f"{kind}_d{nd}_l{nl}" + ("_half" if half else "") + ("_" + names[0] if len(names) == 1 else "")
        self.budget = budget
        self.bounds = (f"{nd} coordinates, {nl} layers, any parameters, whitening and base mean, any input; precisions {list(names)}; "
                       "conversion of a floating number taken as exact" + ("; inputs converted too" if half else ""))

    def build(self, E):
        n = self.nd
        key = jax.random.PRNGKey(2)
        if self.kind == "user":
            return Permuting(jnp.array([2, 0, 1][:n]), jnp.array([True, False, True][:n]), E.real("w", (n,)), 3)
        mean = E.real("mean", (n,))
        var = E.el(E.real("var", (n,), pos=True))
        C = np.full((n, n), ZERO, object)
        for i in range(n):
            C[i, i] = var[i]
        kw = dict(data_mean=mean, data_cov=E.wrap(C), base_dist=Gaussian(E.real("bm", (n,)), jnp.eye(n)))
        if self.kind == "realnvp":
            m = RealNVP(n, self.nl, 1, key, **kw)
            return eqx.tree_at(lambda m: m.affine_coupling, m, symbolize(E, m.affine_coupling, "w", lambda p, l: "_mask" in p))
        m = MaskedCouplingRQSpline(n, self.nl, [1], 2, key, **kw)
        if self.kind == "spline":
            return eqx.tree_at(lambda m: m.layers, m, symbolize(E, stub_splines(E, m.layers, n), "w", lambda p, l: "_mask" in p))
        # the real splines; their small constants made symbolic so that rounding of constants stays out
        s1, s2 = E.real("mbs", (self.nl,), lo=0, hi=1, los=True), E.real("mks", (self.nl,), lo=0, hi=1, los=True, his=True)
        layers = jax.tree.map(lambda b: eqx.tree_at(lambda b: (b._min_bin_size, b._min_knot_slope), b, (s1, s2)) if isinstance(b, RQSpline) else b, m.layers,
                              is_leaf=lambda b: isinstance(b, RQSpline))
        return eqx.tree_at(lambda m: m.layers, m, symbolize(E, layers, "w", lambda p, l: "_mask" in p))

    def maps(self, m, x, key):
        return {"forward": m.forward(x), "inverse": m.inverse(x), "log_prob": m.log_prob(x), "sample": m.sample(key, 2), "call": m(x)}

    def run(self, E):
        E.ctx.exact_round = True
        m = self.build(E)
        p = E.choice("precision", list(self.names))
        q = m.to_precision(p)
        x = E.real("x", (self.nd,))
        key = E.key()
        a = self.maps(m, x, key)
        dt = jax.dtypes.canonicalize_dtype(PREC[p.lower()])
        err = None
        try:
            b = self.maps(q, x.astype(dt) if self.half else x, key)
        except Unsupported:
            raise
        except Exception as e:
            err, b = f"{type(e).__name__}: {str(e)[:200]}", None
        lm, tm_ = jax.tree_util.tree_flatten(m)
        lq, tq = jax.tree_util.tree_flatten(q)
        isarr = lambda l: tr.is_sym(l) or hasattr(l, "dtype")
        leaves = []
        for u, v in zip(lm, lq):
            if isarr(u):
                leaves.append((u, v, str(u.dtype), str(getattr(v, "dtype", None)), tuple(u.shape) == tuple(np.shape(v)), bool(jnp.issubdtype(u.dtype, jnp.inexact))))
        bad = None
        try:
            m.to_precision("float8x")
        except ValueError as e:
            bad = str(e)
        E.out("a", a)
        E.out("b", b)
        return dict(err=err, a=a, b=b, leaves=leaves, dt=str(np.dtype(dt)), tree=(str(tm_) == str(tq)), bad=bad, n=(len(lm), len(lq)),
                    orig=[str(l.dtype) for l in jax.tree_util.tree_leaves(m) if isarr(l)])

    def spec(self, E, o):
        E.check(o["bad"] is not None and "float8x" in o["bad"], "an unknown precision is refused")
        E.check(o["n"][0] == o["n"][1], "same structure")
        for i, (u, v, du, dv, sh, fp) in enumerate(o["leaves"]):
            E.check(sh, f"array {i} keeps its shape")
            if fp:
                E.check(dv == o["dt"], f"floating array {i} has the requested precision")
                E.eq(E.el(v), E.el(u), f"floating array {i} keeps its value up to rounding")
            else:
                ev, eu = np.asarray(E.el(v), object), np.asarray(E.el(u), object)
                num = lambda e: tm.ite(e, ONE, ZERO) if isinstance(e, T) and e.sort == "B" else e
                E.eq(np.vectorize(num, otypes=[object])(ev), np.vectorize(num, otypes=[object])(eu), f"integer or boolean array {i} keeps its meaning")
        E.check(o["err"] is None, f"the converted flow can be evaluated and sampled {o['err'] or ''}")
        for k in o["a"] if o["b"] is not None else ():
            la, lb = jax.tree_util.tree_leaves(o["a"][k]), jax.tree_util.tree_leaves(o["b"][k])
            E.check(len(la) == len(lb), f"{k}: same outputs")
            for j, (u, v) in enumerate(zip(la, lb)):
                E.eq(E.el(v), E.el(u), f"{k} (output {j}) of the converted flow")


def harnesses(tier):
    hs = [Convert("realnvp", 2, 2), Convert("realnvp", 2, 2, half=True), Convert("spline", 2, 2), Convert("spline", 2, 2, half=True),
          Convert("user", 3, 1), Convert("rqs", 2, 1, names=("float32",)), Convert("rqs", 2, 1, names=("float16",)), Convert("rqs", 2, 1, names=("float64",)),
          Convert("realnvp", 3, 3), Convert("spline", 4, 3)]
    if tier == "thorough":
        hs += [Convert("realnvp", 5, 4), Convert("rqs", 2, 2), Convert("spline", 5, 4, half=True)]
    return hs

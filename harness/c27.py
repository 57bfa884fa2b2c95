"""C27 Target wrappers pass position, data, temperature and prior through exactly"""
import equinox as eqx

from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
from harness.common import *

VIAS = ["direct", "jit_arg", "jit_closed", "filter_jit", "vmap_x", "vmap_all", "flatten", "tree_map", "scan", "jit_vmap", "partial", "while_carry"]


def through(via, w, call, x, d, *t):
    """evaluate call(w, *t, x, d) with the wrapper crossing the named boundary"""
    if via == "direct":
        return call(w, x, d, *t)
    if via == "jit_arg":
        return jax.jit(call)(w, x, d, *t)
    if via == "jit_closed":
        return jax.jit(lambda x, d, *t: call(w, x, d, *t))(x, d, *t)
    if via == "filter_jit":
        return eqx.filter_jit(call)(w, x, d, *t)
    if via == "vmap_x":
        return jax.vmap(call, in_axes=(None, 0, None) + (None,) * len(t))(w, jnp.stack([2 * x, x]), d, *t)[1]
    if via == "vmap_all":
        two = lambda v: jnp.stack([v + 1, v])
        return jax.vmap(call, in_axes=(None, 0, 0) + (0,) * len(t))(w, two(x), jax.tree.map(two, d), *[two(v) for v in t])[1]
    if via == "flatten":
        leaves, tree = jax.tree_util.tree_flatten(w)
        return call(jax.tree_util.tree_unflatten(tree, leaves), x, d, *t)
    if via == "tree_map":
        return call(jax.tree.map(lambda v: v, jax.tree.map(lambda v: v, w)), x, d, *t)
    if via == "scan":
        return jax.lax.scan(lambda c, _: (c, call(c[0], c[1], c[2], *c[3:])), (w, x, d) + t, None, length=2)[1][1]
    if via == "jit_vmap":
        return jax.jit(jax.vmap(call, in_axes=(None, 0, None) + (None,) * len(t)))(w, jnp.stack([2 * x, x]), d, *t)[1]
    if via == "partial":
        p = jax.tree_util.Partial(lambda w, t, x, d: call(w, x, d, *t), w, t)
        return jax.jit(lambda p, x, d: p(x, d))(p, x, d)
    if via == "while_carry":
        return jax.lax.fori_loop(0, 2, lambda i, c: (call(c[1], c[2], d, *t), c[1], c[2]), (jnp.zeros((), x.dtype), w, x))[0]
    raise KeyError(via)


class Wrap(Harness):
    functions = ("LogPDF.__init__", "LogPDF.__call__", "TemperedPDF.__init__", "TemperedPDF.__call__", "TemperedPDF.tempered_log_pdf",
                 "tree_flatten", "tree_unflatten")

    def __init__(self, via, nd, kind, named=False):
        self.via, self.nd, self.kind, self.named = via, nd, kind, named
        self.name = f"{kind}_{via}_d{nd}" + ("_named" if named else "")
        self.bounds = f"{nd} dimensions, any position, nested data of 3 numbers, any temperature > 0, any (possibly NaN or infinite) values of likelihood and prior; wrapper crossing: {via}"

    def build(self, E):
        nd = self.nd
        x = E.real("x", (nd,))
        d = {"a": E.real("a"), "n": {"b": E.real("b", (2,))}}
        kw = dict(variables=[Variable(f"v{i}", bool(i % 2)) for i in range(nd)]) if self.named else dict(n_dims=nd)
        sp = ("nan", "ninf", "pinf") if self.kind in ("plain", "temper", "base") else ()
        L = E.opaque("L", special=sp)
        P = E.opaque("P", special=sp)
        if self.kind in ("plain", "grad", "two"):
            w = LogPDF(L, **kw)
        else:
            w = TemperedPDF(L, P, **kw)
        return x, d, w, L, P

    def run(self, E):
        x, d, w, L, P = self.build(E)
        o = {"x": x, "d": d}
        names = lambda w: [(v.name, v.continuous) for v in w.variables]
        o["names"] = (names(w), names(jax.tree.map(lambda v: v, w)), w.n_dims, jax.tree.map(lambda v: v, w).n_dims)
        if self.kind in ("plain", "base"):
            o["v"] = through(self.via, w, lambda w, x, d: w(x, d), x, d)
        elif self.kind == "temper":
            o["T"] = T_ = E.real("T", pos=True)
            o["v"] = through(self.via, w, lambda w, x, d, t: w.tempered_log_pdf(t, x, d), x, d, T_)
        elif self.kind == "grad":
            o["v"] = through(self.via, w, lambda w, x, d: jax.grad(lambda x: w(x, d))(x), x, d) if self.via != "while_carry" else None
            o["vd"] = jax.grad(lambda d: w(x, d))(d)
        elif self.kind == "tgrad":
            o["T"] = T_ = E.real("T", pos=True)
            o["v"] = through(self.via, w, lambda w, x, d, t: jax.grad(lambda x: w.tempered_log_pdf(t, x, d))(x), x, d, T_)
            o["vT"] = jax.grad(lambda t: w.tempered_log_pdf(t, x, d))(T_)
        elif self.kind == "two":  # the same compiled function, given one wrapper after the other
            Q = E.opaque("Q")
            w2 = LogPDF(Q, variables=w.variables)
            f = jax.jit(lambda w, x, d: w(x, d))
            o["v"] = (f(w, x, d), f(w2, x, d), f(w, x, d))
        elif self.kind == "ttwo":
            o["T"] = T_ = E.real("T", pos=True)
            P2, L2 = E.opaque("P2"), E.opaque("L2")
            w2, w3 = TemperedPDF(L, P2, variables=w.variables), TemperedPDF(L2, P, variables=w.variables)
            f = jax.jit(lambda w, x, d, t: w.tempered_log_pdf(t, x, d))
            o["v"] = (f(w, x, d, T_), f(w2, x, d, T_), f(w3, x, d, T_), f(w, x, d, T_))
        E.out("v", o["v"])
        E.out("names", repr(o["names"]))
        for k in ("vd", "vT"):
            if k in o:
                E.out(k, o[k])
        return o

    def spec(self, E, o):
        el = E.el
        x, ds = el(o["x"]), [el(v) for v in jax.tree_util.tree_leaves(o["d"])]
        f = lambda n: E.fapp(n, x, *ds)
        temper = lambda l, p: fl.add(fl.div(l, s0(el(o["T"]))), p)
        a, b, n1, n2 = o["names"]
        E.check(a == b and n1 == n2 == self.nd and len(a) == self.nd, "the variables survive flattening")
        if self.named:
            E.check(a == [(f"v{i}", bool(i % 2)) for i in range(self.nd)], "the variables are the ones given")
        if self.kind in ("plain", "base"):
            E.same(s0(el(o["v"])), f("L"), "value of the wrapped function at the same position and data")
        elif self.kind == "temper":
            E.same(s0(el(o["v"])), temper(f("L"), f("P")), "likelihood over temperature plus prior")
        elif self.kind == "grad":
            if o["v"] is not None:
                E.eq(el(o["v"]), arr([f(f"L.d0[{i}]") for i in range(self.nd)]), "gradient in the position")
            E.same(s0(el(o["vd"]["a"])), f("L.d1"), "gradient in the data")
            E.eq(el(o["vd"]["n"]["b"]), arr([f(f"L.d2[{i}]") for i in range(2)]), "gradient in nested data")
        elif self.kind == "tgrad":
            E.eq(el(o["v"]), arr([temper(f(f"L.d0[{i}]"), f(f"P.d0[{i}]")) for i in range(self.nd)]), "gradient of the tempered target")
            T_ = s0(el(o["T"]))
            E.same(s0(el(o["vT"])), fl.neg(fl.div(f("L"), fl.mul(T_, T_))), "derivative in the temperature")
        elif self.kind == "two":
            for k, (v, n) in enumerate(zip(o["v"], ["L", "Q", "L"])):
                E.same(s0(el(v)), f(n), f"each wrapper gives its own function ({k})")
        elif self.kind == "ttwo":
            for k, (v, (l, p)) in enumerate(zip(o["v"], [("L", "P"), ("L", "P2"), ("L2", "P"), ("L", "P")])):
                E.same(s0(el(v)), temper(f(l), f(p)), f"each wrapper gives its own functions ({k})")


class Several(Harness):
    """several boundaries in one process"""
    functions = Wrap.functions

    def __init__(self, kind, vias, nd, named=False):
        self.parts = [Wrap(v, nd, kind, named) for v in vias]
        self.kind, self.nd = kind, nd
        self.name = f"{kind}_d{nd}" + ("_named" if named else "")
        self.bounds = self.parts[0].bounds.rsplit(";", 1)[0] + f"; wrapper crossing each of: {', '.join(vias)}"

    def run(self, E):
        via = E.choice("via", range(len(self.parts)))
        return self.parts[via], self.parts[via].run(E)

    def spec(self, E, o):
        o[0].spec(E, o[1])


def harnesses(tier):
    g = [v for v in VIAS if v != "while_carry"]
    hs = [Several("plain", VIAS, 2), Several("base", VIAS, 2, True), Several("temper", VIAS, 2), Several("grad", g, 2), Several("tgrad", g, 2, True),
          Several("two", ["direct"], 2), Several("ttwo", ["direct"], 2), Several("temper", VIAS, 1, True)]
    hs += [Several(k, g, 4, True) for k in ("plain", "base", "temper", "grad", "tgrad")]
    if tier == "thorough":
        hs += [Several(k, g, 8, True) for k in ("plain", "base", "temper", "grad", "tgrad")]
    return hs

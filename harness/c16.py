"""C16 Whole flows invert exactly for any trained parameters"""
from harness.flows import *


class Flow(Harness):
    functions = ("RealNVP.__init__", "RealNVP.forward", "RealNVP.inverse", "MaskedCouplingRQSpline.__init__", "MaskedCouplingRQSpline.forward",
                 "MaskedCouplingRQSpline.inverse", "MaskedCouplingLayer.forward", "MaskedCouplingLayer.inverse")

    def __init__(self, kind, nd, nl, real_mlp=False):
        self.kind, self.nd, self.nl, self.real_mlp = kind, nd, nl, real_mlp
        self.name = f"{kind}_d{nd}_l{nl}" + ("_mlp" if real_mlp else "")
        self.bounds = (f"{nd} coordinates, {nl} layers, any input, any parameters; " +
                       ("networks with one hidden unit and any weights" if real_mlp else "conditioners are unknown functions") +
                       ("; splines replaced by elementwise bijections with unknown conditioners (the spline itself is C15)" if kind == "spline" else ""))

    def build(self, E):
        key = jax.random.PRNGKey(3)
        if self.kind == "realnvp":
            m = RealNVP(self.nd, self.nl, 1, key)
            m = eqx.tree_at(lambda m: m.affine_coupling, m, symbolize(E, m.affine_coupling, "w", lambda p, l: "_mask" in p) if self.real_mlp else stub_mlps(E, m.affine_coupling))
            return m
        m = MaskedCouplingRQSpline(self.nd, self.nl, [2], 3, key)
        layers = stub_splines(E, m.layers, self.nd)
        return eqx.tree_at(lambda m: m.layers, m, symbolize(E, layers, "w", lambda p, l: "_mask" in p))

    def run(self, E):
        m = self.build(E)
        x = E.real("x", (self.nd,))
        y, lf = m.forward(x)
        xb, lib = m.inverse(y)
        w, li = m.inverse(x)
        yb, lfb = m.forward(w)
        yc, lc = m(x)
        yv, lv = jax.vmap(m.forward)(jnp.stack([x, 2 * x]))
        o = dict(y=y, lf=lf, xb=xb, lib=lib, w=w, li=li, yb=yb, lfb=lfb, yc=yc, lc=lc, yv=yv[0], lv=lv[0])
        E.out("o", [o[k] for k in sorted(o)])
        return dict(o, x=x)

    def spec(self, E, o):
        g = {k: E.el(v) for k, v in o.items()}
        n = self.nd
        E.check(g["y"].shape == (n,) and g["w"].shape == (n,), "shapes")
        E.eq(g["xb"], g["x"], "inverse(forward(x)) = x")
        E.eq(g["yb"], g["x"], "forward(inverse(y)) = y")
        for k in ("lf", "lib", "li", "lfb"):
            E.check(g[k].shape == (), "the log-determinant is one number")
        E.same(fl.add(s0(g["lf"]), s0(g["lib"])), ZERO, "log-determinants cancel (forward, inverse)")
        E.same(fl.add(s0(g["li"]), s0(g["lfb"])), ZERO, "log-determinants cancel (inverse, forward)")
        E.eq(g["yc"], g["y"], "calling the flow is the forward map")
        E.same(s0(g["lc"]), s0(g["lf"]), "calling the flow reports the forward log-determinant")
        E.eq(g["yv"], g["y"], "vectorised forward map")
        E.same(s0(g["lv"]), s0(g["lf"]), "vectorised log-determinant")
        if self.nl >= 2 and not self.real_mlp:
            for i in range(n):
                for nm, v in (("forward", g["y"][i]), ("inverse", g["w"][i])):
                    own = [a for a in E.support(arr([v])) if a.op == "app" and str(a.val).endswith(f"[{i}]")]
                    E.check(bool(own), f"coordinate {i} is transformed by some layer ({nm})")


class Trained(Flow):
    """log-determinant against the Jacobian of the whole map"""

    def __init__(self, kind, nd, nl):
        super().__init__(kind, nd, nl)
        self.name += "_jac"

    def run(self, E):
        m = self.build(E)
        x = E.real("x", (self.nd,))
        o = dict(JF=jax.jacfwd(lambda v: m.forward(v)[0])(x), JI=jax.jacfwd(lambda v: m.inverse(v)[0])(x), lf=m.forward(x)[1], li=m.inverse(x)[1])
        E.out("o", [o[k] for k in sorted(o)])
        return o

    def spec(self, E, o):
        g = {k: E.el(v) for k, v in o.items()}
        log_abs_det_is(E, g["JF"], s0(g["lf"]), "forward log-determinant is that of the Jacobian")
        log_abs_det_is(E, g["JI"], s0(g["li"]), "inverse log-determinant is that of the Jacobian")


def harnesses(tier):
    hs = []
    for kind in ("realnvp", "spline"):
        hs += [Flow(kind, 1, 2), Flow(kind, 2, 1), Flow(kind, 2, 2), Flow(kind, 2, 3), Flow(kind, 3, 2), Flow(kind, 4, 2), Flow(kind, 2, 4), Trained(kind, 2, 1), Trained(kind, 2, 2),
               Flow(kind, 3, 5), Flow(kind, 5, 3), Flow(kind, 6, 2)]
    hs += [Flow("realnvp", 2, 2, True)]
    for kind in ("realnvp", "spline"):
        hs += [Flow(kind, 2, 8), Flow(kind, 8, 2), Flow(kind, 4, 4), Trained(kind, 3, 2), Trained(kind, 2, 3)]
    if tier == "thorough":
        for kind in ("realnvp", "spline"):
            hs += [Flow(kind, 3, 9), Flow(kind, 10, 2), Flow(kind, 5, 5)]
    return hs

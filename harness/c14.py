"""C14 Affine and coupling bijections invert exactly with exact log-determinants"""
from harness.flows import *

MASKS = {1: [(0,), (1,)], 2: [(0, 0), (0, 1), (1, 0), (1, 1)], 3: [(1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (0, 0, 0), (1, 0, 1)], 4: [(0, 1, 0, 1), (1, 1, 0, 0), (1, 0, 0, 1)], 5: [(0, 1, 0, 1, 1), (1, 1, 0, 0, 0)],
         6: [(0, 1, 0, 1, 0, 1), (1, 1, 0, 0, 1, 0)]}


class Bij(Harness):
    functions = ("MLPAffine.forward", "MLPAffine.inverse", "ScalarAffine.forward", "ScalarAffine.inverse", "AffineCoupling.forward",
                 "AffineCoupling.inverse", "MaskedCouplingLayer.forward", "MaskedCouplingLayer.inverse")

    def __init__(self, kind, nd, inner=None, mask_dtype=None, real_mlp=False):
        self.kind, self.nd, self.inner, self.mdt, self.real_mlp = kind, nd, inner, mask_dtype, real_mlp
        self.name = f"{kind}_d{nd}" + (f"_{inner}" if inner else "") + (f"_{mask_dtype}" if mask_dtype else "") + ("_mlp" if real_mlp else "")
        self.masked = kind in ("coupling", "masked")
        self.bounds = (f"{nd} coordinates" + (f", masks {MASKS[nd]}" if self.masked else "") + ", any input, any parameters, " +
                       ("networks with one hidden unit and any weights" if real_mlp else "conditioners are unknown differentiable functions"))

    def mlp(self, E, tag):
        if self.real_mlp:
            return symbolize(E, MLP([self.nd, 1, self.nd], jax.random.PRNGKey(0), activation=jnp.tanh), tag)
        return StubMLP(E.real(tag, (1,)), self.nd, self.nd, tag)

    def affine(self, E):
        return MLPAffine(self.mlp(E, "s"), self.mlp(E, "t"), E.real("dt"))

    def build(self, E):
        nd = self.nd
        mask = None
        if self.masked:
            m = E.choice("mask", MASKS[nd])
            mask = np.array(m)
            marr = jnp.asarray(mask, bool if self.mdt == "bool" else jnp.result_type(float))
        if self.kind == "affine":
            return self.affine(E), None, True
        if self.kind == "scalar":
            sh = () if self.inner != "vector" else (nd,)
            return ScalarAffine(E.real("scale", sh), E.real("shift", sh)), None, True
        if self.kind == "coupling":
            b = AffineCoupling(nd, 2, marr, jax.random.PRNGKey(1), dt=E.real("dt"))
            if self.real_mlp:
                b = eqx.tree_at(lambda b: (b.scale_MLP, b.translate_MLP), b, (self.mlp(E, "s"), self.mlp(E, "t")))
            else:
                b = stub_mlps(E, b)
            return b, mask == 0, False
        inner = {"affine": self.affine, "scalar": lambda E: ScalarAffine(E.real("scale"), E.real("shift")),
                 "elementwise": lambda E: StubElementwise(E.real("theta", (1,)), nd)}[self.inner](E)
        return MaskedCouplingLayer(inner, marr), mask == 1, False

    def run(self, E):
        b, fixed, elementwise = self.build(E)
        nd = self.nd
        x = E.real("x", (nd,))
        c = E.real("c", (nd,))
        args = () if self.kind == "coupling" else (c,)
        F = lambda v: b.forward(v, *args)
        I = lambda v: b.inverse(v, *args)
        y, lf = F(x)
        xb, lib = I(y)
        w, li = I(x)
        yb, lfb = F(w)
        yc, lc = b(x, *args)
        o = dict(y=y, lf=lf, xb=xb, lib=lib, w=w, li=li, yb=yb, lfb=lfb, JF=jax.jacfwd(lambda v: F(v)[0])(x), JI=jax.jacfwd(lambda v: I(v)[0])(x),
                 yc=yc, lc=lc)
        E.out("o", [o[k] for k in sorted(o)])
        return dict(o, x=x, fixed=fixed, ew=elementwise)

    def spec(self, E, o):
        g = {k: (E.el(v) if k not in ("fixed", "ew") else v) for k, v in o.items()}
        n = self.nd
        E.check(g["y"].shape == (n,) and g["w"].shape == (n,), "shapes")
        E.eq(g["xb"], g["x"], "inverse(forward(x)) = x")
        E.eq(g["yb"], g["x"], "forward(inverse(y)) = y")
        E.eq(g["yc"], g["y"], "calling the bijection is the forward map")
        if o["ew"]:
            T_ = lambda l: per_coordinate(l, n)
        else:
            E.check(all(g[k].shape == () for k in ("lf", "lib", "li", "lfb")), "one log-determinant for the whole map")
            T_ = lambda l: total(l, n)
        E.same(T_(g["lc"]), T_(g["lf"]), "calling the bijection reports the forward log-determinant")
        E.same(fl.add(T_(g["lf"]), T_(g["lib"])), ZERO, "log-determinants cancel (forward, inverse)")
        E.same(fl.add(T_(g["li"]), T_(g["lfb"])), ZERO, "log-determinants cancel (inverse, forward)")
        log_abs_det_is(E, g["JF"], T_(g["lf"]), "forward log-determinant is that of the Jacobian")
        log_abs_det_is(E, g["JI"], T_(g["li"]), "inverse log-determinant is that of the Jacobian")
        if o["ew"]:
            for nm, J, l in (("forward", g["JF"], g["lf"]), ("inverse", g["JI"], g["li"])):
                lb = np.broadcast_to(np.asarray(l, object), (n,))
                for i in range(n):
                    for j in range(n):
                        E.same(J[i, j], fl.exp(lb[i]) if i == j else ZERO, f"{nm} acts coordinate by coordinate [{i},{j}]")
        if o["fixed"] is not None:
            for i in range(n):
                if o["fixed"][i]:
                    E.same(g["y"][i], g["x"][i], f"masked coordinate {i} passes through (forward)")
                    E.same(g["w"][i], g["x"][i], f"masked coordinate {i} passes through (inverse)")


def harnesses(tier):
    hs = [Bij("affine", 1), Bij("affine", 2), Bij("affine", 3), Bij("affine", 2, real_mlp=True),
          Bij("scalar", 1), Bij("scalar", 3), Bij("scalar", 2, "vector"),
          Bij("coupling", 2), Bij("coupling", 3), Bij("coupling", 2, real_mlp=True), Bij("coupling", 1),
          Bij("masked", 2, "affine", "float"), Bij("masked", 3, "affine", "bool"), Bij("masked", 3, "scalar", "bool"), Bij("masked", 2, "scalar", "float"),
          Bij("masked", 3, "elementwise", "float"), Bij("masked", 2, "elementwise", "bool"), Bij("masked", 2, "affine", "float", real_mlp=True),
          Bij("coupling", 4), Bij("masked", 4, "affine", "float"), Bij("masked", 4, "elementwise", "bool"), Bij("affine", 4)]
    hs += [Bij("coupling", 6), Bij("masked", 6, "affine", "float"), Bij("masked", 6, "elementwise", "bool"), Bij("affine", 6), Bij("coupling", 3, real_mlp=True), Bij("masked", 3, "affine", "bool", real_mlp=True)]
    if tier == "thorough":
        hs += [Bij("affine", 8), Bij("coupling", 5), Bij("masked", 5, "affine", "bool")]
    return hs

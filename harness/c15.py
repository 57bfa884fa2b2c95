"""C15 Rational-quadratic spline is a monotone bijection of the line"""
from harness.flows import *


TINY = tm.const(float(np.finfo(np.float32).tiny))


class Raw(eqx.Module):
    """conditioner that returns chosen raw parameters"""
    raw: jax.Array
    n_input: int
    n_output: int

    def __call__(self, c):
        return self.raw

    @property
    def dtype(self):
        return self.raw.dtype


def total(v):
    s = ZERO
    for e in v:
        s = fl.add(s, e)
    return s


def scal(E, e):
    return E.wrap(arr([e])).reshape(())


def unsoftplus(E, v):
    """log(exp(v) - 1)"""
    if not E.sym:
        return fl.add(v, fl.log(fl.sub(ONE, fl.exp(fl.neg(v)))))
    return fl.log(fl.sub(fl.exp(v), ONE))


def bin_ref(z, yk, w, h, d0, d1):
    """value, derivative, denominator of the rational quadratic on one bin, z in [0, 1]"""
    s = fl.div(h, w)
    q = fl.mul(z, fl.sub(ONE, z))
    den = fl.add(s, fl.mul(fl.sub(fl.add(d0, d1), fl.mul(tm.const(2), s)), q))
    z2, y2 = fl.mul(z, z), fl.mul(fl.sub(ONE, z), fl.sub(ONE, z))
    y = fl.add(yk, fl.div(fl.mul(h, fl.add(fl.mul(s, z2), fl.mul(d0, q))), den))
    num = fl.add(fl.add(fl.mul(d1, z2), fl.mul(tm.const(2), fl.mul(s, q))), fl.mul(d0, y2))
    return y, fl.div(fl.mul(fl.mul(s, s), num), fl.mul(den, den)), den


class Knots(Harness):
    """knots for free raw parameters"""
    functions = ("RQSpline.__init__", "RQSpline.get_params", "_normalize_bin_sizes", "_normalize_knot_slopes")
    prune = True

    def __init__(self, K, nf=1):
        self.K, self.nf = K, nf
        self.name = f"knots_K{K}" + (f"_d{nf}" if nf > 1 else "")
        self.bounds = f"{K} bins, {nf} coordinates, any raw parameters, any range, minimum bin size and minimum slope below 1"

    def run(self, E):
        K = self.K
        mb, mp, lo, rest = E.real("mb", (), pos=True), E.real("mp", (), lo=0, hi=1, los=True, his=True), E.real("lo", ()), E.real("rest", (), pos=True)
        r = E.real("r", (self.nf * (3 * K + 1),))
        e = {k: s0(E.el(v)) for k, v in dict(mb=mb, mp=mp, lo=lo, rest=rest).items()}
        e["hi"] = fl.add(e["lo"], fl.add(e["rest"], fl.mul(tm.const(K), e["mb"])))
        e["ms"] = fl.sub(ONE, e["mp"])
        m = RQSpline(Raw(r, self.nf, self.nf * (3 * K + 1)), lo, scal(E, e["hi"]), mb, scal(E, e["ms"]))
        p = m.get_params(jnp.zeros(1))
        E.out("o", list(p))
        return p, e, m

    def spec(self, E, o):
        p, e, m = o
        K = self.K
        xs, ys, ds = (E.el(v) for v in p)
        E.check(xs.shape == ys.shape == ds.shape == (self.nf, K + 1), "one row of knots per coordinate")
        for i in range(self.nf):
            for nm, v in (("x", xs[i]), ("y", ys[i])):
                E.same(v[0], e["lo"], f"first {nm} knot is the start of the range")
                E.same(v[K], e["hi"], f"last {nm} knot is the end of the range")
                for k in range(K):
                    E.check(fl.le(e["mb"], fl.sub(v[k + 1], v[k])), f"{nm} bin is no smaller than the minimum")
                    E.check(fl.lt(v[k], v[k + 1]), f"{nm} knots increase")
            for k in range(K + 1):
                E.check(fl.le(e["ms"], ds[i][k]), "slope is no smaller than the minimum")


class Map(Harness):
    """the spline maps for any knots: raw parameters are the ones that give bins w, h and slopes D; bin dep takes the
    height that makes both totals agree"""
    prune = True
    functions = ("RQSpline.forward", "RQSpline.inverse", "RQSpline.get_params", "_rational_quadratic_spline_fwd", "_rational_quadratic_spline_inv", "_safe_quadratic_root")

    def spline(self, E, K, dep):
        mb = s0(E.el(E.real("mb", (), pos=True)))
        mp = s0(E.el(E.real("mp", (), lo=0, hi=1, los=True, his=True)))
        ms = fl.sub(ONE, mp)
        lo = s0(E.el(E.real("lo", ())))
        w, s, D = (list(E.el(E.real(n, (k,), pos=True))) for n, k in (("w", K), ("s", K), ("D", K + 1)))
        h = [fl.mul(a, b) for a, b in zip(s, w)]
        h[dep] = fl.sub(total(w), total(h[:dep] + h[dep + 1:]))
        for v in w + h:
            E.assume(fl.lt(mb, v))
        self.back = {}
        if E.sym:
            # slopes D = ms + d; the run sees d, the obligations D
            ds = list(E.el(E.real("d", (K + 1,), pos=True)))
            d = [fl.add(v, ms) for v in ds]
            for a, b in zip(ds, D):
                self.back[a] = fl.sub(b, ms)
                E.assume(fl.lt(ZERO, fl.sub(b, ms)))
        else:
            ds, d = [fl.sub(v, ms) for v in D], D
        hi = fl.add(lo, total(w))
        off = fl.log(fl.sub(fl.exp(mp), ONE))
        raw = [fl.log(fl.sub(v, mb)) for v in w + h] + [fl.sub(unsoftplus(E, v), off) for v in ds]
        m = RQSpline(Raw(E.wrap(arr(raw)), 1, 3 * K + 1), scal(E, lo), scal(E, hi), scal(E, mb), scal(E, ms))
        xk, yk = [lo], [lo]
        for a, b in zip(w, h):
            xk.append(fl.add(xk[-1], a))
            yk.append(fl.add(yk[-1], b))
        return m, w, h, d, xk, yk

    def settle(self, E, o):
        """all elements in terms of the slopes"""
        if self.back:
            E.ctx.assumptions[:] = [tm.subst([a], self.back)[0] for a in E.ctx.assumptions]
            E.ctx._prob = None
            E.outs = {k: [E.subst(v, self.back) for v in vs] for k, vs in E.outs.items()}

        def f(v):
            el = arr([v]) if isinstance(v, (T, fl.Fl)) else v if isinstance(v, np.ndarray) and v.dtype == object else E.el(v)
            el = E.subst(el, self.back) if self.back else el
            return el[0] if isinstance(v, (T, fl.Fl)) else el

        return jax.tree.map(f, o, is_leaf=lambda v: isinstance(v, (T, fl.Fl)))


class Inside(Map):
    def __init__(self, K, k):
        self.K, self.k = K, k
        self.name = f"inside_K{K}_b{k}"
        self.bounds = f"{K} bins with any knots and slopes, any point strictly inside bin {k}"

    def run(self, E):
        K, k = self.K, self.k
        m, w, h, d, xk, yk = self.spline(E, K, (k + 1) % K)
        z = s0(E.el(E.real("z", (), lo=0, hi=1, los=True, his=True)))
        x = E.wrap(arr([fl.add(xk[k], fl.mul(z, w[k]))]))
        c = jnp.zeros(1)
        y, ld = m.forward(x, c)
        yc, ldc = m(x, c)
        J = jax.jacfwd(lambda v: m.forward(v, c)[0])(x)
        E.out("o", [y, ld, J])
        return dict(y=y, ld=ld, J=J, yc=yc, ldc=ldc), dict(w=w, h=h, d=d, yk=yk, z=z)

    def spec(self, E, o):
        k = self.k
        o, g = self.settle(E, o[0]), self.settle(E, o[1])
        y, ld, J = s0(o["y"]), s0(o["ld"]), s0(o["J"])
        ref, der, den = bin_ref(g["z"], g["yk"][k], g["w"][k], g["h"][k], g["d"][k], g["d"][k + 1])
        E.same(y, ref, "forward value")
        E.same(fl.exp(ld), der, "log-determinant is the log of the derivative of the map")
        E.same(J, der, "automatic derivative")
        E.check(fl.lt(ZERO, den), "denominator is positive")
        E.check(fl.lt(ZERO, J), "increasing")
        E.same(s0(o["yc"]), y, "calling the spline is the forward map")
        E.same(s0(o["ldc"]), ld, "calling the spline reports its log-determinant")


class InvIn(Map):
    def __init__(self, K, k):
        self.K, self.k = K, k
        self.name = f"inverse_K{K}_b{k}"
        self.bounds = f"{K} bins with any knots and slopes, any point strictly inside bin {k}"

    def run(self, E):
        K, k = self.K, self.k
        m, w, h, d, xk, yk = self.spline(E, K, (k + 1) % K)
        z = s0(E.el(E.real("z", (), lo=0, hi=1, los=True, his=True)))
        ref, der, den = bin_ref(z, yk[k], w[k], h[k], d[k], d[k + 1])
        c = jnp.zeros(1)
        x, ld = m.inverse(E.wrap(arr([ref])), c)
        E.out("o", [x, ld])
        return dict(x=x, ld=ld), dict(w=w, h=h, d=d, xk=xk, yk=yk, z=z)

    def spec(self, E, o):
        k = self.k
        o, g = self.settle(E, o[0]), self.settle(E, o[1])
        x, ld = s0(o["x"]), s0(o["ld"])
        ref, der, den = bin_ref(g["z"], g["yk"][k], g["w"][k], g["h"][k], g["d"][k], g["d"][k + 1])
        M = fl.div(fl.mul(der, den), fl.div(g["h"][k], g["w"][k]))
        M2, z = fl.mul(M, M), g["z"]
        E.assume(fl.lt(TINY, M2))
        for path, (v, l) in E.settle([x, ld], [z, fl.sub(TINY, M2)], [(M2, M)]):
            E.same(v, fl.add(g["xk"][k], fl.mul(z, g["w"][k])), "inverse of the forward value", when=path)
            E.same(fl.exp(l), fl.div(ONE, der), "inverse log-determinant is the log of the derivative of the inverse", when=path)


class Points(Map):
    """knots and tails, both directions"""

    def __init__(self, K, where):
        self.K, self.where = K, where
        self.name = f"{where}_K{K}"
        self.bounds = f"{K} bins with any knots and slopes, " + ("every knot" if where == "at_knots" else "any point outside the range, at any distance")

    def run(self, E):
        K = self.K
        m, w, h, d, xk, yk = self.spline(E, K, K - 1)
        c = jnp.zeros(1)
        if self.where == "at_knots":
            pts = [(xk[k], yk[k], d[k]) for k in range(K + 1)]
        else:
            t = s0(E.el(E.real("t", (), pos=True)))
            pts = [(fl.sub(xk[0], t), fl.sub(yk[0], fl.mul(d[0], t)), d[0]), (fl.add(xk[K], t), fl.add(yk[K], fl.mul(d[K], t)), d[K])]
        res = []
        for px, py, sl in pts:
            y, ld = m.forward(E.wrap(arr([px])), c)
            x, li = m.inverse(E.wrap(arr([py])), c)
            res.append((y, ld, x, li))
        E.out("o", res)
        return res, pts

    def spec(self, E, o):
        for (y, ld, x, li), (px, py, sl) in zip(*o):
            y, ld, x, li, px, py, sl = (s0(v) for v in self.settle(E, [y, ld, x, li] + [arr([e]) for e in (px, py, sl)]))
            E.same(y, py, "forward value")
            E.same(fl.exp(ld), sl, "forward log-determinant is the log of the slope")
            for path, (v, l) in E.settle([x, li]):
                E.same(v, px, "inverse value", when=path)
                E.same(fl.exp(l), fl.div(ONE, sl), "inverse log-determinant is minus the log of the slope", when=path)


class Reference(Harness):
    """the rational quadratic the maps are compared with joins the knots and increases"""
    functions = ()
    bounds = "any bin width, height and slopes"

    def __init__(self):
        self.name = "joins"

    def run(self, E):
        v = {n: s0(E.el(E.real(n, (), pos=True))) for n in ("w", "h", "d0", "d1")}
        v["yk"] = s0(E.el(E.real("yk", ())))
        v["z"] = s0(E.el(E.real("z", (), lo=0, hi=1)))
        return v

    def spec(self, E, v):
        r = lambda z: bin_ref(z, v["yk"], v["w"], v["h"], v["d0"], v["d1"])
        E.same(r(ZERO)[0], v["yk"], "left end")
        E.same(r(ONE)[0], fl.add(v["yk"], v["h"]), "right end")
        E.same(r(ZERO)[1], v["d0"], "slope at the left end")
        E.same(r(ONE)[1], v["d1"], "slope at the right end")
        E.check(fl.lt(ZERO, r(v["z"])[2]), "no pole")
        E.check(fl.lt(ZERO, r(v["z"])[1]), "increasing")


class Rows(Harness):
    """each coordinate is transformed by its own row of parameters, which depend on the condition only"""
    functions = ("RQSpline.forward", "RQSpline.inverse", "RQSpline.get_params")

    def __init__(self, nf, K):
        self.nf, self.K = nf, K
        self.name = f"rows_d{nf}_K{K}"
        self.bounds = f"{nf} coordinates, {K} bins, any conditioner, condition and input"

    def run(self, E):
        nf, K = self.nf, self.K
        P = 3 * K + 1
        c, x = E.real("c", (2,)), E.real("x", (nf,))
        stub = StubMLP(E.real("th", ()), nf, nf * P, "")
        m = RQSpline(stub, -2.0, 2.0, 0.125, 0.125)
        raw = E.el(stub(c)).reshape(nf, P)
        one = [RQSpline(Raw(E.wrap(raw[i]), 1, P), -2.0, 2.0, 0.125, 0.125) for i in range(nf)]
        z = jnp.zeros(2)
        o = dict(f=m.forward(x, c), i=m.inverse(x, c), c=m(x, c), f1=[q.forward(x[i:i + 1], z) for i, q in enumerate(one)], i1=[q.inverse(x[i:i + 1], z) for i, q in enumerate(one)])
        E.out("o", [o["f"], o["i"]])
        return o

    def spec(self, E, o):
        for k, ref in (("f", "f1"), ("i", "i1"), ("c", "f1")):
            for part, nm in ((0, "value"), (1, "log-determinant")):
                v = E.el(o[k][part])
                E.check(v.shape == (self.nf,), "one number per coordinate")
                for i in range(self.nf):
                    E.same(v[i], s0(E.el(o[ref][i][part])), f"{dict(f='forward', i='inverse', c='call')[k]} {nm} of coordinate {i} uses its own parameters")


def harnesses(tier):
    hs = [Reference(), Knots(1), Knots(2), Knots(3), Knots(2, 2), Rows(2, 2), Knots(4), Knots(3, 3), Points(4, "at_knots"), Points(4, "tails")]
    for K in (2, 3):
        hs += [Points(K, "at_knots"), Points(K, "tails")]
        hs += [c(K, k) for c in (Inside, InvIn) for k in range(K)]
    hs += [c(4, k) for c in (Inside, InvIn) for k in range(4)]
    if tier == "thorough":
        hs += [Rows(3, 2), Rows(2, 3), Knots(8), Points(6, "at_knots"), Points(6, "tails")] + [c(6, k) for c in (Inside, InvIn) for k in range(6)]
    return hs

"""C17 Flow log density is exactly the density of its samples"""
from harness.flows import *
from harness.c16 import Flow as FlowModels
from harness.c18 import StubDist, normal_logpdf, spd


class GivenBase(Distribution):
    """base whose draws are given; unknown log density"""
    z: jax.Array

    def __init__(self, z):
        self.z = z

    def log_prob(self, x):
        return opaque_call("B", [x])

    def sample(self, rng_key, n_samples):
        return self.z[:n_samples]


class Density(Harness):
    functions = ("RealNVP.sample", "RealNVP.log_prob", "MaskedCouplingRQSpline.sample", "MaskedCouplingRQSpline.log_prob", "NFModel.data_mean", "NFModel.data_cov")

    def __init__(self, kind, nd, nl, base="given", ns=2):
        self.kind, self.nd, self.nl, self.base, self.ns = kind, nd, nl, base, ns
        self.name = f"{kind}_d{nd}_l{nl}_{base}"
        self.inner = FlowModels(kind, nd, nl)
        self.bounds = (f"{nd} coordinates, {nl} layers, {ns} samples, any parameters, data mean, positive definite data covariance; base: " +
                       {"given": "unknown density, any draws", "default": "the default normal", "gauss": "any Gaussian", "stub": "unknown density", "composite": "composite of two unknown densities"}[base] +
                       "; conditioners are unknown functions" + ("; splines replaced by elementwise bijections (C15)" if kind == "spline" else ""))

    def model(self, E, base, mean, cov):
        if self.kind == "realnvp":
            m = RealNVP(self.nd, self.nl, 1, jax.random.PRNGKey(3), **({"base_dist": base} if base is not None else {}), data_mean=mean, data_cov=cov)
            return eqx.tree_at(lambda m: m.affine_coupling, m, stub_mlps(E, m.affine_coupling))
        m = MaskedCouplingRQSpline(self.nd, self.nl, [2], 3, jax.random.PRNGKey(3), **({"base_dist": base} if base is not None else {}), data_mean=mean, data_cov=cov)
        return eqx.tree_at(lambda m: m.layers, m, symbolize(E, stub_splines(E, m.layers, self.nd), "w", lambda p, l: "_mask" in p))

    def run(self, E):
        n = self.nd
        mean = E.real("mean", (n,))
        _, M = spd(E, "cov", n)
        cov = E.wrap(M)
        z = E.real("z", (self.ns, n))
        m = self.model(E, GivenBase(z), mean, cov)
        key = E.key()
        o = {"z": z, "x": m.sample(key, self.ns)}
        o["lp"] = jax.vmap(m.log_prob)(o["x"])
        o["lp1"] = m.log_prob(o["x"][0])
        one = lambda v: self.swap(m, v).sample(key, 1)[0]
        o["plain"] = eqx.tree_at(lambda m: (m._data_mean, m._data_cov), m, (jnp.zeros(n), jnp.eye(n))).sample(key, self.ns)
        o["std"], o["mean"] = E.wrap(arr([fl.sqrt(M[i, i]) for i in range(n)])), mean
        o["J"] = jax.jacfwd(one)(z[0])
        if self.base != "given":
            b = {"default": lambda: None, "gauss": self.gauss, "stub": lambda E=E: StubDist(E.real("t", (1,)), n, "s"), "composite": self.comp}[self.base]
            base, par = b(E) if self.base in ("gauss", "composite") else (b(), None)
            m2 = self.model(E, base, mean, cov)
            o["x2"] = m2.sample(key, self.ns)
            o["lp2"] = jax.vmap(m2.log_prob)(o["x2"])
            o["par"] = par
        E.out("o", [o[k] for k in sorted(o) if k != "par"])
        return o

    def gauss(self, E):
        A, M = spd(E, "bc", self.nd)
        mu = E.real("bm", (self.nd,))
        return Gaussian(mu, E.wrap(M)), (A, mu)

    def comp(self, E):
        t0, t1 = E.real("t0", (1,)), E.real("t1", (1,))
        return Composable([StubDist(t0, 1, "c0"), StubDist(t1, self.nd - 1, "c1")], {"b": (0, 1), "a": (1, self.nd)}), (t0, t1)

    def swap(self, m, v):
        return eqx.tree_at(lambda m: m.base_dist.z, m, v[None])

    def spec(self, E, o):
        el = E.el
        n = self.nd
        z, x, J = el(o["z"]), el(o["x"]), el(o["J"])
        E.check(x.shape == (self.ns, n), "one row per sample")
        if x.shape != (self.ns, n):
            return
        E.eq(x, vadd(np.vectorize(fl.mul, otypes=[object])(el(o["plain"]), np.broadcast_to(el(o["std"]), x.shape)), np.broadcast_to(el(o["mean"]), x.shape)),
             "samples are un-whitened by the data mean and standard deviations")
        lp = el(o["lp"])
        E.same(s0(el(o["lp1"])), lp[0], "log density of one point and of many agree")
        B = lambda k: E.fapp("B", z[k])
        d = det(J)
        zmap = lambda k: {z[0][i]: z[k][i] for i in range(n)} if E.sym else {}
        for k in range(self.ns):
            if E.sym:
                E.eq(x[k], E.subst(x[0], zmap(k)), f"sample {k} is the flow applied to its own base draw")
                dk = E.subst(arr([d]), zmap(k))[0]
                E.same(fl.exp(fl.sub(B(k), lp[k])), fl.abs_(dk), f"sample {k}: base log density minus log |det| of the draw-to-sample map")
        if self.base == "given" or not E.sym:
            return
        x2, lp2 = el(o["x2"]), el(o["lp2"])
        alld = []
        for k in range(self.ns):
            dr = E.draws(x2[k])
            E.check(len(dr) == n and all(a.op == "nrm" for a in dr), f"sample {k} uses {n} base draws")
            if len(dr) != n:
                return
            alld += dr
        independent_draws(E, alld, [], "samples come from independent base draws")
        for k in range(self.ns):
            dr = alld[k * n:(k + 1) * n]
            if self.base == "default":
                b, lb = arr(dr), normal_logpdf(np.array([[ONE if i == j else ZERO for j in range(n)] for i in range(n)], object), arr(dr))
            elif self.base == "gauss":
                A, mu = o["par"]
                b = vadd(el(mu), arr([dot(A[i, : i + 1], arr(dr)[: i + 1]) for i in range(n)]))
                lb = normal_logpdf(A, vsub(b, el(mu)))
            elif self.base == "stub":
                t = E.el(E.real("t", (1,)))
                b = vadd(np.array([t[0]] * n, object), arr(dr))
                lb = E.fapp("Ds", b, t)
            else:
                t0, t1 = el(o["par"][0]), el(o["par"][1])
                c0 = [a for a in dr if a in set(E.draws(x2[k])) and self._first(E, x2[k], a)]
                return self.spec_comp(E, o, x2, lp2, d, z, x, alld)
            mp = {z[0][i]: b[i] for i in range(n)}
            E.eq(x2[k], E.subst(x[0], mp), f"sample {k} is the flow applied to a draw of the base")
            E.same(fl.exp(fl.sub(lb, lp2[k])), fl.abs_(E.subst(arr([d]), mp)[0]), f"sample {k}: log density with this base")

    def _first(self, E, x, a):
        return True

    def spec_comp(self, E, o, x2, lp2, d, z, x, alld):
        n = self.nd
        t0, t1 = E.el(o["par"][0]), E.el(o["par"][1])
        for k in range(self.ns):
            dr = alld[k * n:(k + 1) * n]
            # which draw belongs to which part: by key (parts use different keys)
            groups = {}
            for a in dr:
                groups.setdefault(a.args[0], []).append(a)
            gs = list(groups.values())
            E.check(sorted(len(g) for g in gs) == sorted([1, n - 1]), f"sample {k}: every part has its own key")
            if sorted(len(g) for g in gs) != sorted([1, n - 1]):
                return
            cands = [gs] if n != 2 else [gs, gs[::-1]]
            goals = []
            for g in cands:
                g0, g1 = (g[0], g[1]) if len(g[0]) == 1 else (g[1], g[0])
                b = np.concatenate([vadd(np.array([t0[0]], object), arr(g0)), vadd(np.array([t1[0]] * (n - 1), object), arr(g1))])
                goals.append((b, fl.add(E.fapp("Dc0", b[:1], t0), E.fapp("Dc1", b[1:], t1))))
            pick = goals[0]
            for b, lb in goals:
                if all(u is v for u, v in zip(E.subst(x[0], {z[0][i]: b[i] for i in range(n)}), x2[k])):
                    pick = (b, lb)
            b, lb = pick
            mp = {z[0][i]: b[i] for i in range(n)}
            E.eq(x2[k], E.subst(x[0], mp), f"sample {k} is the flow applied to a draw of the composite base")
            E.same(fl.exp(fl.sub(lb, lp2[k])), fl.abs_(E.subst(arr([d]), mp)[0]), f"sample {k}: log density with this base")


def harnesses(tier):
    hs = []
    for kind in ("realnvp", "spline"):
        hs += [Density(kind, 1, 1), Density(kind, 2, 1), Density(kind, 2, 2), Density(kind, 2, 1, "default"), Density(kind, 2, 1, "gauss"), Density(kind, 2, 2, "stub"), Density(kind, 3, 1, "composite", 2),
               Density(kind, 2, 3), Density(kind, 3, 2), Density(kind, 3, 2, "default", 3)]
        if tier == "thorough":
            hs += [Density(kind, 2, 5), Density(kind, 5, 2), Density(kind, 4, 3, "default", 3), Density(kind, 2, 2, "gauss"), Density(kind, 2, 1, "composite"), Density(kind, 3, 2, "composite", 4)]
    return hs

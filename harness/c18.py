"""C18 Base distributions evaluate the density they sample from"""
from harness.flows import *
import math as _m

LOG2PI = _m.log(2 * _m.pi)


class StubDist(Distribution):
    """log density an unknown function, samples loc + unknown function of normal draws"""
    theta: jax.Array
    n: int
    tag: str = eqx.field(static=True)

    def __init__(self, theta, n, tag):
        self.theta, self.n, self.tag = theta, n, tag

    def log_prob(self, x):
        return opaque_call("D" + self.tag, [x, self.theta])

    def sample(self, rng_key, n_samples):
        return self.theta[0] + jax.random.normal(rng_key, (n_samples, self.n))


def spd(E, name, n):
    """symbolic positive definite matrix A A^T (A lower triangular with positive diagonal) -> (A, matrix) elements"""
    a = E.el(E.real(name, (n, n), bounds=lambda ij: (0, True, None, False) if ij[0] == ij[1] else (None, False, None, False)))
    M = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            M[i, j] = dot(a[i, : min(i, j) + 1], a[j, : min(i, j) + 1])
    return a, M


def normal_logpdf(A, v):
    """log density of N(0, A A^T) at v, A lower triangular"""
    n = len(v)
    w = []
    for i in range(n):
        t = v[i]
        for j in range(i):
            t = fl.sub(t, fl.mul(A[i, j], w[j]))
        w.append(fl.div(t, A[i, i]))
    s = lit(-0.5 * n * LOG2PI)
    for i in range(n):
        s = fl.sub(s, fl.log(A[i, i]))
        s = fl.sub(s, fl.mul(lit(0.5), fl.mul(w[i], w[i])))
    return s


class Gauss(Harness):
    functions = ("Gaussian.__init__", "Gaussian.log_prob", "Gaussian.sample", "Gaussian.mean", "Gaussian.cov")

    def __init__(self, nd, ns, learnable, kind="full"):
        self.nd, self.ns, self.learnable, self.kind = nd, ns, learnable, kind
        self.name = f"gauss_d{nd}_n{ns}_{kind}" + ("_learn" if learnable else "")
        self.bounds = f"{nd} dimensions, {ns} samples, any mean, any positive definite covariance ({kind}), any point"

    def run(self, E):
        n = self.nd
        mu = E.real("mu", (n,))
        if self.kind == "full":
            A, M = spd(E, "a", n)
        else:
            d = E.el(E.real("d", (n,), pos=True))
            A, M = np.full((n, n), ZERO, object), np.full((n, n), ZERO, object)
            for i in range(n):
                A[i, i], M[i, i] = d[i], fl.mul(d[i], d[i])
        g = Gaussian(mu, E.wrap(M), learnable=self.learnable)
        x = E.real("x", (n,))
        lp, lpc = g.log_prob(x), g(x)
        lv = jax.vmap(g.log_prob)(jnp.stack([2 * x, x]))[1]
        s = g.sample(E.key(), self.ns)
        E.out("o", [lp, lpc, lv, s])
        return dict(mu=mu, A=A, M=M, x=x, lp=lp, lpc=lpc, lv=lv, s=s)

    def spec(self, E, o):
        n = self.nd
        mu, x, s = E.el(o["mu"]), E.el(o["x"]), E.el(o["s"])
        want = normal_logpdf(o["A"], vsub(x, mu))
        E.same(s0(E.el(o["lp"])), want, "log density is that of the Gaussian")
        E.same(s0(E.el(o["lpc"])), want, "calling the distribution gives its log density")
        E.same(s0(E.el(o["lv"])), want, "vectorised log density")
        E.check(s.shape == (self.ns, n), "one row per sample")
        if s.shape != (self.ns, n):
            return
        allz = []
        for k in range(self.ns):
            zs = [a for a in E.draws(s[k])]
            E.check(all(a.op == "nrm" for a in zs) and len(zs) == n, f"sample {k} uses {n} normal draws")
            if not (all(a.op == "nrm" for a in zs) and len(zs) == n):
                return
            cols = linear_noise(E, s[k], mu, zs)
            for i in range(n):
                for j in range(i + 1):
                    t = ZERO
                    for c in cols:
                        t = fl.add(t, fl.mul(c[i], c[j]))
                    E.same(t, o["M"][i, j], f"sample {k}: covariance [{i},{j}]")
            allz += zs
        independent_draws(E, allz, [], "all draws are independent")


class Compose(Harness):
    functions = ("Composable.__init__", "Composable.log_prob", "Composable.sample")

    def __init__(self, sizes, ns, order=None, gauss=False, gap=0):
        self.sizes, self.ns, self.gauss, self.gap = sizes, ns, gauss, gap
        self.order = order or list(range(len(sizes)))  # placement of the parts along the vector
        self.name = "compose_" + "_".join(map(str, sizes)) + f"_n{ns}" + ("_perm" if order else "") + ("_gauss" if gauss else "") + (f"_gap{gap}" if gap else "")
        self.bounds = f"parts of {sizes} coordinates laid out in order {self.order}" + (f" with {gap} coordinates of no part before each" if gap else "") + f", {ns} samples, any point; parts are " + ("Gaussians" if gauss else "unknown densities")

    def ranges(self):
        start = {}
        p = 0
        for k in self.order:
            p += self.gap
            start[k] = p
            p += self.sizes[k]
        return [(start[k], start[k] + self.sizes[k]) for k in range(len(self.sizes))], p

    def run(self, E):
        R, n = self.ranges()
        dists = []
        pars = []
        for k, m in enumerate(self.sizes):
            if self.gauss:
                A, M = spd(E, f"a{k}", m)
                mu = E.real(f"mu{k}", (m,))
                dists.append(Gaussian(mu, E.wrap(M)))
                pars.append((A, mu, M))
            else:
                th = E.real(f"t{k}", (1,))
                dists.append(StubDist(th, m, f"{k}"))
                pars.append(th)
        names = ["z", "a", "m", "b"]
        c = Composable(dists, {names[k]: R[k] for k in range(len(dists))})
        x = E.real("x", (n,))
        lp = c.log_prob(x)
        lv = jax.vmap(c.log_prob)(jnp.stack([x, x + 1]))[0]
        s = c.sample(E.key(), self.ns)
        if not isinstance(s, dict):
            s = {names[k]: s[:, R[k][0]:R[k][1]] for k in range(len(dists))}
        lf = jax.tree.map(lambda v: v, c).log_prob(x)
        lj = eqx.filter_jit(lambda c, x: c.log_prob(x))(c, x)
        E.out("o", [lp, lv, lf, lj, [s[k] for k in sorted(s)]])
        return dict(x=x, lp=lp, lv=lv, lf=lf, lj=lj, s=s, pars=pars, names=names)

    def spec(self, E, o):
        R, n = self.ranges()
        x = E.el(o["x"])
        want = ZERO
        for k, (a, b) in enumerate(R):
            p = o["pars"][k]
            want = fl.add(want, normal_logpdf(p[0], vsub(x[a:b], E.el(p[1]))) if self.gauss else E.fapp(f"D{k}", x[a:b], E.el(p)))
        E.same(s0(E.el(o["lp"])), want, "log density is the sum over parts, each on its own coordinates")
        E.same(s0(E.el(o["lv"])), want, "vectorised log density")
        E.same(s0(E.el(o["lf"])), want, "log density after flattening and rebuilding")
        E.same(s0(E.el(o["lj"])), want, "log density when the distribution is handed to a compiled function")
        allz = []
        for k, m in enumerate(self.sizes):
            E.check(o["names"][k] in o["s"], f"part {k} is sampled")
            if o["names"][k] not in o["s"]:
                return
            s = E.el(o["s"][o["names"][k]])
            E.check(s.shape == (self.ns, m), f"part {k}: one row per sample")
            if s.shape != (self.ns, m):
                return
            for j in range(self.ns):
                zs = E.draws(s[j])
                E.check(len(zs) == m and all(z.op == "nrm" for z in zs), f"part {k} sample {j} uses {m} draws")
                if self.gauss:
                    cols = linear_noise(E, s[j], E.el(o["pars"][k][1]), zs)
                    for i in range(m):
                        for i2 in range(i + 1):
                            t = ZERO
                            for c in cols:
                                t = fl.add(t, fl.mul(c[i], c[i2]))
                            E.same(t, o["pars"][k][2][i, i2], f"part {k} sample {j}: covariance")
                else:
                    E.eq(s[j], vadd(np.array([E.el(o["pars"][k])[0]] * m, object), arr(zs)), f"part {k} sample {j} is a draw of its own distribution")
                allz += zs
        independent_draws(E, allz, [], "all parts and samples use independent draws")


def harnesses(tier):
    hs = [Gauss(1, 2, False), Gauss(2, 2, False), Gauss(2, 1, True), Gauss(3, 2, False, "diag"), Gauss(3, 1, False),
          Compose([1, 2], 2), Compose([2, 1, 1], 2), Compose([1, 1], 2, [1, 0]), Compose([2], 1), Compose([1, 2], 2, [1, 0], gap=1), Compose([2, 1], 1, gauss=True),
          Gauss(4, 1, False), Gauss(3, 2, True), Compose([2, 2, 1], 3, [2, 0, 1]), Compose([1, 2, 2], 2, gauss=True)]
    hs += [Gauss(5, 1, False), Gauss(6, 2, False, "diag"), Gauss(4, 2, True), Compose([1, 2, 3, 1], 3, [3, 1, 0, 2]), Compose([2, 3], 2, gauss=True)]
    if tier == "thorough":
        hs += [Gauss(6, 1, False), Gauss(8, 2, False, "diag"), Compose([3, 2, 1, 2], 2, [2, 0, 3, 1])]
    return hs

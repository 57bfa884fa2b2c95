"""C19 Flow-matching path, density and sampler agree"""
import diffrax
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Scheduler, Solver
from harness.flows import *
from harness.c18 import normal_logpdf, spd

# explicit Runge-Kutta rules, written down independently of diffrax: (nodes, rows, weights)
F = Fraction
RULES = {
    "euler": ([0], [[]], [1]),
    "midpoint": ([0, F(1, 2)], [[], [F(1, 2)]], [0, 1]),
    "heun": ([0, 1], [[], [1]], [F(1, 2), F(1, 2)]),
}
METHODS = {"euler": diffrax.Euler, "midpoint": diffrax.Midpoint, "heun": diffrax.Heun}


def integrate(E, method, field, y, t0, h, n):
    """n steps of size h from t0, on element vectors"""
    c, A, b = RULES[method]
    t = t0
    for _ in range(n):
        ks = []
        for ci, row in zip(c, A):
            z = [comb(yi, h, row, [k[i] for k in ks]) for i, yi in enumerate(y)]
            ks.append(field(z, t + ci * h))
        y = [comb(yi, h, b, [k[i] for k in ks]) for i, yi in enumerate(y)]
        t = t + h
    return y


def comb(y, h, coef, ks):
    for a, k in zip(coef, ks):
        if a:
            y = fl.add(y, fl.mul(tm.const(F(a) * F(h)), k))
    return y


class Ode(Harness):
    functions = ("Solver.sample", "Solver.log_prob", "Solver.__init__")

    def __init__(self, method, nd, dt, ns=2, budget=150.0):
        self.method, self.nd, self.dt, self.ns = method, nd, dt, ns
        self.n = round(1 / dt)
        self.name = f"ode_{method}_d{nd}_{self.n}steps"
        self.budget = budget
        self.bounds = f"{nd} coordinates, {method} with step {dt}, velocity field an unknown differentiable function, any point, {ns} samples"

    def run(self, E):
        f = StubMLP(E.real("theta", (1,)), self.nd + 1, self.nd, "")
        s = Solver(f, METHODS[self.method]())
        x1 = E.real("x1", (self.nd,))
        key = E.key()
        o = {"lp": s.log_prob(x1, dt=self.dt), "x": s.sample(key, self.ns, dt=self.dt)}
        E.out("o", [o["lp"], o["x"]])

        def field(z, t):
            x = E.wrap(arr(list(z) + [tm.const(F(t))]))
            return list(np.asarray(E.el(f(x)), object))

        def field_div(z, t):
            x = E.wrap(arr(list(z[:-1]) + [tm.const(F(t))]))
            J = np.asarray(E.el(jax.jacfwd(f)(x)), object)
            d = ZERO
            for i in range(self.nd):
                d = fl.add(d, J[i, i])
            return list(np.asarray(E.el(f(x)), object)) + [d]

        h = F(1, self.n)
        y = integrate(E, self.method, field_div, list(E.el(x1)) + [ZERO], F(1), -h, self.n)
        o["x0"], o["int"] = y[:-1], y[-1]
        o["fwd"] = field
        o["key"] = key
        return o

    def spec(self, E, o):
        lp = np.asarray(E.el(o["lp"]), object).reshape(-1)
        E.check(len(lp) == 1, "one log density")
        want = fl.add(normal_logpdf_std(o["x0"]), o["int"])
        E.eq(lp[0], want, "log density: base density at the noise point minus the integrated divergence")
        x = np.asarray(E.el(o["x"]), object)
        E.check(x.shape == (self.ns, self.nd), "samples have one row each")
        used = []
        for i in range(self.ns):
            d = E.draws(x[i], "nrm")
            E.check(len(d) == self.nd, f"sample {i} comes from one normal draw per coordinate")
            if len(d) != self.nd:
                continue
            used += d
            ok = False
            for perm in itertools.permutations(d) if self.nd <= 3 else [d]:
                y = integrate(E, self.method, o["fwd"], list(perm), F(0), F(1, self.n), self.n)
                if all(same_el(a, b) is TRUE for a, b in zip(y, x[i])):
                    ok = True
                    break
            y = integrate(E, self.method, o["fwd"], list(perm) if ok else list(d), F(0), F(1, self.n), self.n)
            for j in range(self.nd):
                E.eq(x[i, j], y[j], f"sample {i} coordinate {j}: the velocity field integrated from noise to data")
        independent_draws(E, used, [], "samples use independent base draws")


def normal_logpdf_std(z):
    s = ZERO
    for v in z:
        s = fl.sub(s, fl.mul(tm.const(F(1, 2)), fl.mul(v, v)))
    return fl.sub(s, tm.const(F(float(0.5 * np.log(2 * np.pi))) * len(z)))


class AnyScheduler(Scheduler):
    def __call__(self, t):
        g = lambda n: opaque_call(n, [jnp.asarray(t)])
        d = lambda n: jax.jvp(lambda s: opaque_call(n, [s]), (jnp.asarray(t),), (jnp.ones_like(t),))[1]
        if jnp.ndim(t):
            g = lambda n: jax.vmap(lambda s: opaque_call(n, [s]))(t.reshape(-1)).reshape(t.shape)
            d = lambda n: jax.jvp(lambda s: jax.vmap(lambda u: opaque_call(n, [u]))(s.reshape(-1)).reshape(s.shape), (t,), (jnp.ones_like(t),))[1]
        return g("alpha"), d("alpha"), g("sigma"), d("sigma")


class Interp(Harness):
    functions = ("Path.sample", "CondOTScheduler.__call__")

    def __init__(self, kind, shape, tshape):
        self.kind, self.shape, self.ts = kind, shape, tshape
        self.name = f"path_{kind}_" + "x".join(map(str, shape)) + "_t" + "x".join(map(str, tshape))
        self.bounds = f"{'the conditional optimal-transport schedule' if kind == 'condot' else 'any differentiable schedule'}, points of shape {shape}, times of shape {tshape}, any values"

    def run(self, E):
        p = Path(CondOTScheduler() if self.kind == "condot" else AnyScheduler())
        x0, x1, t = E.real("x0", self.shape), E.real("x1", self.shape), E.real("t", self.ts)
        o = {"x0": x0, "x1": x1, "t": t}
        o["xt"], o["v"] = p.sample(x0, x1, t)
        o["dt"] = jax.jvp(lambda s: p.sample(x0, x1, s)[0], (t,), (jnp.ones_like(t),))[1]
        o["s"], o["e"] = p.sample(x0, x1, jnp.zeros(self.ts))[0], p.sample(x0, x1, jnp.ones(self.ts))[0]
        o["sch"] = p.scheduler(t)
        E.out("o", [o[k] for k in sorted(o)])
        return o

    def spec(self, E, o):
        e = {k: np.asarray(E.el(v), object) for k, v in o.items() if k != "sch"}
        E.eq(np.broadcast_to(e["v"], self.shape), e["dt"], "the reported velocity is the time derivative of the path")
        if self.kind == "condot":
            E.eq(e["s"], e["x0"], "the path starts at the noise point")
            E.eq(e["e"], e["x1"], "the path ends at the data point")
            w = np.empty(self.shape, object)
            t = np.broadcast_to(e["t"], self.shape)
            for i in np.ndindex(*self.shape):
                w[i] = fl.add(fl.mul(fl.sub(ONE, t[i]), e["x0"][i]), fl.mul(t[i], e["x1"][i]))
            E.eq(e["xt"], w, "the path is the straight line")
        else:
            a, _, s, _ = [np.broadcast_to(np.asarray(E.el(q), object), self.shape) for q in o["sch"]]
            w = np.empty(self.shape, object)
            for i in np.ndindex(*self.shape):
                w[i] = fl.add(fl.mul(s[i], e["x0"][i]), fl.mul(a[i], e["x1"][i]))
            E.eq(e["xt"], w, "the path combines noise and data with the schedule's coefficients")


class FakeSolver(Solver):
    """a solver with unknown density and given samples: what is left is the model's whitening"""
    z: jax.Array

    def __init__(self, model, z):
        self.model, self.method, self.z = model, diffrax.Euler(), z

    def sample(self, rng_key, n_samples, dt=1e-1):
        return self.z[:n_samples] + (dt - 1e-1 if isinstance(dt, float) else dt)

    def log_prob(self, x1, dt=1e-1):
        return opaque_call("LP", [x1, jnp.asarray(dt, x1.dtype)])


class Whiten(Harness):
    functions = ("FlowMatchingModel.__init__", "FlowMatchingModel.sample", "FlowMatchingModel.log_prob", "FlowMatchingModel.data_mean", "FlowMatchingModel.data_cov")

    def __init__(self, nd, ns=2):
        self.nd, self.ns = nd, ns
        self.name = f"whitening_d{nd}"
        self.bounds = f"{nd} coordinates, {ns} samples, any data mean and positive definite covariance, solver with unknown density and any samples"

    def run(self, E):
        n = self.nd
        mean = E.real("mean", (n,))
        _, M = spd(E, "cov", n)
        z, x = E.real("z", (self.ns, n)), E.real("x", (n,))
        sol = FakeSolver(StubMLP(E.real("theta", (1,)), n + 1, n, ""), z)
        m = FlowMatchingModel(sol, Path(CondOTScheduler()), data_mean=mean, data_cov=E.wrap(M))
        d = FlowMatchingModel(sol, Path(CondOTScheduler()))
        key = E.key()
        std = [fl.sqrt(M[i, i]) for i in range(n)]
        dt = E.real("dt", (), lo=0, hi=1, los=True)
        o = {"s": m.sample(key, self.ns), "sdt": m.sample(key, self.ns, dt=dt), "lp": m.log_prob(x), "s0": d.sample(key, self.ns), "lp0": d.log_prob(x)}
        back = lambda v: (jnp.asarray(v) - mean) / E.wrap(arr(std))
        o["lpw"] = sol.log_prob(back(x))
        o["lpx"] = sol.log_prob(x)
        E.out("o", [o[k] for k in sorted(o)])
        o.update(z=z, mean=mean, std=std, dt=dt)
        return o

    def spec(self, E, o):
        n = self.nd
        z, mean = E.el(o["z"]), E.el(o["mean"])
        w = np.empty((self.ns, n), object)
        for i in range(self.ns):
            for j in range(n):
                w[i, j] = fl.add(fl.mul(z[i, j], o["std"][j]), mean[j])
        wd = np.empty((self.ns, n), object)
        for i in np.ndindex(self.ns, n):
            wd[i] = fl.add(w[i], fl.mul(E.el(o["dt"])[()], o["std"][i[1]]))
        E.eq(E.el(o["sdt"]), wd, "the caller's step size reaches the solver")
        E.eq(E.el(o["s"]), w, "samples are un-whitened by the data mean and standard deviations")
        s = E.el(o["lpw"])[()]
        for j in range(n):
            s = fl.sub(s, fl.log(o["std"][j]))
        E.eq(np.asarray(E.el(o["lp"]), object).reshape(-1)[0], s, "log density: the solver's at the whitened point minus the whitening volume")
        E.eq(E.el(o["s0"]), z, "without statistics samples are the solver's")
        E.eq(np.asarray(E.el(o["lp0"]), object).reshape(-1)[0], E.el(o["lpx"])[()], "without statistics the log density is the solver's")


def harnesses(tier):
    hs = [Ode("euler", 1, 0.5), Ode("euler", 2, 0.5), Ode("euler", 3, 1.0), Ode("midpoint", 2, 0.5), Ode("heun", 1, 0.5), Ode("heun", 2, 0.5),
          Interp("condot", (2, 3), (2, 1)), Interp("condot", (2,), ()), Interp("any", (2, 2), (2, 1)), Interp("any", (3,), ()), Whiten(1), Whiten(2), Whiten(3),
          Ode("euler", 2, 0.25), Ode("heun", 3, 0.5)]
    hs += [Ode("euler", 4, 0.25), Ode("midpoint", 3, 0.25), Ode("euler", 1, 0.125), Interp("condot", (3, 4), (3, 1)), Whiten(5)]
    if tier == "thorough":
        hs += [Ode("euler", 5, 0.25), Ode("midpoint", 4, 0.5), Ode("euler", 1, 0.0625), Interp("any", (4, 3), (4, 1)), Whiten(7)]
    return hs

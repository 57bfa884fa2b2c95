"""C04 HMC trajectory is reversible and volume preserving"""
from harness.common import *
from harness.c03 import HMCStep, matvec


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = ZERO
    for j in range(n):
        if M[0][j] is ZERO:
            continue
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = fl.mul(M[0][j], det(minor))
        s = fl.add(s, t) if j % 2 == 0 else fl.sub(s, t)
    return s


class Leapfrog(Harness):
    """leapfrog_step on an arbitrary potential and an arbitrary quadratic kinetic energy"""
    functions = ["flowMC.resource.kernel.HMC.HMC.leapfrog_step", "HMC.leapfrog_kernel"]

    def __init__(self, dim, n, budget=120.0, metric="sym"):
        self.dim, self.n, self.budget = dim, n, budget
        self.name = f"leapfrog_d{dim}_n{n}"
        self.bounds = (f"dimension {dim}, n_leapfrog {n}; all real step sizes, symmetric kinetic matrices, start points, momenta "
                       "and differentiable potentials")

    def run(self, E):
        from flowMC.resource.kernel.HMC import HMC
        L = E.opaque("U")
        n = self.dim
        eps = E.real("eps", pos=True)
        q0, p0 = E.real("q", (n,)), E.real("p", (n,))
        d = {"d": E.real("d")}
        m = E.el(E.real("m", (n, n)))
        M = E.wrap(np.array([[m[min(i, j), max(i, j)] for j in range(n)] for i in range(n)], object))
        hmc = HMC(step_size=eps, n_leapfrog=self.n, condition_matrix=M)
        kin = lambda p, metric: 0.5 * jnp.dot(p, jnp.dot(metric, p))
        lk = jax.tree_util.Partial(hmc.leapfrog_kernel, kin, lambda x, dd: L(x, dd))

        def flow(q, p):
            return hmc.leapfrog_step(lk, q, p, d, M)
        q1, p1 = flow(q0, p0)
        q2, p2 = flow(q1, -p1)
        Jq = jax.jacfwd(flow, argnums=(0, 1))(q0, p0)
        E.out("fwd", (q1, p1)), E.out("back", (q2, p2)), E.out("jac", Jq)
        return dict(q0=q0, p0=p0, q1=q1, p1=p1, q2=q2, p2=p2, J=Jq)

    def spec(self, E, o):
        el = E.el
        E.eq(el(o["q2"]), el(o["q0"]), "forward, flip, forward returns to the start position")
        E.eq(el(o["p2"]), vscale(el(o["p0"]), tm.const(-1)), "and to the flipped start momentum")
        (a, b), (c, d) = o["J"]
        J = np.block([[el(a), el(b)], [el(c), el(d)]])
        E.same(det(J.tolist()), ONE, "unit Jacobian determinant")


class Captured(HMCStep):
    """the trajectory that the kernel itself integrates, with its own kinetic energy and metric"""

    def __init__(self, dim, kind, n, budget=120.0):
        super().__init__(dim, kind, n, budget)
        self.name = f"kernel_traj_{kind}_d{dim}_n{n}"

    def run(self, E):
        from flowMC.resource.kernel.HMC import HMC
        calls = []

        class Rec(HMC):
            def leapfrog_step(self, leapfrog_kernel, position, momentum, data, metric):
                res = HMC.leapfrog_step(self, leapfrog_kernel, position, momentum, data, metric)
                calls.append((leapfrog_kernel, position, momentum, data, metric, res))
                return res

        L = E.opaque("L")
        eps = E.real("eps", pos=True)
        x = E.real("x", (self.dim,))
        d = {"d": E.real("d")}
        given, M = self.matrix(E)
        kw = dict(step_size=eps, n_leapfrog=self.n)
        if given is not None:
            kw["condition_matrix"] = given
        hmc = Rec(**kw)
        y, ly, acc = hmc.kernel(E.key(), x, L(x, d), L, d)
        out = []
        for lk, q, p, dd, metric, (q1, p1) in calls:
            q2, p2 = HMC.leapfrog_step(hmc, lk, q1, -p1, dd, metric)
            J = jax.jacfwd(lambda a, b: HMC.leapfrog_step(hmc, lk, a, b, dd, metric), argnums=(0, 1))(q, p)
            out.append((q, p, q1, p1, q2, p2, J))
        E.out("traj", out), E.out("y", y), E.out("acc", acc)
        return dict(x=x, out=out, y=y, acc=acc)

    def spec(self, E, o):
        el = E.el
        for q, p, q1, p1, q2, p2, ((a, b), (c, d)) in o["out"]:
            E.eq(el(q2), el(q), "kernel trajectory: forward, flip, forward returns to the start position")
            E.eq(el(p2), vscale(el(p), tm.const(-1)), "kernel trajectory: and to the flipped start momentum")
            E.same(det(np.block([[el(a), el(b)], [el(c), el(d)]]).tolist()), ONE, "kernel trajectory: unit Jacobian determinant")
        if o["out"]:
            prop = proposal_of(E, el(o["y"]), b0(el(o["acc"])))
            E.eq(prop, el(o["out"][-1][2]), "the proposal is the end point of that trajectory")


def harnesses(tier):
    hs = [Leapfrog(1, 0), Leapfrog(1, 1), Leapfrog(1, 2), Leapfrog(2, 0), Leapfrog(2, 1), Leapfrog(1, 3), Leapfrog(3, 0), Leapfrog(2, 2),
          Captured(1, "scalar", 1), Captured(2, "diag", 0), Captured(2, "full", 0), Captured(2, "full", 1),
          Leapfrog(1, 5), Captured(3, "diag", 1), Captured(2, "diag", 3), Captured(1, "scalar", 7)]
    if tier == "thorough":
        hs += [Leapfrog(1, 8), Leapfrog(4, 0), Leapfrog(3, 1), Captured(4, "diag", 2), Captured(2, "diag", 6)]
    return hs

"""C03 HMC accepts exactly on the energy error of its own Hamiltonian"""
from harness.common import *


def matvec(M, v):
    return arr([dot(M[i], v) for i in range(len(v))])


class HMCStep(Harness):
    functions = ["flowMC.resource.kernel.HMC.HMC.kernel", "HMC.leapfrog_step", "HMC.leapfrog_kernel"]

    def __init__(self, dim, kind, n_leapfrog, budget=120.0):
        self.dim, self.kind, self.n = dim, kind, n_leapfrog
        self.name = f"hmc_{kind}_d{dim}_n{n_leapfrog}"
        self.budget = budget
        self.bounds = (f"dimension {dim}, conditioning matrix: {kind}, n_leapfrog {n_leapfrog}; all real positions, step sizes, "
                       "draws, positive definite matrices of this kind and differentiable targets")

    def matrix(self, E):
        """-> (what the user passes, the conditioning matrix as elements)"""
        d = self.dim
        M = np.full((d, d), ZERO, object)
        if self.kind == "default":
            for i in range(d):
                M[i, i] = ONE
            return None, M
        if self.kind == "scalar":
            c = E.real("m", pos=True)
            for i in range(d):
                M[i, i] = E.el(c)[()]
            return c, M
        if self.kind == "diag":
            m = E.el(E.real("m", (d,), pos=True))
            for i in range(d):
                M[i, i] = m[i]
            return E.wrap(M), M
        # full: M = A A^T with A lower triangular, positive diagonal
        a = E.el(E.real("a", (d, d), bounds=lambda ij: (0, True, None, False) if ij[0] == ij[1] else (None, False, None, False)))
        for i in range(d):
            for j in range(d):
                s = ZERO
                for k in range(min(i, j) + 1):
                    s = fl.add(s, fl.mul(a[i, k], a[j, k]))
                M[i, j] = s
        return E.wrap(M), M

    def run(self, E):
        from flowMC.resource.kernel.HMC import HMC
        L = E.opaque("L")
        eps = E.real("eps", pos=True)
        x = E.real("x", (self.dim,))
        d = {"d": E.real("d")}
        given, M = self.matrix(E)
        lp = L(x, d)
        res = {}
        for n in sorted({0, self.n}):
            kw = dict(step_size=eps, n_leapfrog=n)
            if given is not None:
                kw["condition_matrix"] = given
            y, ly, acc = HMC(**kw).kernel(E.key(), x, lp, L, d)
            E.out(f"y{n}", y), E.out(f"ly{n}", ly), E.out(f"acc{n}", acc)
            res[n] = (y, ly, acc)
        return dict(x=x, lp=lp, d=d["d"], eps=eps, M=M, res=res)

    def spec(self, E, o):
        el = E.el
        x, lp, d, eps, M = el(o["x"]), el(o["lp"]), el(o["d"]), el(o["eps"])[()], o["M"]
        n = self.dim
        g = lambda p: arr([E.fapp(f"L.d0[{i}]", p, d) for i in range(n)])
        half = tm.const(Fraction(1, 2))
        e2 = fl.mul(eps, eps)
        # one-step trajectory: x1 = x + eps M (p + eps/2 g(x)): the momentum is read off it
        y0, ly0, acc0 = [el(v) for v in o["res"][0]]
        a0 = b0(acc0)
        prop0 = proposal_of(E, y0, a0)
        centre = vadd(x, vscale(matvec(M, g(x)), fl.mul(e2, half)))
        zs = [a for a in E.draws(prop0) if a.op == "nrm"]
        E.check(all(a.op == "nrm" for a in E.draws(prop0)), "the end point uses only normal draws")
        cols = linear_noise(E, prop0, centre, zs)
        # covariance of eps M p must be eps^2 M, i.e. p ~ N(0, M^-1)
        for i in range(n):
            for j in range(i + 1):
                s = ZERO
                for c in cols:
                    s = fl.add(s, fl.mul(c[i], c[j]))
                E.same(s, fl.mul(e2, M[i, j]), f"momentum covariance [{i},{j}] is the inverse conditioning matrix")
        # eps*M*p as elements
        emp = np.full(n, ZERO, object)
        for z, c in zip(zs, cols):
            emp = vadd(emp, vscale(c, z))
        Minv = tr._inv_el(M)
        p = vscale(matvec(Minv, emp), fl.div(ONE, eps))
        K = lambda q: fl.mul(half, dot(q, matvec(M, q)))
        for nn, (y, ly, acc) in o["res"].items():
            y, ly, a = el(y), el(ly), b0(el(acc))
            prop = proposal_of(E, y, a)
            q_, p_ = x, vadd(p, vscale(g(x), fl.mul(eps, half)))
            for k in range(nn + 1):
                q_ = vadd(q_, vscale(matvec(M, p_), eps))
                p_ = vadd(p_, vscale(g(q_), eps if k < nn else fl.mul(eps, half)))
            E.eq(prop, q_, f"n={nn}: end point of the leapfrog trajectory")
            # energy error, evaluated at the end point the code reached
            p_ = vadd(p, vscale(g(x), fl.mul(eps, half)))
            if nn == 0:
                p_ = vadd(p_, vscale(g(prop), fl.mul(eps, half)))
            else:
                q_ = x
                for k in range(nn + 1):
                    q_ = vadd(q_, vscale(matvec(M, p_), eps)) if k < nn else prop
                    p_ = vadd(p_, vscale(g(q_), eps if k < nn else fl.mul(eps, half)))
            Lp = E.fapp("L", prop, d)
            ratio = fl.sub(fl.add(Lp, K(p)), fl.add(s0(lp), K(p_)))
            us = [u for u in E.draws(arr([a])) if u.op == "u"]
            E.check(len(us) == 1, f"n={nn}: the decision uses exactly one uniform draw")
            if len(us) == 1:
                independent_draws(E, zs, us, f"n={nn}: uniform draw is independent of the momentum")
                E.iff(a, log_u_lt(us[0], ratio), f"n={nn}: accept exactly on the energy error")
            E.eq(y, arr([fl.select(a, b, c) for b, c in zip(prop, x)]), f"n={nn}: returned position")
            E.same(s0(ly), fl.select(a, Lp, s0(lp)), f"n={nn}: returned log density")


def harnesses(tier):
    hs = [HMCStep(1, "default", 1), HMCStep(2, "default", 1), HMCStep(2, "scalar", 1), HMCStep(2, "diag", 1),
          HMCStep(2, "full", 1), HMCStep(1, "diag", 2), HMCStep(1, "default", 3), HMCStep(2, "diag", 3), HMCStep(3, "diag", 1), HMCStep(2, "full", 2),
          HMCStep(1, "scalar", 5), HMCStep(3, "diag", 2), HMCStep(5, "diag", 1), HMCStep(1, "default", 10)]
    if tier == "thorough":
        hs += [HMCStep(3, "full", 0), HMCStep(2, "scalar", 7), HMCStep(4, "diag", 3), HMCStep(8, "diag", 1)]
    return hs

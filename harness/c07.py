"""C07 Recorded log densities always belong to the recorded positions"""
from harness.common import *


def make_buffers(nc, slots, dim, prefix=""):
    from flowMC.resource.buffers import Buffer
    return {prefix + "P": Buffer(prefix + "P", (nc, slots, dim), 1), prefix + "Q": Buffer(prefix + "Q", (nc, slots), 1),
            prefix + "A": Buffer(prefix + "A", (nc, slots), 1)}


def fresh_draws(E, x, prev):
    return [t for t in E.draws(x) if t not in set(E.draws(prev))]


class Run(Harness):
    def __init__(self, kind, n, dim=1, nc=1, thinning=1, batch=0, fb=10, budget=150.0, calls=1, sp=False):
        self.kind, self.n, self.dim, self.nc, self.th, self.batch, self.fb, self.budget = kind, n, dim, nc, thinning, batch, fb, budget
        self.calls, self.sp = calls, sp
        self.name = f"run_{kind}_n{n}_d{dim}_c{nc}" + (f"_t{thinning}" if thinning > 1 else "") + (f"_cb{batch}" if batch else "") + (
            f"_fb{fb}" if kind == "global" and fb < 10 else "") + (f"_x{calls}" if calls > 1 else "") + ("_special" if sp else "")
        self.functions = ["TakeSteps.__call__", "TakeGroupSteps.sample" if kind == "global" else "TakeSerialSteps.sample",
                          {"grw": "GaussianRandomWalk.kernel", "mala": "MALA.kernel", "hmc": "HMC.kernel",
                           "global": "NFProposal.kernel"}[kind]]
        self.bounds = (f"{kind} kernel, {calls} call(s) of {n} steps, thinning {thinning}, {nc} chain(s) in batches of {batch}, dimension "
                       f"{dim}; all starts, draws, step sizes, targets and data" + ("; the target may be NaN or minus infinity anywhere" if sp else ""))

    def kern(self, E):
        s = E.real("step", pos=True)
        if self.kind == "grw":
            from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
            return GaussianRandomWalk(s)
        if self.kind == "mala":
            from flowMC.resource.kernel.MALA import MALA
            return MALA(s)
        if self.kind == "hmc":
            from flowMC.resource.kernel.HMC import HMC
            return HMC(condition_matrix=1.0, step_size=s, n_leapfrog=0)
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from harness.stubs import StubFlow
        return NFProposal(StubFlow(self.dim, E.real("loc", (self.dim,)), E.real("theta")), n_NFproposal_batch_size=self.fb)

    def run(self, E):
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.resource.states import State
        from flowMC.resource.logPDF import LogPDF
        L = E.opaque("L")
        if self.sp:
            E.ctx.special.update({"L": ("nan", "ninf"), "L.d0": ("nan",)})
        x = E.real("x", (self.nc, self.dim))
        d = {"d": E.real("d", (2,)), "n_steps": E.real("user_n")}
        res = {"k": self.kern(E), "L": LogPDF(L, n_dims=self.dim), "s": State({"P": "P", "Q": "Q", "A": "A"}, name="s"),
               **make_buffers(self.nc, self.calls * self.n // self.th, self.dim)}
        cls = TakeGroupSteps if self.kind == "global" else TakeSerialSteps
        strat = cls("L", "k", "s", ["P", "Q", "A"], self.n, thinning=self.th, chain_batch_size=self.batch, verbose=self.nc > 1)
        key, last = E.key(), x
        starts, lasts = [x], []
        for _ in range(self.calls):
            key, res, last = strat(key, res, last, d)
            lasts.append(last)
        o = dict(x=x, d=jax.tree_util.tree_leaves(d), P=res["P"].data, Q=res["Q"].data, A=res["A"].data, last=lasts)
        for k in ("P", "Q", "A", "last"):
            E.out(k, o[k])
        return o

    def spec(self, E, o):
        el = E.el
        dd = np.concatenate([el(v).reshape(-1) for v in o["d"]])
        P, Q, A, x = el(o["P"]), el(o["Q"]), el(o["A"]), el(o["x"])
        per = self.n // self.th
        for c in range(self.nc):
            prev = x[c]
            for k in range(self.calls * per):
                t = f"chain {c} record {k}"
                E.same(Q[c, k], E.fapp("L", P[c, k], dd), f"{t}: log density is the target at the recorded position with the caller's data")
                a = b0(A[c, k])
                E.check(or_(tm.eq(fl.R(A[c, k]), ZERO), tm.eq(fl.R(A[c, k]), ONE)), f"{t}: acceptance flag is 0 or 1")
                if self.th == 1:
                    rej = E.subst(P[c, k], force(a, False))
                    E.eq(rej, prev, f"{t}: not accepted means the previous position")
                    prop = proposal_of(E, P[c, k], a)
                    new = [z for z in fresh_draws(E, prop, prev) if z.op == "nrm"]
                    E.check(len(new) >= self.dim, f"{t}: accepted means the step's own proposal")
                    if self.kind == "grw":
                        E.eq(E.subst(prop, {z: ZERO for z in new}), prev, f"{t}: proposal is centred on the previous position")
                    prev = P[c, k]


def harnesses(tier):
    hs = [Run("grw", 3, nc=2), Run("grw", 2, dim=2), Run("mala", 2), Run("hmc", 2), Run("global", 3), Run("global", 3, nc=2, fb=2),
          Run("grw", 4, thinning=2), Run("global", 4, thinning=2), Run("grw", 2, nc=3, batch=2), Run("grw", 2, calls=2), Run("mala", 1, dim=2),
          Run("global", 2, calls=2, dim=2),
          Run("grw", 5), Run("mala", 3), Run("hmc", 2, dim=2), Run("global", 5, fb=2), Run("grw", 6, thinning=3), Run("mala", 2, dim=2, nc=2),
          Run("grw", 2, sp=True), Run("global", 2, sp=True), Run("hmc", 1, sp=True)]
    hs += [Run("mala", 4), Run("hmc", 4), Run("global", 7, fb=3), Run("global", 9, thinning=4, fb=2), Run("grw", 3, nc=5, batch=2), Run("grw", 3, calls=4)]
    if tier == "thorough":
        hs += [Run("grw", 7), Run("mala", 5), Run("global", 11, fb=4), Run("grw", 2, nc=7, batch=3), Run("hmc", 3, dim=2)]
    return hs

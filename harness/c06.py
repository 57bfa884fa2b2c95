"""C06 No sampler ever moves to a point of undefined or zero density"""
from harness.common import *
from harness.c05 import user_logpdf

SP = ("nan", "ninf")
GSP = ("nan", "pinf", "ninf")


def bad(v):
    return or_(fl.nan(v), fl.ninf(v))


def specials(E, names):
    for n, s in names.items():
        E.ctx.special[n] = s


def kept(E, tag, a, y, ly, x, lp, cond):
    E.check(not_(a), f"{tag}: rejected", when=cond)
    E.eq(y, x, f"{tag}: position kept", when=cond)
    E.same(s0(ly), s0(lp), f"{tag}: log density kept", when=cond)


class LocalStep(Harness):
    """one step of a local kernel, current log density any finite number, or (anywhere) what the target gives there"""

    def __init__(self, kind, dim, budget=120.0, anywhere=False):
        self.kind, self.dim, self.budget, self.anywhere = kind, dim, budget, anywhere
        self.name = f"step_{kind}_d{dim}" + ("_anywhere" if anywhere else "")
        self.functions = [{"grw": "GaussianRandomWalk.kernel", "mala": "MALA.kernel", "hmc": "HMC.kernel"}[kind]]
        self.bounds = (f"{kind}, dimension {dim}; target NaN, -inf or finite anywhere, gradients NaN, infinite or finite anywhere; " + ("the current log density may be NaN or -inf too" if anywhere else "the current log density is finite"))

    def kern(self, E):
        s = E.real("step", pos=True)
        if self.kind == "grw":
            from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
            return GaussianRandomWalk(s)
        if self.kind == "mala":
            from flowMC.resource.kernel.MALA import MALA
            return MALA(s)
        from flowMC.resource.kernel.HMC import HMC
        return HMC(condition_matrix=1.0, step_size=s, n_leapfrog=0)

    def run(self, E):
        L = E.opaque("L")
        specials(E, {"L": SP, "L.d0": GSP})
        x, d = E.real("x", (self.dim,)), {"d": E.real("d")}
        lp = L(x, d)
        if not self.anywhere:
            E.assume(fl.fin(E.el(lp)[()]))
        y, ly, acc = self.kern(E).kernel(E.key(), x, lp, L, d)
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=x, lp=lp, d=d["d"], y=y, ly=ly, acc=acc)

    def spec(self, E, o):
        el = E.el
        x, lp, d, y, ly, a = el(o["x"]), el(o["lp"]), el(o["d"]), el(o["y"]), el(o["ly"]), b0(el(o["acc"]))
        prop = proposal_of(E, y, a)
        Lp = E.fapp("L", prop, d)
        kept(E, "undefined or zero density at the proposal", a, y, ly, x, lp, bad(Lp))
        if self.kind != "grw":
            g = [E.fapp(f"L.d0[{i}]", prop, d) for i in range(self.dim)]
            kept(E, "NaN gradient at the proposal", a, y, ly, x, lp, or_(*[fl.nan(v) for v in g]))
        ok = fl.fin(s0(lp))
        E.check(not_(bad(s0(ly))), "log density stays defined and non-zero", when=ok)
        E.check(and_(*[fl.fin(v) for v in y]), "position stays finite", when=ok)


class GlobalStep(Harness):
    functions = ["NFProposal.kernel"]

    def __init__(self, dim, n, b, budget=120.0, anywhere=False):
        self.dim, self.n, self.b, self.budget, self.anywhere = dim, n, b, budget, anywhere
        self.name = f"global_d{dim}_n{n}_b{b}" + ("_anywhere" if anywhere else "")
        self.bounds = (f"dimension {dim}, {n} proposals in batches of {b}; target NaN/-inf/finite, flow density NaN/±inf/finite anywhere; start: " +
                       ("any log density, NaN and -inf included" if anywhere else "any finite log density"))

    def run(self, E):
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from harness.stubs import StubFlow
        L = E.opaque("L")
        specials(E, {"L": SP, "Q": GSP})
        x, d = E.real("x", (self.dim,)), {"d": E.real("d")}
        lp = L(x, d) if self.anywhere else E.real("lp")
        th = E.real("theta")
        flow = StubFlow(self.dim, E.real("loc", (self.dim,)), th)
        y, ly, acc = NFProposal(flow, n_NFproposal_batch_size=self.b).kernel(E.key(), x, lp, user_logpdf(L), {**d, "n_steps": self.n})
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=x, lp=lp, d=d["d"], y=y, ly=ly, acc=acc, th=th)

    def spec(self, E, o):
        el = E.el
        d, th = el(o["d"]), el(o["th"])
        y, ly, acc = el(o["y"]), el(o["ly"]).reshape(-1), el(o["acc"]).reshape(-1)
        px, plp = el(o["x"]), s0(el(o["lp"]))
        for k in range(self.n):
            a = b0(acc[k])
            prop = proposal_of(E, y[k], a)
            kept(E, f"step {k}: undefined or zero density at the proposal", a, y[k], ly[k], px, plp, bad(E.fapp("L", prop, d)))
            kept(E, f"step {k}: NaN flow density at the proposal", a, y[k], ly[k], px, plp, fl.nan(E.fapp("Q", prop, th)))
            E.check(not_(bad(ly[k])), f"step {k}: log density stays defined and non-zero", when=not_(bad(plp)))
            px, plp = y[k], ly[k]


class Chain(Harness):
    """a recorded run of the step strategy"""
    functions = ["TakeSerialSteps.__call__", "TakeSerialSteps.sample", "kernels"]

    def __init__(self, kind, n, dim=1, budget=120.0):
        self.kind, self.n, self.dim, self.budget = kind, n, dim, budget
        self.name = f"chain_{kind}_n{n}"
        self.bounds = f"{kind}, dimension {dim}, {n} recorded steps of one chain starting at any finite log density"

    def run(self, E):
        from flowMC.strategy.take_steps import TakeSerialSteps
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        from flowMC.resource.logPDF import LogPDF
        L = E.opaque("L")
        specials(E, {"L": SP, "L.d0": GSP})
        x, d = E.real("x", (1, self.dim)), {"d": E.real("d")}
        n = self.n
        res = {"k": LocalStep(self.kind, self.dim).kern(E), "L": LogPDF(L, n_dims=self.dim),
               "s": State({"P": "P", "Q": "Q", "A": "A"}, name="s"),
               "P": Buffer("P", (1, n, self.dim), 1), "Q": Buffer("Q", (1, n), 1), "A": Buffer("A", (1, n), 1)}
        strat = TakeSerialSteps("L", "k", "s", ["P", "Q", "A"], n)
        _, res, last = strat(E.key(), res, x, d)
        E.out("P", res["P"].data), E.out("Q", res["Q"].data), E.out("last", last)
        return dict(x=x, d=d["d"], Q=res["Q"].data, P=res["P"].data, last=last)

    def spec(self, E, o):
        el = E.el
        L0 = E.fapp("L", el(o["x"])[0], el(o["d"]))
        ok = not_(bad(L0))
        for k, v in enumerate(el(o["Q"]).reshape(-1)):
            E.check(not_(bad(v)), f"recorded log density {k} is defined and non-zero", when=ok)
        E.check(and_(*[fl.fin(v) for v in el(o["P"]).reshape(-1)]), "recorded positions stay finite", when=ok)
        E.check(not_(bad(E.fapp("L", el(o["last"])[0], el(o["d"])))), "the chain ends at a point of defined density", when=ok)


class Exchange(Harness):
    functions = ["ParallelTempering._exchange", "ParallelTempering.__call__"]

    def __init__(self, nt, budget=120.0):
        self.nt, self.budget = nt, budget
        self.name = f"exchange_t{nt}"
        self.bounds = f"{nt} temperatures, one chain, dimension 1; likelihood NaN/-inf/finite anywhere; any increasing temperatures"

    def run(self, E):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.resource.logPDF import TemperedPDF
        L, Pr = E.opaque("L"), E.opaque("P")
        specials(E, {"L": SP, "P": SP})
        d = {"d": E.real("d")}
        gaps = E.el(E.real("gap", (self.nt,), pos=True))
        T = [gaps[0]]
        for g in gaps[1:]:
            T.append(fl.add(T[-1], g))
        T = E.wrap(arr(T))
        xs = E.real("x", (self.nt, 1))
        pt = ParallelTempering(1, "t", "k", ["a", "b"], "s")
        y, ly, acc = pt._exchange(E.key(), xs, TemperedPDF(L, Pr, n_dims=1), T, d)
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=xs, d=d["d"], y=y, ly=ly, acc=acc)

    def spec(self, E, o):
        el = E.el
        d, x, y, acc = el(o["d"]), el(o["x"]), el(o["y"]), el(o["acc"]).reshape(-1)
        ll = [E.fapp("L", v, d) for v in x]
        cur, cx = list(ll), [v for v in x]
        for i in range(self.nt - 1):
            a = b0(acc[i])
            E.check(not_(a), f"pair {i}: a valid replica never takes a configuration of undefined or zero likelihood from above",
                    when=and_(fl.fin(cur[i]), bad(cur[i + 1])))
            E.check(not_(a), f"pair {i}: no exchange on an undefined likelihood", when=or_(fl.nan(cur[i]), fl.nan(cur[i + 1])))
            lo = fl.select(a, cur[i + 1], cur[i])
            hi = fl.select(a, cur[i], cur[i + 1])
            cur[i], cur[i + 1] = lo, hi
        l0 = E.fapp("L", y[0], d)
        E.check(not_(bad(l0)), "the first replica stays at a point of defined, non-zero likelihood", when=fl.fin(ll[0]))
        E.eq(y[0], x[0], "with every other replica invalid the first one keeps its configuration",
             when=and_(fl.fin(ll[0]), *[bad(v) for v in ll[1:]]))


class Tempered(Harness):
    """one call of the tempering strategy from valid replicas"""
    functions = ["ParallelTempering.__call__"]

    def __init__(self, kind="grw", nt=2, budget=120.0):
        self.kind, self.nt, self.budget = kind, nt, budget
        self.name = f"pt_call_{kind}_t{nt}"
        self.bounds = f"{nt} temperatures, one chain, one {kind} step, dimension 1; likelihood and prior NaN/-inf/finite anywhere"

    def run(self, E):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.resource.logPDF import TemperedPDF
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        L, Pr = E.opaque("L"), E.opaque("P")
        specials(E, {"L": SP, "P": SP, "L.d0": GSP, "P.d0": GSP})
        d = {"d": E.real("d")}
        nt = self.nt
        T = Buffer("T", (nt,), 0)
        gaps = E.el(E.real("gap", (nt,), pos=True))
        ts = [gaps[0]]
        for g in gaps[1:]:
            ts.append(fl.add(ts[-1], g))
        T.data = E.wrap(arr(ts))
        X = Buffer("X", (1, nt - 1, 1), 0)
        hot = E.real("hot", (1, nt - 1, 1))
        X.data = hot
        x = E.real("x", (1, 1))
        res = {"t": TemperedPDF(L, Pr, n_dims=1), "k": LocalStep(self.kind, 1).kern(E), "X": X, "T": T,
               "s": State({"training": False}, name="s")}
        _, res, y = ParallelTempering(1, "t", "k", ["X", "T"], "s")(E.key(), res, x, d)
        E.out("y", y)
        return dict(x=x, hot=hot, d=d["d"], y=y)

    def spec(self, E, o):
        el = E.el
        d, x, hot, y = el(o["d"]), el(o["x"])[0], el(o["hot"])[0], el(o["y"])[0]
        ok = and_(*[not_(bad(E.fapp(f, p, d))) for f in "LP" for p in [x] + list(hot)])
        for f in "LP":
            E.check(not_(bad(E.fapp(f, y, d))), f"the returned position has defined, non-zero {'likelihood' if f == 'L' else 'prior'}", when=ok)


def harnesses(tier):
    hs = [LocalStep("grw", 1), LocalStep("grw", 2), LocalStep("mala", 1), LocalStep("mala", 2), LocalStep("hmc", 1), LocalStep("hmc", 2),
          GlobalStep(1, 3, 5), GlobalStep(2, 3, 2), Chain("grw", 2), Chain("mala", 1), Exchange(2), Exchange(3), Tempered(),
          GlobalStep(1, 5, 2), Chain("grw", 3), Chain("mala", 2), Chain("hmc", 1), Exchange(4), Tempered("grw", 3),
          LocalStep("grw", 1, anywhere=True), LocalStep("mala", 1, anywhere=True), LocalStep("hmc", 1, anywhere=True), LocalStep("mala", 2, anywhere=True), GlobalStep(1, 3, 2, anywhere=True)]
    if tier == "thorough":
        hs += [Tempered("mala"), Chain("grw", 5), Chain("mala", 3), Chain("hmc", 2), Exchange(6), GlobalStep(2, 6, 4), LocalStep("grw", 4)]
    return hs

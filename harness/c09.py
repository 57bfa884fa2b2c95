"""C09 Chains are independent and batching over chains changes nothing"""
from harness.common import *
from harness.c07 import Run, make_buffers, fresh_draws


def prefix(a, b):
    """key a is b or an ancestor of b"""
    ra, pa = tm.keyroot_path(a)
    rb, pb = tm.keyroot_path(b)
    return ra == rb and pb[: len(pa)] == pa


def carried_fresh(E, key, events, label):
    """nothing drawn or split so far comes from the carried key or a descendant of it, and no ancestor of it was drawn from"""
    used = [k for _, k in events]
    drawn = [k for kind, k in events if kind == "bits"]
    E.check(not any(prefix(key, k) for k in used), f"{label}: the carried key has not been used")
    E.check(not any(prefix(k, key) for k in drawn), f"{label}: no randomness was drawn from an ancestor of the carried key")


def other_inputs(E, x, allowed_names):
    """names of symbolic inputs in the support of x that are not allowed"""
    return sorted({str(t.val) for t in E.support(x) if t.op in ("var", "bvar") and not allowed_names(str(t.val))})


def chain_checks(E, per_chain, inits, label, n_min):
    """per_chain: element arrays recorded for each chain"""
    allz = []
    for c, vals in enumerate(per_chain):
        bad = other_inputs(E, vals, lambda nm: nm.split("[")[0] not in inits or nm.split("[")[1].startswith(f"{c},"))
        E.check(not bad, f"{label} chain {c}: depends only on its own start, shared target and data {bad or ''}")
        ds = [z for z in E.draws(vals) if z.op in ("nrm", "u")]
        E.check(len(ds) >= n_min, f"{label} chain {c}: uses its own randomness")
        allz += ds
    E.keys_distinct([(z.args[0], z.val) for z in allz], f"{label}: no random number is used by two chains or twice")
    return allz


class Chains(Run):
    """one or two calls; every batch size gives the values of batch size 0"""

    def __init__(self, kind, n, nc, calls=1, dim=1, batches=None, fb=10, budget=150.0):
        super().__init__(kind, n, dim=dim, nc=nc, budget=budget, calls=calls, fb=fb)
        self.batches = list(range(1, nc + 2)) if batches is None else batches
        self.name = f"chains_{kind}_n{n}_c{nc}_x{calls}_d{dim}" + (f"_fb{fb}" if fb < 10 else "")
        self.bounds = (f"{kind} kernel, {calls} call(s) of {n} steps, {nc} chains, dimension {dim}, chain batch sizes {self.batches} against "
                       "all chains at once; all starts, draws, step sizes, targets and data")

    def run(self, E):
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.resource.states import State
        from flowMC.resource.logPDF import LogPDF
        L = E.opaque("L")
        x = E.real("x", (self.nc, self.dim))
        d = {"d": E.real("d")}
        kern = self.kern(E)
        cls = TakeGroupSteps if self.kind == "global" else TakeSerialSteps

        def go(b):
            res = {"k": kern, "L": LogPDF(L, n_dims=self.dim), "s": State({"P": "P", "Q": "Q", "A": "A"}, name="s"),
                   **make_buffers(self.nc, self.calls * self.n, self.dim)}
            strat = cls("L", "k", "s", ["P", "Q", "A"], self.n, chain_batch_size=b)
            key, last = E.key(), x
            ev = []
            for _ in range(self.calls):
                key, res, last = strat(key, res, last, d)
                ev.append((key, len(E.ctx.events)))
            return [res[b].data for b in "PQA"] + [last], ev

        n0 = len(E.ctx.events)
        base, ev = go(0)
        events = list(E.ctx.events)[n0:]
        alts = [go(b)[0] for b in self.batches]
        E.out("base", base), E.out("alts", alts)
        return dict(base=base, alts=alts, ev=[(k, n - n0) for k, n in ev], events=events)

    def spec(self, E, o):
        el = E.el
        base = [el(v) for v in o["base"]]
        chain_checks(E, [np.concatenate([v[c].reshape(-1) for v in base]) for c in range(self.nc)], ("x",), "run",
                     self.calls * self.n * (self.dim + 1))
        for c in range(self.nc):
            prev = np.array([], object)
            for k in range(self.calls * self.n):
                new = fresh_draws(E, np.append(base[0][c, k], base[2][c, k]), prev)
                E.check(sum(z.op == "nrm" for z in new) >= self.dim and sum(z.op == "u" for z in new) >= 1,
                        f"chain {c} step {k}: has random numbers used by no earlier step")
                prev = np.concatenate([prev, base[0][c, k].reshape(-1), [base[2][c, k]]])
        for i, (k, n) in enumerate(o["ev"]):
            carried_fresh(E, E.keyterm(k), o["events"][:n], f"after call {i}")
        for b, alt in zip(self.batches, o["alts"]):
            for nm, u, v in zip(("positions", "log densities", "acceptances", "returned positions"), base, alt):
                E.eq(el(v), u, f"batches of {b} chains give the same {nm}")


class Tempering(Harness):
    functions = ["ParallelTempering.__call__"]

    def __init__(self, nc, nt, n, training, budget=150.0):
        self.nc, self.nt, self.n, self.training, self.budget = nc, nt, n, training, budget
        self.name = f"pt_c{nc}_t{nt}_n{n}_{'train' if training else 'prod'}"
        self.bounds = f"{nc} chains, {nt} temperatures, {n} random-walk step(s) per call, dimension 1; all starts, temperatures, targets"

    def run(self, E):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
        from flowMC.resource.logPDF import TemperedPDF
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        L, Pr = E.opaque("L"), E.opaque("P")
        d = {"d": E.real("d")}
        T = Buffer("T", (self.nt,), 0)
        gaps = E.el(E.real("gap", (self.nt,), pos=True))
        ts = [gaps[0]]
        for g in gaps[1:]:
            ts.append(fl.add(ts[-1], g))
        T.data = E.wrap(arr(ts))
        X = Buffer("X", (self.nc, self.nt - 1, 1), 0)
        X.data = E.real("hot", (self.nc, self.nt - 1, 1))
        x = E.real("x", (self.nc, 1))
        res = {"t": TemperedPDF(L, Pr, n_dims=1), "k": GaussianRandomWalk(E.real("step", pos=True)), "X": X, "T": T,
               "s": State({"training": self.training}, name="s")}
        key, res, y = ParallelTempering(self.n, "t", "k", ["X", "T"], "s")(E.key(), res, x, d)
        E.out("y", y), E.out("X", res["X"].data)
        return dict(y=y, X=res["X"].data, key=key, events=list(E.ctx.events))

    def spec(self, E, o):
        y, X = E.el(o["y"]), E.el(o["X"])
        chain_checks(E, [np.concatenate([y[c].reshape(-1), X[c].reshape(-1)]) for c in range(self.nc)], ("x", "hot"), "tempering", self.nt * self.n + 1)
        carried_fresh(E, E.keyterm(o["key"]), o["events"], "after tempering")


class Sequence(Harness):
    """local and global blocks in sequence through the sampler"""
    functions = ["Sampler.sample", "TakeSerialSteps.__call__", "TakeGroupSteps.__call__"]

    def __init__(self, order, nc=2, n=1, budget=150.0):
        self.order, self.nc, self.n, self.budget = order, nc, n, budget
        self.name = f"sampler_{''.join(order)}_c{nc}"
        self.bounds = f"sampler running strategies {order} ({n} step(s) each), {nc} chains, dimension 1"

    def run(self, E):
        from flowMC.Sampler import Sampler
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.resource.states import State
        from flowMC.resource.logPDF import LogPDF
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from harness.stubs import StubFlow
        L = E.opaque("L")
        m = len(self.order) * self.n
        res = {"l": GaussianRandomWalk(E.real("step", pos=True)), "L": LogPDF(L, n_dims=1),
               "g": NFProposal(StubFlow(1, E.real("loc", (1,)), E.real("theta"))),
               "s": State({"P": "P", "Q": "Q", "A": "A"}, name="s"), **make_buffers(self.nc, m, 1)}
        loc = TakeSerialSteps("L", "l", "s", ["P", "Q", "A"], self.n)
        glo = TakeGroupSteps("L", "g", "s", ["P", "Q", "A"], self.n)
        # both strategies record one after the other, as a bundle sets them up
        strats = {"l": loc, "g": glo}
        from flowMC.strategy.lambda_function import Lambda
        pos = 0
        order = []
        for i, s in enumerate(self.order):
            def upd(key, res, x, d, i=i, s=s):
                strats[s].set_current_position(i * self.n)
                return key, res, x
            strats[f"u{i}"] = Lambda(upd)
            order += [f"u{i}", s]
        sam = Sampler(1, self.nc, E.key(), resources=res, strategies=strats, strategy_order=order)
        sam.sample(E.real("x", (self.nc, 1)), {"d": E.real("d")})
        o = [sam.resources[b].data for b in "PQA"]
        E.out("rec", o)
        return dict(rec=o)

    def spec(self, E, o):
        rec = [E.el(v) for v in o["rec"]]
        chain_checks(E, [np.concatenate([v[c].reshape(-1) for v in rec]) for c in range(self.nc)], ("x",), "sampler", len(self.order) * self.n * 2)
        for c in range(self.nc):
            prev = np.array([], object)
            for k in range(len(self.order) * self.n):
                new = fresh_draws(E, np.append(rec[0][c, k], rec[2][c, k]), prev)
                E.check(sum(z.op == "nrm" for z in new) >= 1 and sum(z.op == "u" for z in new) >= 1,
                        f"chain {c} record {k}: has random numbers used by no earlier step or strategy")
                prev = np.concatenate([prev, rec[0][c, k].reshape(-1), [rec[2][c, k]]])


def harnesses(tier):
    hs = [Chains("grw", 2, 3), Chains("mala", 1, 2), Chains("hmc", 1, 2), Chains("global", 2, 3), Chains("grw", 1, 2, calls=2),
          Chains("global", 2, 2, calls=2), Chains("grw", 1, 5, batches=[2, 3, 4]), Chains("grw", 1, 3, dim=2),
          Tempering(2, 2, 1, False), Tempering(2, 3, 1, False), Sequence("lgl"), Sequence("gl"),
          Chains("global", 3, 2, fb=1), Chains("global", 3, 1, fb=2, batches=[]),
          Chains("grw", 3, 4), Chains("mala", 2, 3), Chains("global", 3, 4), Chains("global", 4, 2, fb=2), Chains("global", 5, 2, fb=3), Tempering(3, 3, 1, False), Sequence("lglg", 3)]
    hs += [Chains("grw", 5, 6), Chains("hmc", 3, 3), Chains("global", 6, 3, fb=4), Chains("mala", 2, 7, batches=[2, 3, 5]), Tempering(3, 4, 2, False), Sequence("llggl", 3), Chains("grw", 2, 2, calls=4)]
    if tier == "thorough":
        hs += [Chains("grw", 7, 4), Chains("global", 9, 2, fb=4), Chains("mala", 2, 9, batches=[2, 4, 8]), Tempering(2, 5, 1, False), Sequence("lglglg", 2)]
    return hs

"""C31 A result depends only on what it was given, and giving it changes nothing"""
import copy
import io
import re
from contextlib import redirect_stdout

from flowMC.resource.optimizer import Optimizer
from harness.bundle import BundleRun
from harness.flows import *
from harness.stubs import StubFlow, StubKernel, TargetKernel, ModelGroupKernel
from harness.train import FlowMatchingModel, Path, Solver, ToyFlow, ToyMatch, RawPath, any_optimizer


def array(v):
    return eqx.is_array(v) or tr.is_sym(v)


def frozen(v):
    """what a caller can see of an option he passed (arrays are immutable and are kept as they are)"""
    if isinstance(v, dict):
        return {k: frozen(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(w) for w in v]
    return v


def unchanged(v, w):
    if isinstance(w, dict):
        return isinstance(v, dict) and list(v) == list(w) and all(unchanged(v[k], w[k]) for k in w)
    if isinstance(w, list):
        return isinstance(v, (list, tuple)) and len(v) == len(w) and all(unchanged(a, b) for a, b in zip(v, w))
    return v is w or (not array(w) and not array(v) and type(v) is type(w) and v == w)


def values(tree):
    """the array leaves of a result, in order"""
    return [jnp.asarray(l) for l in jax.tree_util.tree_leaves(tree) if array(l) or isinstance(l, (int, float, bool))]


class Same(Harness):
    """first, something else, then the first again: same values"""
    budget = 150.0

    def out(self, E, pairs):
        """`judge` reads these back: with code that draws on anything but its inputs the outputs of a replay are not the predicted ones, but they still differ among themselves"""
        for i, (_, p, q) in enumerate(pairs):
            for j, (v, w) in enumerate(zip(values(p), values(q))):
                E.out(f"{i}.{j}.first", v)
                E.out(f"{i}.{j}.again", w)

    @staticmethod
    def judge(outs):
        from symx.env import compare_outs
        names = sorted(k[:-6] for k in outs if k.endswith(".first"))
        return not all(compare_outs({"v": outs[k + ".first"]}, {"v": outs[k + ".again"]}, 1e-2)[0] for k in names)

    def compare(self, E, label, a, b):
        a, b = values(a), values(b)
        E.check(len(a) == len(b) and all(p.shape == q.shape and p.dtype == q.dtype for p, q in zip(a, b)), f"{label}: results of the same form")
        if len(a) != len(b):
            return
        for i, (p, q) in enumerate(zip(a, b)):
            p, q = E.el(p), E.el(q)
            if p.dtype == object or q.dtype == object:
                E.eq(p, q, f"{label}: value {i}")
            else:
                E.check(bool(np.array_equal(p, q, equal_nan=p.dtype.kind == "f")), f"{label}: value {i}")

    def independent(self, E, label, v, names):
        """v is a value of the run in between: it stays as it is when what was given to the other run alone is replaced"""
        for i, q in enumerate(values(v)):
            q = E.el(q)
            if q.dtype != object:
                continue
            mp = {}
            for t in E.support(q):
                if t.op in ("u", "nrm", "ri", "pm"):
                    n = str(tm.keyroot_path(t.args[0])[0])
                else:
                    n = re.split(r"[^A-Za-z0-9]", str(t.val))[0]
                if n in names and (t.op not in ("app", "bapp") or n in ("L", "M", "P")):
                    mp[t] = tm.bvar(f"instead{len(mp)}") if t.sort == "B" else tm.var(f"instead{len(mp)}")
            E.eq(q, E.subst(q, mp) if mp else q, f"{label}: value {i} has nothing of the other run")

    def spec(self, E, o):
        for label, a, b in o["pairs"]:
            self.compare(E, label, a, b)
        for label, v, names in o.get("apart", ()):
            self.independent(E, label, v, names)
        for label, now, then in o["kept"]:
            E.check(unchanged(now, then), f"{label}: what the caller passed is as it was")


class Kernels(Same):
    functions = ("GaussianRandomWalk.kernel", "MALA.kernel", "HMC.kernel", "NFProposal.kernel", "NFProposal.sample_flow")

    def __init__(self, kind, dim, reuse, n=3, b=2):
        self.kind, self.dim, self.reuse, self.n, self.b = kind, dim, reuse is True, n, b
        self.d2 = dim + (reuse == "wider")
        self.name = f"kernel_{kind}_d{dim}_{'one' if reuse is True else reuse}"
        self.bounds = (f"{kind}, dimension {dim}; the same step before and after a step of {'the same' if self.reuse else 'another'} kernel object elsewhere "
                       "(other position, target, data, draws, dimension); any positions, targets, data, draws and step sizes")

    def make(self, E, step, dim, th):
        if self.kind == "grw":
            from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
            return GaussianRandomWalk(step)
        if self.kind == "mala":
            from flowMC.resource.kernel.MALA import MALA
            return MALA(step)
        if self.kind == "hmc":
            from flowMC.resource.kernel.HMC import HMC
            return HMC(condition_matrix=1.0, step_size=step, n_leapfrog=1)
        from flowMC.resource.kernel.NF_proposal import NFProposal
        return NFProposal(StubFlow(dim, jnp.zeros(dim), th), n_NFproposal_batch_size=self.b)

    def run(self, E):
        L, L2 = E.opaque("L"), E.opaque("M")
        wrap = lambda f: (lambda x, dat: f(x, {"d": dat["d"]}))
        s, s2 = E.real("step", pos=True), E.real("step2", pos=True)
        th, th2 = E.real("th"), E.real("th2")
        d2 = self.d2
        x, y = E.real("x", (self.dim,)), E.real("y", (d2,))
        d, e = {"d": E.real("d")}, {"d": E.real("e")}
        if self.kind == "global":
            d["n_steps"], e["n_steps"] = self.n, self.n + 1
        lp, lp2 = E.real("lp"), E.real("lp2")
        kept = [("data", d, frozen(d)), ("other data", e, frozen(e))]
        k = self.make(E, s, self.dim, th)
        a = k.kernel(E.key(), x, lp, wrap(L), d)
        o = k if self.reuse else self.make(E, s2, d2, th2)
        mid = o.kernel(E.key("other"), y, lp2, wrap(L2), e)
        k2 = self.make(E, s, self.dim, th)
        b = k.kernel(E.key(), x, lp, wrap(L), d)
        c = k2.kernel(E.key(), x, lp, wrap(L), d)
        o2 = self.make(E, s if self.reuse else s2, d2, th if self.reuse else th2)
        mid2 = o2.kernel(E.key("other"), y, lp2, wrap(L2), e)
        pairs = [("repeated step", a, b), ("fresh kernel", a, c), ("step in between", mid, mid2)]
        self.out(E, pairs)
        return dict(pairs=pairs, kept=kept, apart=[("step in between", mid, {"x", "d", "lp", "L", "key"} | (set() if self.reuse else {"step", "th"})),
                                                   ("step before", a, {"y", "e", "lp2", "M", "other", "step2", "th2"})])


class Strategies(Same):
    functions = ("TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "AdamOptimization", "TrainModel", "UpdateState", "Lambda")

    def __init__(self, kind, nc=2, n=2):
        self.kind, self.nc, self.n = kind, nc, n
        self.name = f"strategy_{kind}_c{nc}_n{n}"
        self.bounds = (f"{kind}, {nc} chains, {n} steps; a run with progress output off, a run of the same object on other resources, starts, data and target, then "
                       "runs of the same object and of a fresh one (progress output on) with everything as in the first; any starts, data, targets and draws")

    def resources(self, E, tag, nc):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.logPDF import LogPDF, TemperedPDF
        from flowMC.resource.states import State
        L, P = E.opaque("L" + tag), E.opaque("P" + tag)
        n = 2 * self.n
        if self.kind in ("serial", "group"):
            r = {"k": StubKernel(tag) if self.kind == "serial" else ModelGroupKernel(StubFlow(1, jnp.zeros(1), E.real("th" + tag))), "L": LogPDF(L, n_dims=1),
                 "s": State({"P": "P", "Q": "Q", "A": "A"}, name="s"), "P": Buffer("P", (nc, n, 1), 1), "Q": Buffer("Q", (nc, n), 1), "A": Buffer("A", (nc, n), 1)}
        elif self.kind == "tempering":
            T, X = Buffer("T", (3,), 0), Buffer("X", (nc, 2, 1), 2)
            g = E.el(E.real("gap" + tag, (3,), pos=True))
            T.data = E.wrap(arr([g[0], fl.add(g[0], g[1]), fl.add(fl.add(g[0], g[1]), g[2])]))
            X.data = E.real("hot" + tag, (nc, 2, 1))
            r = {"t": TemperedPDF(L, P, n_dims=1), "k": TargetKernel(), "X": X, "T": T, "s": State({"training": True}, name="s")}
        elif self.kind == "adam":
            r = {"o": State({"a": 1}, name="o")}
        else:
            m = ToyFlow(E.real("w" + tag, (1,)), jnp.zeros(1), jnp.eye(1))
            opt = Optimizer(m)
            opt.optim, opt.optim_state = any_optimizer(), E.real("s" + tag, ())
            B, Lb = Buffer("B", (nc, n, 1), 1), Buffer("Lb", (8,), 0)
            B.data = E.real("seen" + tag, (nc, n, 1))
            r = {"m": m, "B": B, "o": opt, "Lb": Lb}
        return r, {"d": E.real("d" + tag)}, E.real("x" + tag, (nc, 1)), L

    def make(self, L, verbose):
        if self.kind in ("serial", "group"):
            from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
            return (TakeSerialSteps if self.kind == "serial" else TakeGroupSteps)("L", "k", "s", self.names, self.n, thinning=1, verbose=verbose)
        if self.kind == "tempering":
            from flowMC.strategy.parallel_tempering import ParallelTempering
            return ParallelTempering(1, "t", "k", self.names, "s", verbose=verbose)
        if self.kind == "adam":
            from flowMC.strategy.optimization import AdamOptimization
            return AdamOptimization(L, n_steps=1, learning_rate=self.lr, noise_level=self.nz, bounds=jnp.array([[-1.0, 1.0]]))
        from flowMC.strategy.train_model import TrainModel
        return TrainModel("m", "B", "o", loss_buffer_name="Lb", n_epochs=2, batch_size=2 * self.nc * self.n, n_max_examples=2, history_window=2, verbose=verbose)

    def state(self, r):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        out = []
        for k, v in r.items():
            if isinstance(v, Buffer):
                out += [v.data, v.cursor, v.cursor_dim]
            elif isinstance(v, State):
                out += [sorted(v.data).index(q) for q in v.data]
            elif isinstance(v, Optimizer):
                out += [v.optim_state]
            elif isinstance(v, eqx.Module):
                out += jax.tree_util.tree_leaves(eqx.filter(v, array))
        return out

    def run(self, E):
        from flowMC.resource.kernel.base import ProposalBase  # noqa
        self.names = {"tempering": ["X", "T"]}.get(self.kind, ["P", "Q", "A"])
        if self.kind == "adam":
            self.lr, self.nz = E.real("rate", pos=True, default=0.01), E.real("noise", default=1.0)
        kept, pairs = [], []

        def go(st, tag, nc, key):
            r, d, x, L = self.resources(E, tag, nc)
            kept.append((f"data of run {len(kept)}", d, frozen(d)))
            if hasattr(st, "set_current_position"):
                st.set_current_position(0)
            with redirect_stdout(io.StringIO()):
                key, r2, y = st(E.key(key), r, x, d)
            return [key, y, self.state(r2)]

        L = E.opaque("L")
        names0 = frozen(self.names)
        s1 = self.make(L, False)
        a = go(s1, "", self.nc, "key")
        mid = go(s1, "2", self.nc + 1, "other")
        b = go(s1, "", self.nc, "key")
        s2 = self.make(L, True)
        c = go(s2, "", self.nc, "key")
        mid2 = go(self.make(L, True), "2", self.nc + 1, "other")
        kept.append(("list of buffer names", self.names, names0))
        keyed = lambda v: [v[1:]]
        o = dict(kept=kept, pairs=[("repeated run", keyed(a), keyed(b)), ("fresh strategy, progress output on", keyed(a), keyed(c)), ("run in between", keyed(mid), keyed(mid2))])
        self.out(E, o["pairs"])
        # Adam keeps the target it was built with; the loss of the trained models is one function
        names = {"L", "P", "th", "gap", "hot", "w", "s", "seen", "d", "x", "key"} - ({"L"} if self.kind in ("adam", "train") else set())
        o["apart"] = [("run in between", mid[1:], names), ("run before", a[1:], {n + "2" for n in names} | {"other"})]
        o["keys"] = [(a[0], b[0]), (a[0], c[0]), (mid[0], mid2[0])]
        return o

    def spec(self, E, o):
        Same.spec(self, E, o)
        for i, (p, q) in enumerate(o["keys"]):
            E.check(bool(np.all(E.keyterm(p) == E.keyterm(q))), f"carried key {i} is the same")


class Models(Same):
    functions = ("RealNVP.__init__", "MaskedCouplingRQSpline.__init__", "MLP.__init__", "Gaussian.sample", "sample", "log_prob", "Solver.sample")

    def __init__(self, kind, nd=2, nl=2):
        self.kind, self.nd, self.nl = kind, nd, nl
        self.name = f"model_{kind}_d{nd}_l{nl}"
        self.bounds = (f"{kind}, {nd} coordinates, {nl} layers: built twice from one key with another model built, evaluated and sampled in between; weights are functions of the key's "
                       "random bits; samples and maps of the model before and after; any key, point and parameters")

    def make(self, key, nd, nl, hidden):
        if self.kind == "realnvp":
            return RealNVP(nd, nl, hidden[0], key)
        if self.kind == "spline":
            return MaskedCouplingRQSpline(nd, nl, hidden, 2, key)
        if self.kind == "match":
            import diffrax
            return FlowMatchingModel(Solver(MLP([nd + 1] + hidden + [nd], key), diffrax.Euler()), RawPath(None))
        return MLP([nd] + hidden + [nd], key, activation=jnp.tanh)

    def use(self, E, m, key, x):
        if self.kind == "mlp":
            return [m(x)]
        if self.kind == "match":
            return [m.sample(key, 1, dt=0.5)]
        m = symbolize(E, stub_splines(E, stub_mlps(E, m) if self.kind == "realnvp" else m, m.n_features), "w", lambda p, l: "_mask" in p or "_cov" in p)
        return [m.sample(key, 2), m.forward(x), m.inverse(x)]

    def run(self, E):
        hidden = [3] if self.kind == "realnvp" else [3, 2]
        h0 = frozen(hidden)
        x, y = E.real("x", (self.nd,)), E.real("y", (self.nd + 1,))
        A = self.make(E.key(), self.nd, self.nl, hidden)
        a = self.use(E, A, E.key("draw"), x)
        B = self.make(E.key("other"), self.nd + 1, self.nl + 1, hidden)
        mid = self.use(E, B, E.key("odraw"), y)
        C = self.make(E.key(), self.nd, self.nl, hidden)
        b = self.use(E, A, E.key("draw"), x)
        c = self.use(E, C, E.key("draw"), x)
        leaves = lambda m: [l for l in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array)) ]
        pairs = [("parameters of a model built again", leaves(A), leaves(C)), ("repeated use", a, b), ("use of the model built again", a, c)]
        self.out(E, pairs)
        return dict(pairs=pairs, kept=[("hidden sizes", hidden, h0)])


class Training(Same):
    functions = ("NFModel.train", "FlowMatchingModel.train")

    def __init__(self, kind, n=3, b=3, ne=2):
        self.kind, self.n, self.b, self.ne = kind, n, b, ne
        self.name = f"training_{kind}_n{n}_b{b}_e{ne}"
        self.bounds = (f"{kind} training on {n} examples, batch size {b}, {ne} epochs, before and after training another model on other data, progress output off and on; the model that is "
                       "trained keeps its values; unknown loss and optimiser, any draws")

    def run(self, E):
        mk = {"nf": ToyFlow, "fm": ToyMatch}[self.kind]
        data = lambda tag, n: (E.real("data" + tag, (n, 1)) if self.kind == "nf" else
                               (E.real("noise" + tag, (n, 1)), E.wrap(arr([fl.from_float(v) for v in (0.0, 2.0, 4.0, 6.0)[:n]]).reshape(n, 1)), E.real("time" + tag, (n, 1))))
        mean, cov = jnp.zeros(1), jnp.eye(1)
        m, m2 = mk(E.real("w", (1,)), mean, cov), mk(E.real("w2", (1,)), mean, cov)
        before = jax.tree_util.tree_leaves(eqx.filter(m, array))
        d, d2 = data("", self.n), data("2", 2)
        opt, s = any_optimizer(), E.real("s", ())
        go = lambda m_, key, d_, v, ne: [q for q in m_.train(E.key(key), d_, opt, s, ne, self.b, verbose=v)][1:]
        a = go(m, "key", d, False, self.ne)
        mid = go(m2, "other", d2, False, 1)
        b = go(m, "key", d, True, self.ne)
        after = jax.tree_util.tree_leaves(eqx.filter(m, array))
        lv = lambda v: [jax.tree_util.tree_leaves(eqx.filter(v[0], array)), v[1:]]
        pairs = [("trained again, progress output on", lv(a), lv(b)), ("the model handed in", before, after)]
        self.out(E, pairs)
        return dict(pairs=pairs, kept=[])


class Bundles(Same):
    functions = BundleRun.functions

    def __init__(self, pt, budget=200.0, **kw):
        self.A = BundleRun(pt, **kw)
        self.B = BundleRun(pt, nc=2, dim=self.A.dim, nl=3, ng=2, ntl=1, npl=1, lth=2)
        for q in (self.A, self.B):
            q.cut = False
        self.budget = budget
        self.name = "bundle_" + self.A.name
        self.bounds = "two runs of one set-up with a run of another set-up in between: " + self.A.bounds

    def once(self, E, h):
        o = h.run(E)
        log = [[e["name"], e["kind"]] for e in o["log"]]
        steps = [[e["in"], e["out"], [v for k, v in e["after"].items() if not isinstance(v, dict)]] for e in o["log"]]
        states = [[sorted(v.items()) for v in e["after"].values() if isinstance(v, dict)] for e in o["log"]]
        return o, log, steps, states

    def defaults(self, dim, **kw):
        """a bundle built with the default options"""
        from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
        from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            b = (RQSpline_MALA_PT_Bundle if self.A.pt else RQSpline_MALA_Bundle)(jax.random.PRNGKey(1), 2, dim, lambda x, d: 0.0, 2, 2, 1, 1, 2, **kw)
        return [l for l in jax.tree_util.tree_leaves([eqx.filter(v, eqx.is_array) for v in b.resources.values() if isinstance(v, eqx.Module)])], list(b.strategy_order)

    def run(self, E):
        hu = [5, 3]
        d0, d1 = [], []
        for dim in (3, 40, 1, 2):
            d0.append(self.defaults(dim))
        for dim in (3, 40, 1, 2):
            self.defaults(dim, rq_spline_hidden_units=hu)
        a = self.once(E, self.A)
        outs = dict(E.outs)
        mid = self.once(E, self.B)
        b = self.once(E, self.A)
        for dim in (3, 40, 1, 2):
            d1.append(self.defaults(dim))
        pairs = [("defaults", [v[0] for v in d0], [v[0] for v in d1]), ("second run", a[2], b[2])]
        self.out(E, pairs)
        return dict(pairs=pairs, kept=[("data", a[0]["d"], {"d": a[0]["d"]["d"]}), ("hidden sizes", hu, [5, 3])],
                    logs=[([v[1] for v in d0], [v[1] for v in d1]), (a[1], b[1]), (a[3], b[3])])

    def spec(self, E, o):
        Same.spec(self, E, o)
        for i, (p, q) in enumerate(o["logs"]):
            E.check(p == q, ("default order", "strategies run in the same order", "states go through the same values")[i])


def harnesses(tier):
    hs = [Kernels(k, d, r) for k in ("grw", "mala", "hmc", "global") for d, r in ((1, True), (1, "another"), (2, "wider"))]
    hs += [Strategies(k) for k in ("serial", "group", "tempering", "adam", "train")]
    hs += [Models(k) for k in ("mlp", "realnvp", "spline", "match")] + [Training("nf"), Training("fm"), Training("nf", 3, 2, 3)]
    hs += [Bundles(False, nc=1, nl=2, ng=2, ntl=2, npl=1), Bundles(True, nc=1, nl=1, ng=1, ntl=1, npl=1)]
    if tier == "thorough":
        hs += [Kernels("mala", 4, "wider"), Kernels("global", 2, True, 5, 2), Strategies("serial", 3, 4), Strategies("tempering", 3), Strategies("train", 3, 3), Models("spline", 4, 3),
               Bundles(True, nc=2, nl=2, ng=2, ntl=2, npl=2, nt=3), Bundles(False, nc=3, nl=3, ng=3, ntl=2, npl=2, lth=2)]
    return hs

"""C30 The options given to a bundle are the ones its run uses"""
import equinox as eqx
import optax

from harness.bundle import *
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline


def bundle_class(pt):
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    return RQSpline_MALA_PT_Bundle if pt else RQSpline_MALA_Bundle


class Parts(Harness):
    """the pieces a bundle builds, with symbolic step size, learning rate and top temperature"""
    functions = ("RQSpline_MALA_Bundle.__init__", "RQSpline_MALA_PT_Bundle.__init__", "MALA.kernel", "Optimizer.__init__", "MaskedCouplingRQSpline.__init__")

    def __init__(self, pt, dim=2, layers=2, hidden=(2,), bins=2, nt=3, steps=2):
        self.pt, self.dim, self.layers, self.hidden, self.bins, self.nt, self.steps = pt, dim, layers, list(hidden), bins, nt, steps
        self.name = f"parts_{'pt' if pt else 'plain'}_d{dim}_n{layers}_h{'x'.join(map(str, hidden))}_b{bins}" + (f"_T{nt}" if pt else "")
        self.bounds = (f"dimension {dim}, {layers} layers, hidden units {list(hidden)}, {bins} bins" + (f", {nt} temperatures" if pt else "") +
                       f"; any positive step size and learning rate{', any top temperature from 1.0625 up' if pt else ''}, any target, position, random draws; {steps} optimiser "
                       "updates with any gradients")

    def run(self, E):
        from flowMC.resource.kernel.MALA import MALA
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.logPDF import LogPDF
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.strategy.train_model import TrainModel
        L, P = E.opaque("L"), E.opaque("P")
        s, lr = E.real("step", pos=True, default=0.1), E.real("rate", pos=True, default=0.01)
        kw = dict(n_chains=1, n_dims=self.dim, logpdf=L, n_local_steps=1, n_global_steps=1, n_training_loops=1, n_production_loops=1, n_epochs=1,
                  mala_step_size=s, learning_rate=lr, rq_spline_hidden_units=self.hidden, rq_spline_n_bins=self.bins, rq_spline_n_layers=self.layers)
        o = {}
        if self.pt:
            o["top"] = E.real("top", lo=1.0625, default=5.0)
            kw.update(n_temperatures=self.nt, max_temperature=o["top"], logprior=P)
        b = bundle_class(self.pt)(jax.random.PRNGKey(3), **kw)
        res, st = b.resources, list(b.strategies.values())
        # kernels
        x, d, key, lp = E.real("x", (self.dim,)), {"d": E.real("d")}, E.key(), E.real("lp")
        t = LogPDF(L, n_dims=self.dim)
        ks = [("local steps", res[q.kernel_name]) for q in st if isinstance(q, TakeSerialSteps) and not isinstance(q, TakeGroupSteps)]
        ks += [("tempering", res[q.kernel_name]) for q in st if isinstance(q, ParallelTempering)]
        ref = MALA(s).kernel(key, x, lp, t, d)
        o["kernels"] = [(w, k.kernel(key, x, lp, t, d)) for w, k in ks]
        o["ref"] = ref
        E.out("kernels", [ref] + [v for _, v in o["kernels"]])
        # optimiser
        tm_ = [q for q in st if isinstance(q, TrainModel)][0]
        opt = res[tm_.optimizer_resource]
        model = res[tm_.model_resource]
        params = eqx.filter(model, eqx.is_inexact_array)
        leaves, td = jax.tree_util.tree_flatten(params)
        pick = 0  # gradients of one array are unknown, the others' are zero
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            o["init"] = jax.tree_util.tree_leaves(opt.optim_state)
            o["shapes"] = [(l.shape, l.dtype) for l in jax.tree_util.tree_leaves(eqx.filter(model, eqx.is_array))]
            o["weights"] = [(l.shape, l.dtype) for l in jax.tree_util.tree_leaves(eqx.filter(model.layers, eqx.is_inexact_array)) if l.ndim == 3]
            want = MaskedCouplingRQSpline(self.dim, self.layers, self.hidden, self.bins, jax.random.PRNGKey(0))
            o["want"] = [(l.shape, l.dtype) for l in jax.tree_util.tree_leaves(eqx.filter(want, eqx.is_array))]
        w = E.real("w", (2,))
        small = {"w": w}
        mk = lambda z: optax.chain(optax.clip_by_global_norm(1.0), optax.adamw(learning_rate=z, b1=0.9))
        s1 = opt.optim.init(small)
        rf = mk(lr)
        s2 = rf.init(small)
        ups = []
        for k in range(self.steps):
            g = {"w": E.real(f"g{k}", (2,))}
            u1, s1 = opt.optim.update(g, s1, small)
            u2, s2 = rf.update(g, s2, small)
            ups.append((u1["w"], u2["w"]))
        o["ups"], o["lr"] = ups, lr
        E.out("ups", ups)
        gs = [q for q in st if isinstance(q, TakeGroupSteps)][0]
        ker = res[gs.kernel_name]
        o["is_nf"] = isinstance(ker, NFProposal)
        o["same_model"] = [jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_array)) for m in (ker.model, model)]
        if self.pt:
            q = [q for q in st if isinstance(q, ParallelTempering)][0]
            o["T"] = res[q.tempered_buffer_names[1]].data
            E.out("T", o["T"])
        return o

    def spec(self, E, o):
        el = E.el
        E.check(len(o["kernels"]) == (2 if self.pt else 1), "local kernel found")
        for w, v in o["kernels"]:
            for k, (p, q) in enumerate(zip(v, o["ref"])):
                E.eq(el(p), el(q), f"the kernel of the {w} is MALA with the given step size (output {k})")
        for k, (u, v) in enumerate(o["ups"]):
            E.eq(el(u), el(v), f"optimiser update {k} is clipped AdamW with the given learning rate")
        E.check(o["shapes"] == o["want"], "flow has the given number of layers, hidden units and bins")
        widths = [self.dim, *self.hidden, self.dim * (3 * self.bins + 1)]
        weights = sorted((sh[0], *sorted(sh[1:])) for sh, _ in o["weights"])
        E.check(weights == sorted((self.layers, *sorted(w)) for w in zip(widths, widths[1:])), "one weight matrix per layer between consecutive widths: the hidden units given, in order")
        E.check(all(not tr.is_sym(l) and np.all(np.asarray(l) == 0) for l in o["init"] if hasattr(l, "dtype")), "optimiser starts fresh")
        E.check(o["is_nf"], "global steps propose from a flow")
        E.check(len(o["same_model"][0]) == len(o["same_model"][1]) and all(p.shape == q.shape and all(same_el(u, v) is TRUE for u, v in zip(el(p).reshape(-1), el(q).reshape(-1))) for p, q in zip(*o["same_model"])),
                "global steps start from the model that is trained")
        if self.pt:
            T = el(o["T"])
            E.check(T.shape == (self.nt,), "the given number of temperatures")
            E.same(T[0], ONE, "lowest temperature")
            E.same(T[-1], s0(el(o["top"])), "highest temperature")
            for k in range(self.nt - 1):
                E.check(fl.lt(T[k], T[k + 1]), f"temperatures {k} and {k + 1} increase")


class Rates(Harness):
    """an optimiser resource on its own"""
    functions = ("Optimizer.__init__",)

    def __init__(self, steps=3):
        self.steps = steps
        self.name = f"optimizer_{steps}"
        self.bounds = f"{steps} updates of two parameter arrays (2 + 1 entries), any gradients, parameters, learning rate and momentum"

    def run(self, E):
        from flowMC.resource.optimizer import Optimizer
        lr, m = E.real("rate", pos=True, default=0.01), E.real("momentum", lo=0, hi=1, his=True, default=0.5)
        p = {"a": E.real("a", (2,)), "b": E.real("b")}
        opt = Optimizer(p, learning_rate=lr, momentum=m)
        rf = optax.chain(optax.clip_by_global_norm(1.0), optax.adamw(learning_rate=lr, b1=m))
        s1, s2 = opt.optim_state, rf.init(p)
        out = []
        for k in range(self.steps):
            g = {"a": E.real(f"ga{k}", (2,)), "b": E.real(f"gb{k}")}
            u1, s1 = opt.optim.update(g, s1, p)
            u2, s2 = rf.update(g, s2, p)
            out.append(([u1["a"], u1["b"]], [u2["a"], u2["b"]]))
        E.out("u", out)
        return out

    def spec(self, E, o):
        for k, (u, v) in enumerate(o):
            for p, q in zip(u, v):
                E.eq(E.el(p), E.el(q), f"update {k}: AdamW with the given learning rate and momentum on the gradient clipped to norm one")


class Spy(StubFlow):
    """records how it is trained"""
    log: list = eqx.field(static=True)
    losses: list

    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        k = len(self.log)
        self.log.append(dict(data=data, optim=optim, state=state, epochs=num_epochs, batch=batch_size, n=k))
        return rng, self, {"state": k}, self.losses[k][:num_epochs]


class Options(BundleRun):
    """one run of the real strategies in which the flow records how it is trained"""

    def __init__(self, pt, epochs, batch_size, examples, window=None, tsteps=1, **kw):
        self.epochs, self.bsz, self.examples, self.window = epochs, batch_size, examples, window
        BundleRun.__init__(self, pt, tsteps=tsteps, **kw)
        self.name = "options_" + self.name + f"_e{epochs}_s{batch_size}_m{examples}" + (f"_w{window}" if window else "")
        self.bounds += f"; {epochs} epochs, batch size {batch_size}, {examples} training examples" + (f", history window {window}" if window else "")

    def run(self, E):
        from flowMC.Sampler import Sampler
        from flowMC.resource.kernel.base import ProposalBase
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.model.nf_model.base import NFModel
        from flowMC.resource.optimizer import Optimizer
        from flowMC.strategy.train_model import TrainModel
        from flowMC.strategy.parallel_tempering import ParallelTempering
        L, P = E.opaque("L"), E.opaque("P")
        kw = dict(n_chains=self.nc, n_dims=self.dim, logpdf=L, n_local_steps=self.nl, n_global_steps=self.ng, n_training_loops=self.ntl,
                  n_production_loops=self.npl, n_epochs=self.epochs, batch_size=self.bsz, n_max_examples=self.examples,
                  rq_spline_hidden_units=[2], rq_spline_n_bins=2, rq_spline_n_layers=2, local_thinning=self.lth, global_thinning=self.gth)
        if self.pt:
            kw.update(n_temperatures=self.nt, max_temperature=self.tmax, n_tempered_steps=self.tsteps, logprior=P)
            if self.window:
                kw["history_window"] = self.window
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            b = bundle_class(self.pt)(jax.random.PRNGKey(0), **kw)
        res = b.resources
        log = []
        losses = [E.real(f"loss{k}", (self.epochs + 2,)) for k in range(self.ntl)]
        spy = lambda: Spy.__new__(Spy)
        theta = E.real("theta")

        def make():
            m = object.__new__(Spy)
            z = StubFlow(self.dim, jnp.zeros(self.dim), theta)
            for f in ("_n_features", "_data_mean", "_data_cov", "loc", "theta"):
                object.__setattr__(m, f, getattr(z, f))
            object.__setattr__(m, "log", log)
            object.__setattr__(m, "losses", losses)
            return m

        opts = []
        for k, v in list(res.items()):
            if isinstance(v, NFModel):
                res[k] = make()
            elif isinstance(v, NFProposal):
                res[k] = ModelGroupKernel(make())
            elif isinstance(v, ProposalBase):
                res[k] = TargetKernel()
            elif isinstance(v, Optimizer):
                opts.append((v.optim, v.optim_state))
        train = [s for s in b.strategies.values() if isinstance(s, TrainModel)][0]
        stages = []

        def wrap(s):
            f = s.__call__

            def call(key, r, x, data):
                out = f(key, r, x, data)
                stages.append((type(s).__name__, r[train.data_resource].data, E_pos(out)))
                return out
            return call

        E_pos = lambda out: out[2]
        from flowMC.strategy.base import Strategy

        class Rec(Strategy):
            def __init__(self, inner):
                self.inner = inner

            def __call__(self, key, r, x, data):
                before = r[train.data_resource].data
                tx = None
                if isinstance(self.inner, ParallelTempering):
                    tx = [r[self.inner.tempered_buffer_names[0]].data]
                out = self.inner(key, r, x, data)
                if tx is not None:
                    tx.append(out[1][self.inner.tempered_buffer_names[0]].data)
                stages.append((self.inner, before, x, out[2], tx))
                return out

        b.strategies = {k: Rec(v) for k, v in b.strategies.items()}
        x0 = E.real("x", (self.nc, self.dim))
        smp = Sampler(self.dim, self.nc, E.key(), resource_strategy_bundles=b)
        smp.sample(x0, {"d": E.real("d")})
        lossb = smp.resources[train.loss_buffer_name].data
        E.out("loss", lossb)
        E.out("data", [l["data"] for l in log])
        return dict(log=log, losses=losses, lossb=lossb, opts=opts, stages=stages, x0=x0, train=train)

    def spec(self, E, o):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.strategy.train_model import TrainModel
        el = E.el
        log = o["log"]
        E.check(len(log) == self.ntl, "the flow is trained once per training loop")
        befores = [el(s[1]) for s in o["stages"] if isinstance(s[0], TrainModel)]
        for k, l in enumerate(log):
            E.check(l["epochs"] == self.epochs, f"training {k} runs the given number of epochs")
            E.check(l["batch"] == self.bsz, f"training {k} uses the given batch size")
            data = el(l["data"])
            E.check(data.shape == (self.examples, self.dim), f"training {k} uses the given number of examples")
            E.check(any(l["optim"] is q for q, _ in o["opts"]), f"training {k} uses the bundle's optimiser")
            if k:
                E.check(l["state"] == {"state": k - 1}, f"training {k} continues with the optimiser state the previous one left")
            buf = befores[k]
            W = self.window if self.pt and self.window else 100
            rows = []
            for c in range(self.nc):
                ok = [j for j in range(buf.shape[1]) if not any(v is fl.NINF or (not isinstance(v, (T, Fl)) and not np.isfinite(fl.to_float(v))) for v in buf[c, j])]
                rows += [buf[c, j] for j in ok[-W:]]
            for i in range(data.shape[0]):
                E.check(or_(*[and_(*[fl.feq(a, b) for a, b in zip(data[i], r)]) for r in rows]), f"training {k}: example {i} is one of the most recent samples")
        lossb = el(o["lossb"])
        want = [v for l in o["losses"] for v in el(l)[: self.epochs]]
        E.check(lossb.shape == (len(want),), "loss buffer has one slot per epoch of the whole run")
        if lossb.shape == (len(want),):
            E.eq(lossb, arr(want), "loss buffer holds every epoch's loss in order")
        if self.pt:
            n = self.tsteps if self.tsteps > 0 else self.nl
            k = 0
            for s in o["stages"]:
                if not isinstance(s[0], ParallelTempering):
                    continue
                old = {z for v in list(el(s[2]).reshape(-1)) + list(el(s[4][0]).reshape(-1)) for z in E.draws(arr([v]))}
                new = {z for v in list(el(s[3]).reshape(-1)) + list(el(s[4][1]).reshape(-1)) for z in E.draws(arr([v])) if z.op == "nrm"} - old
                E.check(len(new) == self.nc * self.nt * n * self.dim, f"tempering call {k}: every replica takes the given number of steps")
                k += 1
            E.check(k == self.ntl + self.npl, "one tempering call per loop")


def harnesses(tier):
    hs = [Parts(False, bins=3), Parts(False, dim=3, layers=3, hidden=(3, 2), bins=2), Parts(True, layers=3), Parts(True, dim=1, layers=1, hidden=(2, 5, 3), bins=4, nt=4), Parts(True, nt=2), Rates(),
          Options(False, 3, 4, 2, ntl=2, npl=1), Options(False, 1, 2, 3, nc=2, ntl=1, npl=1, nl=2, ng=1),
          Options(True, 2, 5, 2, window=1, ntl=2, npl=1, nl=2), Options(True, 3, 2, 2, window=2, ntl=1, npl=1, nl=3, nc=2, tsteps=-1),
          Options(True, 1, 3, 1, window=3, ntl=2, npl=0, nl=2, nt=3, tsteps=0),
          Parts(True, dim=4, layers=4, hidden=(4, 4), bins=5, nt=6), Options(False, 4, 3, 3, ntl=3, npl=2, nl=3, ng=2, lth=2),
          Options(True, 2, 3, 3, window=2, ntl=3, npl=1, nl=2, ng=2, tsteps=3)]
    if tier == "thorough":
        hs += [Rates(5), Parts(False, dim=6, layers=5, hidden=(5, 4, 3), bins=7), Options(False, 6, 4, 4, ntl=4, npl=3, nl=4, ng=3, lth=2, gth=2),
               Options(True, 4, 4, 2, window=4, ntl=4, npl=2, nl=3, ng=2, nt=3, tsteps=5)]
    return hs

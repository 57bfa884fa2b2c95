"""Bundles: run the real strategies in the real order with stand-in kernels, flow and trainer; log what every strategy did."""
from harness.common import *
from harness.stubs import ModelGroupKernel, StubFlow, TargetKernel


class BundleRun(Harness):
    functions = ["RQSpline_MALA_Bundle.__init__", "RQSpline_MALA_PT_Bundle.__init__", "Sampler.sample", "TakeSerialSteps", "TakeGroupSteps", "UpdateState",
                 "Lambda", "ParallelTempering.__call__", "Buffer.update_buffer"]
    budget = 200.0
    fresh_hot = False
    prior = True
    cut = True

    def __init__(self, pt, nc=1, dim=1, nl=1, ng=1, ntl=1, npl=1, lth=1, gth=1, nt=2, prior=True, batch=0, tsteps=1, tmax=5.0, tag="", **kw):
        self.pt, self.nc, self.dim, self.nl, self.ng, self.ntl, self.npl, self.lth, self.gth, self.nt = pt, nc, dim, nl, ng, ntl, npl, lth, gth, nt
        self.prior, self.batch, self.tsteps, self.tmax = prior, batch, tsteps, tmax
        self.name = (f"{tag}{'pt' if pt else 'plain'}_c{nc}_d{dim}_l{nl}-{lth}_g{ng}-{gth}_t{ntl}_p{npl}" + (f"_T{nt}x{tsteps}m{tmax:g}{'' if prior else '_noprior'}" if pt else "")
                     + (f"_b{batch}" if batch else ""))
        self.bounds = (f"{'tempering' if pt else 'plain'} bundle, {nc} chain(s), dimension {dim}, {nl} local steps thinned by {lth}, {ng} global steps thinned by "
                       f"{gth}, {ntl} training and {npl} production loops" + (f", {nt} temperatures up to {tmax}, {tsteps} tempered steps" if pt else "") +
                       "; unknown target" + (" and prior" if pt and prior else "") + ", kernels, flow and training outcome")

    def build(self, E, L, Pr):
        from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
        from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
        kw = dict(n_chains=self.nc, n_dims=self.dim, logpdf=L, n_local_steps=self.nl, n_global_steps=self.ng, n_training_loops=self.ntl,
                  n_production_loops=self.npl, n_epochs=2, rq_spline_hidden_units=[2], rq_spline_n_bins=2, rq_spline_n_layers=2,
                  local_thinning=self.lth, global_thinning=self.gth, chain_batch_size=self.batch, verbose=self.nc > 1)
        if self.pt:
            kw.update(n_temperatures=self.nt, max_temperature=self.tmax, n_tempered_steps=self.tsteps)
            if Pr is not None:
                kw["logprior"] = Pr
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            return (RQSpline_MALA_PT_Bundle if self.pt else RQSpline_MALA_Bundle)(jax.random.PRNGKey(0), **kw)

    def run(self, E):
        from flowMC.Sampler import Sampler
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.kernel.base import ProposalBase
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.model.nf_model.base import NFModel
        from flowMC.strategy.base import Strategy
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.strategy.train_model import TrainModel
        from flowMC.resource.states import State
        L = E.opaque("L")
        Pr = E.opaque("P") if self.pt and self.prior else None
        d = {"d": E.real("d")}
        x0 = E.real("x", (self.nc, self.dim))
        b = self.build(E, L, Pr)
        res = b.resources
        theta0 = E.real("theta0")
        for k, v in list(res.items()):
            if isinstance(v, NFModel):
                res[k] = StubFlow(self.dim, jnp.zeros(self.dim), theta0)
            elif isinstance(v, NFProposal):
                res[k] = ModelGroupKernel(StubFlow(self.dim, jnp.zeros(self.dim), theta0))
            elif isinstance(v, ProposalBase):
                res[k] = TargetKernel()
        log = []
        me = self

        def snap(r):
            out = {}
            for k, v in r.items():
                if isinstance(v, Buffer):
                    out[k] = v.data
                elif isinstance(v, State):
                    out[k] = dict(v.data)
                elif isinstance(v, NFModel):
                    out[k] = v.theta
            return out

        class Rec(Strategy):
            def __init__(self, inner, name):
                self.inner, self.name = inner, name
                self.kind = ("train" if isinstance(inner, TrainModel) else "tempering" if isinstance(inner, ParallelTempering) else
                             "local" if isinstance(inner, TakeSerialSteps) else "global" if isinstance(inner, TakeGroupSteps) else "other")

            def __call__(self, key, r, x, data):
                first = not any(e["kind"] == "tempering" for e in log)
                e = dict(kind=self.kind, name=self.name, pos=x, before=snap(r), strat=self.inner)
                if me.cut and self.kind in ("tempering", "local", "global"):
                    x = E.real(f"x{len(log)}", (me.nc, me.dim))  # any positions: every call is judged on its own
                e["in"] = x
                if self.kind == "tempering" and me.fresh_hot:
                    hot = r[self.inner.tempered_buffer_names[0]]
                    hot.data = E.real(f"hot{len(log)}", (me.nc, me.nt - 1, me.dim))
                    e["fresh"] = hot.data
                    if first:  # any ladder with the same lowest temperature (the bundle's own values round in single precision)
                        T = r[self.inner.tempered_buffer_names[1]]
                        ts = [E.el(T.data)[0]]
                        for g in E.el(E.real("gap", (me.nt - 1,), pos=True)):
                            ts.append(fl.add(ts[-1], g))
                        T.data = E.wrap(arr(ts))
                    e["ladder"] = r[self.inner.tempered_buffer_names[1]].data
                log.append(e)
                if self.kind == "train":
                    k = sum(q["kind"] == "train" for q in log)
                    r[self.inner.model_resource] = StubFlow(me.dim, jnp.zeros(me.dim), E.real(f"theta{k}"))
                    out = key, r, x
                else:
                    out = self.inner(key, r, x, data)
                for k, v in list(out[1].items()):  # a proposal built anew around a model still stands for an unknown one
                    if isinstance(v, NFProposal):
                        out[1][k] = ModelGroupKernel(v.model)
                e["out"], e["after"] = out[2], snap(out[1])
                return out

        b.strategies = {k: Rec(v, k) for k, v in b.strategies.items()}
        smp = Sampler(self.dim, self.nc, E.key(), resource_strategy_bundles=b)
        smp.sample(x0, d)
        E.out("rec", [v.data for v in smp.resources.values() if isinstance(v, Buffer)])
        return dict(x0=x0, d=d, log=log, bundle=b, res=smp.resources)

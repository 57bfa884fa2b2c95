"""C29 A saved model loads back as the same model"""
import os
import shutil
import tempfile

from harness.flows import *
from harness.c18 import spd
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver


class SaveModel(Harness):
    """real files in a scratch folder; symbolic parameters pass through them as numbers of their own"""
    functions = ("NFModel.save_model/load_model", "NFModel.save_resource/load_resource", "FlowMatchingModel.save_model/load_model",
                 "FlowMatchingModel.save_resource/load_resource")

    def __init__(self, kind, nd, nl, resource, fname="model", budget=120.0):
        self.kind, self.nd, self.nl, self.resource, self.fname, self.budget = kind, nd, nl, resource, fname, budget
        self.name = f"{kind}_d{nd}_l{nl}_{'resource' if resource else 'model'}_{fname.replace('.', '_')}"
        self.bounds = (f"{kind} model with {nd} coordinates and {nl} layer(s), every parameter, whitening mean and covariance any real; loaded into a model "
                       "of the same architecture with other values; saved and loaded again; two models saved side by side")

    def build(self, seed, mean=None, cov=None):
        n, key = self.nd, jax.random.PRNGKey(seed)
        kw = {} if mean is None else dict(data_mean=mean, data_cov=cov)
        if self.kind == "realnvp":
            return RealNVP(n, self.nl, 2, key, **kw)
        if self.kind == "spline":
            return MaskedCouplingRQSpline(n, self.nl, [2], 2, key, **kw)
        return FlowMatchingModel(Solver(MLP([n + 1] + [2] * self.nl + [n], key, activation=jax.nn.tanh)), Path(CondOTScheduler()), **kw)

    def model(self, E, tag, seed):
        n = self.nd
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            m = self.build(seed, jnp.zeros(n), jnp.eye(n))
        return symbolize(E, m, tag, keep=lambda p, l: "method" in p)

    def run(self, E):
        E.tokens()
        save = (lambda m, p: m.save_resource(p)) if self.resource else (lambda m, p: m.save_model(p))
        load = (lambda m, p: m.load_resource(p)) if self.resource else (lambda m, p: m.load_model(p))
        a, b = self.model(E, "a", 1), self.model(E, "b", 1)
        leaves = lambda m: jax.tree_util.tree_flatten(m)
        a0 = leaves(a)[0]
        from jax._src import core
        with core.set_current_trace(core.eval_trace):
            other = self.build(7, jnp.arange(1.0, self.nd + 1), 2.0 * jnp.eye(self.nd))
            # exact in every precision
            other = jax.tree.map(lambda l: (0.5 + jnp.arange(l.size, dtype=l.dtype) / 64).reshape(l.shape) if eqx.is_inexact_array(l) and l.size and l.ndim else l, other)
        o0 = leaves(other)[0]
        d = tempfile.mkdtemp(prefix="c29_")
        try:
            pa, pb, pc = (os.path.join(d, self.fname + s) for s in ("", "2", "3"))
            save(a, pa)
            save(b, pb)
            l1 = load(other, pa)
            lb = load(other, pb)
            save(l1, pc)
            l2 = load(other, pc)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        thaw = lambda m: jax.tree.map(lambda l: E.thaw(l) if hasattr(l, "dtype") else l, m)
        l1, l2, lb = thaw(l1), thaw(l2), thaw(lb)
        arrs = lambda m: [l for l in leaves(m)[0] if hasattr(l, "dtype")]
        E.out("l", [arrs(x) for x in (a, l1, l2, lb)])
        res = {"a": (a0, leaves(a)[0]), "other": (o0, leaves(other)[0]), "pairs": [("loaded model", a, l1), ("model saved and loaded twice", a, l2), ("second model", b, lb)]}
        x = E.real("x", (self.nd,))
        for what, p, q in res["pairs"]:
            vals = []
            for m in (p, q):
                if self.kind == "flowmatching":
                    vals.append([m.data_mean, m.data_cov])
                elif self.kind == "spline":
                    vals.append([m.data_mean, m.data_cov, jnp.asarray(m.n_features)])
                else:
                    y, ld = m.forward(x)
                    z, li = m.inverse(x)
                    vals.append([m.data_mean, m.data_cov, jnp.asarray(m.n_features), y, ld, z, li])
            res[what] = vals
        return res

    def spec(self, E, o):
        conc = lambda l: l.tolist() if hasattr(l, "tolist") and not tr.is_sym(l) else l
        for what, p, q in o["pairs"]:
            (lp, tp), (lq, tq) = jax.tree_util.tree_flatten(p), jax.tree_util.tree_flatten(q)
            E.check(len(lp) == len(lq), f"{what}: same structure")
            if len(lp) != len(lq):
                return
            for k, (u, v) in enumerate(zip(lp, lq)):
                if not hasattr(u, "dtype"):
                    E.check(type(u) is type(v) and (u == v or not isinstance(u, (bool, int, float, complex, str))), f"{what}: setting {k}")
                    continue
                E.check(hasattr(v, "dtype") and u.shape == v.shape and u.dtype == v.dtype, f"{what}: array {k} keeps shape and precision")
                if getattr(v, "shape", None) == u.shape:
                    E.eq(E.el(v), E.el(u), f"{what}: array {k}")
            for k, (u, v) in enumerate(zip(*o[what])):
                E.eq(E.el(v), E.el(u), f"{what}: same whitening and map ({k})")
        for w in ("a", "other"):
            E.check(all(x is y for x, y in zip(*o[w])), f"{'saving' if w == 'a' else 'loading'} leaves the model it is called on alone")


def harnesses(tier):
    hs = [SaveModel("realnvp", 2, 2, False), SaveModel("realnvp", 3, 1, True, "m.v1"), SaveModel("spline", 2, 2, False, "m.v1"), SaveModel("spline", 3, 1, True),
          SaveModel("flowmatching", 2, 1, False), SaveModel("flowmatching", 1, 2, True, "m.v1"),
          SaveModel("realnvp", 4, 4, True), SaveModel("spline", 4, 4, True), SaveModel("flowmatching", 3, 3, True)]
    if tier == "thorough":
        hs += [SaveModel("realnvp", 6, 6, True), SaveModel("spline", 6, 3, True), SaveModel("flowmatching", 5, 2, True)]
    return hs

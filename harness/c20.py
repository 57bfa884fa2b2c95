"""C20 Training changes only what is meant to be trained"""
import diffrax
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
from flowMC.resource.optimizer import Optimizer
from harness.c18 import spd
from harness.train import *


def classify(model):
    """leaf path -> 'frozen' | 'white' | 'trained', from the meaning of the fields alone"""
    fixed = set()

    def find(node, path):
        if isinstance(node, Distribution) and getattr(node, "learnable", True) is False:
            for p, l in jax.tree_util.tree_flatten_with_path(node)[0]:
                fixed.add(path + jax.tree_util.keystr(p))

    is_d = lambda x: isinstance(x, Gaussian)
    for p, l in jax.tree_util.tree_flatten_with_path(model, is_leaf=is_d)[0]:
        if is_d(l):
            find(l, jax.tree_util.keystr(p))
    out = {}
    for p, l in jax.tree_util.tree_flatten_with_path(model)[0]:
        s = jax.tree_util.keystr(p)
        if not eqx.is_array(l) and not tr.is_sym(l):
            out[s] = "static"
        elif s in (f"._data_mean", "._data_cov"):
            out[s] = "white"
        elif "_mask" in s or "._range" in s or "._min_" in s or s in fixed:
            out[s] = "frozen"
        elif jnp.issubdtype(jnp.result_type(l), jnp.inexact):
            out[s] = "trained"
        else:
            out[s] = "frozen"
    return out


def leaves(model):
    return {jax.tree_util.keystr(p): l for p, l in jax.tree_util.tree_flatten_with_path(model)[0]}


def spline_stub(E, model, nd):
    return eqx.tree_at(lambda m: m.layers, model, symbolize(E, stub_splines(E, model.layers, nd), "w", lambda p, l: "_mask" in p))


class Frozen(Harness):
    functions = ("NFModel.train", "NFModel.train_step", "NFModel.loss_fn", "FlowMatchingModel.train", "FlowMatchingModel.train_step",
                 "FlowMatchingModel.loss_fn", "Optimizer.__init__", "AffineCoupling", "MaskedCouplingLayer.mask", "Gaussian.mean", "Gaussian.cov")
    max_paths = 32
    budget = 200.0

    def __init__(self, kind, base, opt, mode, nd=2, n=2, nl=1):
        self.kind, self.base, self.opt, self.mode, self.nd, self.n, self.nl = kind, base, opt, mode, nd, n, nl
        self.light = opt != "any" or kind == "coupling"  # frozen leaves only
        self.name = f"{kind}_{base}_{opt}_{mode}_d{nd}_l{nl}_n{n}"
        self.bounds = (f"{kind} with {nd} coordinates, {nl} layers, base {base}, " +
                       {"any": "unknown optimiser (each update an unknown function of parameter, state and gradient)", "adamw": "the shipped optimiser with any learning rate, fresh state",
                        "adamw2": "the shipped optimiser, two steps"}[opt] +
                       f", {n} training points with any values; " + {"step": "one step", "train": "whole-set epochs of train()"}[mode] + "; conditioner networks are unknown functions of input and parameter")

    def make_base(self, E):
        n = self.nd
        mu = E.real("bm", (n,))
        A = E.real("bA", (n, n))
        if self.base == "default":
            return None
        if self.base == "fixed":
            return Gaussian(mu, jnp.eye(n), learnable=False)
        if self.base == "learn":
            return Gaussian(mu, jnp.diag(jnp.array([2.0, 0.5, 1.0][:n])), learnable=True)
        if self.base == "composite":
            return Composable([Gaussian(mu[:1], jnp.eye(1), learnable=False), Gaussian(mu[1:], jnp.eye(n - 1), learnable=True)], {"a": (0, 1), "b": (1, n)})

    def make(self, E):
        n = self.nd
        mean = E.real("mean", (n,))
        cov = jnp.diag(jnp.array([4.0, 0.25, 1.0][:n]))
        kw = dict(data_mean=mean, data_cov=cov)
        if self.kind == "fm":
            f = StubMLP(E.real("theta", (2,)), n + 1, n, "")
            return FlowMatchingModel(Solver(f), Path(CondOTScheduler()), **kw)
        b = self.make_base(E)
        if b is not None:
            kw["base_dist"] = b
        if self.kind == "realnvp":
            m = RealNVP(n, self.nl, 1, jax.random.PRNGKey(3), **kw)
            return eqx.tree_at(lambda m: m.affine_coupling, m, stub_mlps(E, m.affine_coupling))
        if self.kind == "coupling":  # flow made of the other coupling layer
            m = RealNVP(n, self.nl, 1, jax.random.PRNGKey(3), **kw)
            mk = jnp.stack([(jnp.arange(n) + i) % 2 for i in range(self.nl)]).astype(float)
            return eqx.tree_at(lambda m: m.affine_coupling, m, CouplingAdapter(stub_mlps(E, eqx.filter_vmap(lambda k, a: AffineCoupling(n, 1, a, k, 0.1))(jax.random.split(jax.random.PRNGKey(1), self.nl), mk))))
        m = MaskedCouplingRQSpline(n, self.nl, [2], 3, jax.random.PRNGKey(3), **kw)
        return spline_stub(E, m, n)

    def run(self, E):
        m = self.make(E)
        n, nd = self.n, self.nd
        if self.opt == "any":
            opt, st = any_optimizer(), E.real("s", ())
        else:
            lr = E.real("lr", (), pos=True)
            o = Optimizer(m, learning_rate=lr)
            opt, st = o.optim, o.optim_state
        d = self.points(E)
        x0, t = E.real("x0", (n, nd)), E.real("t", (n, 1))
        o = {}
        if self.mode == "step":
            if self.kind == "fm":
                dx = E.real("dx", (n, nd))
                v, m2, s2 = m.train_step(d, t, dx, opt, st)
                lref = lambda q: self.fm_loss(q, d, t, dx)
            else:
                v, m2, s2 = m.train_step(d, opt, st)
                lref = lambda q: self.nf_loss(q, d)
            steps = [m2]
            start = m
        else:
            key = E.key()
            data = (x0, d, t) if self.kind == "fm" else d
            _, m2, s2, losses = m.train(key, data, opt, st, 1, n + 1, verbose=False)
            v = losses[0]
            w = self.white(d)
            start = eqx.tree_at(lambda q: (q._data_mean, q._data_cov), m, w)
            if self.kind == "fm":
                z = (d - w[0]) / jnp.sqrt(jnp.diag(jnp.atleast_2d(w[1])))
                xt, dx = (1 - t) * x0 + t * z, z - x0
                lref = lambda q: self.fm_loss(q, xt, t, dx)
            else:
                lref = lambda q: self.nf_loss(q, d)
        # what one step is: the optimiser's update of the trained leaves for the gradient of the mean loss
        if self.light:
            E.out("m", [v] + [l for l in jax.tree_util.tree_leaves(m2) if hasattr(l, "dtype")])
            return {"m": m, "m2": m2, "start": start}
        lv, g = eqx.filter_value_and_grad(lref)(start)
        up, s_ref = opt.update(g, st, start)
        ref = eqx.apply_updates(start, up)
        E.out("m", [v] + [l for l in jax.tree_util.tree_leaves(m2) if hasattr(l, "dtype")])
        return {"m": m, "m2": m2, "start": start, "ref": ref, "v": v, "lv": lv, "s": s2, "sr": s_ref}

    def points(self, E):
        n, nd = self.n, self.nd
        if n != 2 or self.mode != "train":
            return E.real("d", (n, nd))
        c, h = E.real("c", (nd,)), E.real("h", (nd,), pos=True)  # any two points, up to exchanging and mirroring coordinates
        return jnp.stack([c - h, c + h])

    def nf_loss(self, q, d):
        s = 0.0
        for i in range(self.n):
            s = s - q.log_prob(d[i])
        return s / self.n

    def fm_loss(self, q, x, t, dx):
        s = 0.0
        for i in range(self.n):
            y = q.solver.model(jnp.concatenate([x[i], t[i]]))
            for j in range(self.nd):
                s = s + (y[j] - dx[i, j]) ** 2
        return s / (self.n * self.nd)

    def white(self, d):
        n, nd = self.n, self.nd
        mean = [sum(d[i, j] for i in range(n)) / n for j in range(nd)]
        cov = [[sum((d[i, a] - mean[a]) * (d[i, b] - mean[b]) for i in range(n)) / (n - 1) for b in range(nd)] for a in range(nd)]
        return jnp.stack(mean), jnp.stack([jnp.stack(r) for r in cov])

    def spec(self, E, o):
        cl = classify(o["m"])
        new, old, start = leaves(o["m2"]), leaves(o["m"]), leaves(o["start"])
        ref = None if self.light else leaves(o["ref"])
        E.check(set(new) == set(old), "training keeps the model's structure")
        if set(new) != set(old):
            return
        moved = 0
        for k, c in sorted(cl.items()):
            if c == "static":
                E.check(new[k] is old[k] or new[k] == old[k], f"{k} is unchanged")
                continue
            a = np.asarray(E.el(new[k]), object)
            if c == "frozen":
                E.eq(a, np.asarray(E.el(old[k]), object), f"{k} is not moved by the optimiser")
            elif c == "white":
                b = np.asarray(E.el(start[k]), object)
                E.eq(a.reshape(b.shape) if a.size == b.size else a, b, f"{k}: " + ("unchanged by the step" if self.mode == "step" else "that of the training data"))
            else:
                moved += 1
                if not self.light:
                    self.updated(E, a, np.asarray(E.el(ref[k]), object), k)
        E.check(moved > 0, "something is trained")
        if self.light:
            return
        E.same(s0(E.el(o["v"])), s0(E.el(o["lv"])), "the recorded loss is the mean loss of the batch")
        self.state(E, s0(E.el(o["s"])), s0(E.el(o["sr"])))
        a = o["m2"]
        M = np.asarray(E.el(a.data_cov), object)
        E.check(M.shape == (self.nd, self.nd), "covariance is a matrix")

    def updated(self, E, a, b, k):
        """both are one update of the unknown optimiser: same parameter, state and gradient"""
        E.check(a.shape == b.shape, f"{k}: shape is kept")
        if a.shape != b.shape:
            return
        for i in np.ndindex(*a.shape):
            u, v = [x for x in top(a[i], None)], [x for x in top(b[i], None)]
            E.check(len(u) == 1 and u[0].val == v[0].val and len(u[0].args) == len(v[0].args), f"{k}{list(i)}: one optimiser update")
            if len(u) != 1 or u[0].val != v[0].val or len(u[0].args) != len(v[0].args):
                continue
            E.same(fl.sub(a[i], u[0]), fl.sub(b[i], v[0]), f"{k}{list(i)}: the update is added to the parameter")
            for n, (p, q) in enumerate(zip(u[0].args[1:], v[0].args[1:])):
                if p is not q:
                    E.same(p, q, f"{k}{list(i)}: the optimiser sees parameter, state and gradient of the mean loss ({n})")

    def state(self, E, a, b):
        E.check(a.op == b.op == "app" and len(a.args) == len(b.args), "one step of the optimiser state")
        if a.op == "app" and len(a.args) == len(b.args):
            for n, (p, q) in enumerate(zip(a.args, b.args)):
                if p is not q:
                    E.same(p, q, f"the optimiser state sees parameters and gradients of the mean loss ({n})")


class CouplingAdapter(eqx.Module):
    """AffineCoupling seen through the (x, condition) calling convention of RealNVP's layers"""
    inner: AffineCoupling

    def __call__(self, x, condition):
        return self.inner(x)

    def inverse(self, x, condition):
        return self.inner.inverse(x)


class Many(Harness):
    """several epochs and batches with the unknown optimiser: what is frozen stays, the base stays the base"""
    functions = Frozen.functions
    max_paths = 64
    budget = 200.0

    def __init__(self, kind, base, ne, B, n):
        self.f = Frozen(kind, base, "any", "train", 2, n)
        self.ne, self.B, self.n, self.kind = ne, B, n, kind
        self.name = f"many_{kind}_{base}_e{ne}_n{n}_b{B}"
        self.bounds = f"{ne} epochs over {n} fixed points with batch size {B}; otherwise as {self.f.bounds}"

    def run(self, E):
        m = self.f.make(E)
        n = self.n
        E.ctx.special["U"] = ()
        d = E.real("d", (n, 2)) if self.kind != "fm" else E.real("c", (2,)) + E.real("h", (2,), pos=True) * jnp.asarray([[float((3 * i * i + 5 * j * i + j) % 11) for j in range(2)] for i in range(n)])
        s = E.real("s", ())
        key = E.key()
        data = (E.real("x0", (n, 2)), d, E.real("t", (n, 1))) if self.kind == "fm" else d
        k2, m2, s2, losses = m.train(key, data, zero_grad(any_optimizer()), s, self.ne, self.B, verbose=False)
        w = self.f.white(d)
        E.out("m", [l for l in jax.tree_util.tree_leaves(m2) if hasattr(l, "dtype")])
        return {"m": m, "m2": m2, "start": eqx.tree_at(lambda q: (q._data_mean, q._data_cov), m, w)}

    def spec(self, E, o):
        cl = classify(o["m"])
        new, old, start = leaves(o["m2"]), leaves(o["m"]), leaves(o["start"])
        for k, c in sorted(cl.items()):
            if c == "static":
                E.check(new[k] is old[k] or new[k] == old[k], f"{k} is unchanged")
            elif c == "frozen":
                E.eq(np.asarray(E.el(new[k]), object), np.asarray(E.el(old[k]), object), f"{k} is not moved by the optimiser")
            elif c == "white":
                a, b = np.asarray(E.el(new[k]), object), np.asarray(E.el(start[k]), object)
                E.eq(a.reshape(b.shape) if a.size == b.size else a, b, f"{k}: that of the training data")


def zero_grad(opt):
    """the unknown rule with gradients hidden from it (a rule that moves parameters without gradients, such as weight decay)"""
    def update(g, s, p):
        return opt.update(jax.tree.map(jnp.zeros_like, g), s, p)
    return optax.GradientTransformation(opt.init, update)


def harnesses(tier):
    hs = []
    for kind in ("realnvp", "spline", "coupling"):
        hs.append(Frozen(kind, "default", "any", "step"))
        if kind != "coupling":
            hs += [Frozen(kind, "default", "adamw", "step"), Frozen(kind, "default", "any", "train")]
    for b in ("fixed", "learn", "composite"):
        hs += [Frozen("realnvp", b, "any", "step"), Frozen("realnvp", b, "adamw", "step")]
    hs += [Frozen("spline", "composite", "any", "train"), Frozen("realnvp", "default", "any", "train", 1, 2), Frozen("realnvp", "default", "any", "step", 2, 1, 2)]
    for opt in ("any", "adamw"):
        hs += [Frozen("fm", "default", opt, "step"), Frozen("fm", "default", opt, "train")]
    hs += [Frozen("fm", "default", "any", "step", 1, 3), Many("realnvp", "fixed", 2, 2, 4), Many("fm", "default", 2, 2, 4)]
    return hs

"""C23 Optimisation strategy ascends the target within bounds, chain by chain"""
import optax

from flowMC.resource.states import State
from flowMC.strategy.optimization import AdamOptimization
from harness.c09 import carried_fresh
from harness.common import *
from symx.env import opaque_call


class Adam(Harness):
    functions = ("AdamOptimization.__call__", "AdamOptimization.optimize", "AdamOptimization.__init__")
    max_paths = 64
    budget = 200.0

    def __init__(self, nc, nd, n, bounds="per", via="call", special=()):
        self.nc, self.nd, self.n, self.b, self.via, self.sp = nc, nd, n, bounds, via, special
        self.name = f"adam_c{nc}_d{nd}_n{n}_{bounds}_{via}" + ("_" + "_".join(special) if special else "")
        self.bounds = (f"{nc} chains, {nd} coordinates, {n} steps; any start (inside, on or outside the bounds), differentiable target, data, learning rate, noise level, draws; bounds: " +
                       {"per": "any finite interval per coordinate", "one": "any finite interval for all coordinates", "inf": "one-sided or infinite intervals", "none": "the default"}[bounds] +
                       (f"; the target may be {special}" if special else ""))

    def run(self, E):
        nd, nc = self.nd, self.nc
        L = E.opaque("L", special=self.sp)
        d = {"d": E.real("d")}
        x = E.real("x", (nc, nd))
        lr, sg = E.real("lr", (), pos=True), E.real("noise", ())
        if self.b in ("per", "one"):
            k = nd if self.b == "per" else 1
            lo = E.real("lo", (k,))
            bd = jnp.stack([lo, lo + E.real("width", (k,), lo=0)], axis=1)
        elif self.b == "inf":
            lo, hi = E.el(E.real("lo", (nd,))), E.el(E.real("hi", (nd,)))
            bd = E.wrap(np.array([[lo[i], fl.PINF] if i % 3 == 0 else [fl.NINF, hi[i]] if i % 3 == 1 else [fl.NINF, fl.PINF] for i in range(nd)], object))
        kw = {} if self.b == "none" else {"bounds": bd}
        s = AdamOptimization(L, n_steps=self.n, learning_rate=lr, noise_level=sg, **kw)
        key = E.key()
        keep = State({"a": 1.0}, "s")
        res = {"s": keep}
        if self.via == "call":
            k2, r2, y = s(key, res, x, d)
            lp = None
            obj = lambda p: -L(p, d)
        else:
            O = E.opaque("O")
            k2, y, lp = s.optimize(key, O, x, d)
            r2 = res
            obj = lambda p: O(p, d)
        E.out("o", [y, lp])
        o = {"x": x, "y": y, "lp": lp, "k": k2, "ev": list(E.ctx.events), "r2": r2, "res": res, "keep": keep, "d": d, "L": L,
             "bd": [[fl.NINF, fl.PINF]] * nd if self.b == "none" else np.broadcast_to(np.asarray(E.el(bd), object), (nd, 2))}
        if E.sym:
            o["ref"] = lambda c, zs: self.path(E, x[c], [E.wrap(np.array(z, object)) for z in zs], obj, lr, sg, o["bd"])
            o["refs"] = self.refs(E, o)
        return o

    def path(self, E, p, zs, obj, lr, sg, bd):
        """the optimiser's rule (optax.adam) along the chain's own gradient, one random factor per step, projected after each step"""
        rule = optax.adam(lr)
        st = rule.init(p)
        for z in zs:
            g = jax.grad(obj)(p) * (1 + z * sg)
            u, st = rule.update(g, st, p)
            q = np.asarray(E.el(p + u), object)
            p = E.wrap(arr([fl.min_(fl.max_(q[i], bd[i][0]), bd[i][1]) for i in range(self.nd)]))
        return p

    def refs(self, E, o):
        y = np.asarray(E.el(o["y"]), object)
        out = []
        if y.shape != (self.nc, self.nd):
            return out
        for c in range(self.nc):
            ds = E.draws(y[c])
            if len(ds) != self.n or any(d.op != "nrm" for d in ds) or self.n > 3:
                out.append((ds, None))
                continue
            # a step's factor is seen by the gradients of all later steps
            apps = [t for t in tm.postorder([q for e in y[c] for q in fl.elem_terms(e)]) if t.op == "app"]
            seen = {d: sum(d in tm.support(*t.args) for t in apps) for d in ds}
            best = np.asarray(E.el(o["ref"](c, sorted(ds, key=lambda d: -seen[d]))), object)
            out.append((ds, best))
        return out

    def spec(self, E, o):
        y = np.asarray(E.el(o["y"]), object)
        E.check(y.shape == (self.nc, self.nd), "one position per chain")
        if y.shape != (self.nc, self.nd):
            return
        bd = o["bd"]
        for c in range(self.nc):
            for i in range(self.nd):
                E.check(and_(fl.le(bd[i][0], y[c, i]), fl.le(y[c, i], bd[i][1])), f"chain {c} coordinate {i} lies within the bounds")
        used = []
        for c, (ds, ref) in enumerate(o.get("refs", ())):
            E.check(len(ds) == self.n and all(d.op == "nrm" for d in ds), f"chain {c}: one random factor per step")
            if ref is None:
                continue
            used += ds
            E.eq(y[c], ref, f"chain {c}: moved by the optimiser's rule along its own gradient, uphill, and projected")
        independent_draws(E, used, [], "random factors are independent between chains and steps")
        carried_fresh(E, E.keyterm(o["k"]), o["ev"], "returned key")
        if o["lp"] is not None:
            want = [E.fapp("L", y[c], E.el(o["d"]["d"])) for c in range(self.nc)]
            E.eq(np.asarray(E.el(o["lp"]), object), arr(want), "reported log densities are those of the returned positions")
        E.check(o["r2"] is o["res"] and set(o["r2"]) == {"s"} and o["r2"]["s"] is o["keep"] and o["keep"].data == {"a": 1.0}, "resources are unchanged")


def harnesses(tier):
    hs = [Adam(2, 1, 1, "per"), Adam(2, 2, 1, "per", "opt"), Adam(2, 2, 1, "one"), Adam(1, 3, 1, "inf", "opt"), Adam(2, 2, 1, "none"), Adam(1, 1, 2, "none"), Adam(1, 1, 2, "one", "opt"), Adam(2, 1, 2, "per"),
          Adam(3, 1, 1, "one", "opt"), Adam(2, 1, 1, "one", "opt", ("nan", "ninf")), Adam(1, 2, 2, "per", "opt"), Adam(3, 2, 2, "inf")]
    hs += [Adam(1, 1, 3, "one"), Adam(4, 3, 1, "per", "opt"), Adam(2, 3, 2, "none")]
    if tier == "thorough":
        hs += [Adam(1, 1, 4, "one"), Adam(5, 4, 1, "per", "opt"), Adam(3, 2, 3, "none")]
    return hs

"""C21 Training loops visit data once per epoch and return the best epoch"""
from harness.c09 import carried_fresh
from harness.train import *


class Loop(Harness):
    """shared by both model kinds: an unknown loss, an unknown optimiser, one trained parameter"""
    max_paths = 200

    def setup(self, E):
        self.w = E.real("w", (1,))
        self.s = E.real("s", ())
        n, nd = self.n, self.nd
        if self.kind == "nf":
            m = ToyFlow(self.w, E.real("m", (nd,)), jnp.eye(nd))
            d = E.real("d", (n, nd))
            self.args = d
            self.rowlen = nd
            return m, d
        cov = jnp.diag(jnp.array([4.0, 0.25, 1.0][:nd]))
        m = ToyMatch(self.w, jnp.array([1.0, -2.0, 0.5][:nd]), cov)
        # data whose standard deviation is a power of two, so that whitening rounds nowhere
        dev = {3: [1, 0, -1], 4: [3, -1, -1, -1], 5: [1, 1, -1, -1, 0], 6: [3, -3, 1, -1, 0, 0]}.get(n, [(3 * i * i + i) % 11 for i in range(n)])
        x1 = jnp.asarray([[float(dev[(i + j) % n] * 2**j + 4 * j + 1) for j in range(nd)] for i in range(n)]) if self.fixed else E.real("x1", (n, nd))
        d = (E.real("x0", (n, nd)), x1, E.real("t", (n, 1)))
        self.rowlen = 2 * nd + 1
        return m, d

    def rows(self, E, d, whiten):
        """elements of example i as they reach the loss"""
        if self.kind == "nf":
            return np.asarray(E.el(d), object)
        x0, x1, t = (np.asarray(E.el(v), object) for v in d)
        mean, std = whiten
        z = np.empty(x1.shape, object)
        for i in np.ndindex(*x1.shape):
            z[i] = fl.div(fl.sub(x1[i], mean[i[1]]), std[i[1]])
        return np.concatenate([x0, t, z], axis=1)

    # ---- reading one epoch's steps out of the result
    def check_rows(self, E, rows, got, tag, whole=False):
        """got: list of steps, each a list of row-argument tuples; every row is an example and none is used twice"""
        n = self.n
        c = 1 if self.kind != "nf" else self.rowlen
        idm = {}
        for i in range(n):
            for j in range(self.nd):
                v = rows[i, j]
                idm[v] = tm.const(i)
        ids = []
        for k, step in enumerate(got):
            for r in step:
                i = fl.subst_elem(r[0], idm)
                ids.append(i)
                want = [rows[n - 1, j] for j in range(self.rowlen)]
                for e in range(n - 2, -1, -1):
                    want = [fl.select(fl.feq(i, tm.const(e)), rows[e, j], want[j]) for j in range(self.rowlen)]
                E.check(or_(*[fl.feq(i, tm.const(e)) for e in range(n)]), f"{tag} step {k}: an example of the data")
                E.eq(arr(r), arr(want), f"{tag} step {k}: the example as given")
        for a in range(len(ids)):
            for b in range(a):
                E.check(not_(fl.feq(ids[a], ids[b])), f"{tag}: no example is used twice")

    def step_rows(self, E, g, p, size, tag):
        """g is the gradient of the mean loss of exactly `size` rows at parameter p"""
        dn = f"L.d{0 if False else self.nargs() - 1}[0]"
        a = top(g, dn)
        E.check(len(a) == size, f"{tag}: the gradient averages over {size} examples")
        s = ZERO
        for t in a:
            s = fl.sub(s, fl.mul(tm.const(Fraction(1, max(len(a), 1))), t))
            E.same(t.args[-1], p, f"{tag}: the gradient is taken at the current parameter")
        E.same(g, s, f"{tag}: gradient of the mean loss")
        return [list(t.args[:-1]) for t in a]

    def nargs(self):
        return 2 if self.kind == "nf" else 4

    def loss_rows(self, E, loss, p, size, tag):
        a = top(loss, "L")
        E.check(len(a) == size, f"{tag}: the recorded loss is a mean over one batch")
        s = ZERO
        for t in a:
            s = fl.sub(s, fl.mul(tm.const(Fraction(1, max(len(a), 1))), t))
        R = fl.R(loss)
        E.same(R, s, f"{tag}: recorded loss is the batch's mean loss")
        if a and p is not None:
            E.same(a[0].args[-1], p, f"{tag}: recorded loss belongs to the last step's parameter")
        return [list(t.args[:-1]) for t in a]

    @property
    def spe(self):
        return self.n // self.B if self.n >= self.B else 1

    @property
    def size(self):
        return self.B if self.n >= self.B else self.n


class Epoch(Loop):
    functions = ("NFModel.train_epoch", "NFModel.train_step", "NFModel.loss_fn", "FlowMatchingModel.train_epoch", "FlowMatchingModel.train_step")
    fixed = False

    def __init__(self, kind, n, B, nd=1):
        self.kind, self.n, self.B, self.nd = kind, n, B, nd
        self.name = f"epoch_{kind}_n{n}_b{B}_d{nd}"
        self.bounds = f"{n} examples of {nd} coordinates, batch size {B}, any data, parameter and optimiser state; unknown loss, unknown optimiser, any permutation"

    def run(self, E):
        m, d = self.setup(E)
        key = E.key()
        v, m2, s2 = m.train_epoch(key, any_optimizer(), self.s, d, self.B)
        E.out("o", [v, m2.w, s2])
        o = {"d": d, "v": v, "w": m2.w, "s": s2, "w0": self.w, "s0": self.s}
        if self.kind != "nf":
            o["wh"] = (m.data_mean, jnp.sqrt(jnp.diag(m.data_cov)))
        return o

    def spec(self, E, o):
        whiten = None if self.kind == "nf" else [np.asarray(E.el(x), object) for x in o["wh"]]
        rows = self.rows(E, o["d"], whiten)
        w, w0 = s0(E.el(o["w"])), s0(E.el(o["w0"]))
        got = steps_of(w, w0, None, None)
        E.check(got is not None, "the parameter moves by a chain of optimiser updates")
        if got is None:
            return
        seq, cur = got
        E.same(w, cur, "the parameter is the start plus the optimiser's updates")
        E.check(len(seq) == self.spe, f"exactly {self.spe} optimiser steps in one epoch")
        used = [self.step_rows(E, st["g"], st["p"], self.size, f"step {k}") for k, st in enumerate(seq)]
        self.check_rows(E, rows, used, "epoch")
        st = s0(E.el(o["s0"]))
        fin = s0(E.el(o["s"]))
        chain = []
        t = fin
        while isinstance(t, T) and t.op == "app" and t.val == "S":
            chain.append(t)
            t = t.args[0]
        E.check(len(chain) == len(seq) and t is st, "the optimiser state goes through the same steps")
        for k, (a, b) in enumerate(zip(seq, reversed(chain))):
            E.same(a["s"], b.args[0], f"step {k}: update and state see the same optimiser state")
            E.check(a["p"] in b.args and a["g"] in b.args, f"step {k}: update and state see the same parameter and gradient")
        lr = self.loss_rows(E, s0(E.el(o["v"])), seq[-1]["p"] if seq else None, self.size, "epoch")
        if seq:
            E.check({tuple(x.id for x in r) for r in lr} == {tuple(x.id for x in r) for r in used[-1]}, "the recorded loss is the last batch's")


class Train(Loop):
    functions = ("NFModel.train", "NFModel.train_epoch", "FlowMatchingModel.train", "FlowMatchingModel.train_epoch")
    fixed = True

    def __init__(self, kind, n, B, epochs, special=(), nd=1):
        self.kind, self.n, self.B, self.ne, self.sp, self.nd = kind, n, B, epochs, special, nd
        self.name = f"train_{kind}_n{n}_b{B}_e{epochs}" + ("_" + "_".join(special) if special else "")
        self.bounds = (f"{n} examples, batch size {B}, {epochs} epochs, any losses" + (f", losses may be {special}" if special else "") +
                       ", any data, parameter and optimiser state; unknown loss and optimiser; progress output on and off")

    def run(self, E):
        m, d = self.setup(E)
        if self.sp:
            E.ctx.special["L"] = self.sp
        key = E.key()
        verbose = self.verbose(E)
        ne = len(E.ctx.events)
        k2, m2, s2, losses = m.train(key, d, any_optimizer(), self.s, self.ne, self.B, verbose=verbose)
        E.out("o", [m2.w, s2, losses, m2._data_mean, m2._data_cov])
        E.out("k", k2)
        return {"d": d, "l": losses, "w": m2.w, "s": s2, "w0": self.w, "s0": self.s, "k": k2, "ev": list(E.ctx.events)[ne:], "mean": m2._data_mean, "cov": m2._data_cov}

    def verbose(self, E):
        return E.choice("verbose", [False, True]) if self.ne <= 2 and not self.sp else False

    def spec(self, E, o):
        whiten = None
        if self.kind != "nf":
            whiten = [np.asarray(E.el(jnp.mean(o["d"][1], axis=0)), object), np.asarray(E.el(jnp.sqrt(jnp.diag(jnp.atleast_2d(jnp.cov(o["d"][1].T))))), object)]
        rows = self.rows(E, o["d"], whiten)
        w0 = s0(E.el(o["w0"]))
        ls = np.asarray(E.el(o["l"]), object)
        E.check(ls.shape == (self.ne,), "one loss per epoch")
        allkeys = []
        for e in range(self.ne):
            L = top(fl.R(ls[e]), "L")
            E.check(len(L) == self.size, f"epoch {e}: loss is a mean over one batch")
            if not L:
                continue
            p = L[0].args[-1]
            got = steps_of(p, w0, None, None)
            E.check(got is not None, f"epoch {e}: loss taken along the chain of optimiser updates")
            if got is None:
                continue
            seq, cur = got
            E.same(p, cur, f"epoch {e}: parameter of the recorded loss")
            E.check(len(seq) == (e + 1) * self.spe - 1, f"the loss recorded {e + 1}. is that of the last step of epoch {e}")
            used = [self.step_rows(E, st["g"], st["p"], self.size, f"epoch {e}") for st in seq[e * self.spe:]]
            used.append(self.loss_rows(E, ls[e], p, self.size, f"epoch {e}"))
            self.check_rows(E, rows, used, f"epoch {e}")
            pms = [a for st in used for r in st for a in E.draws(arr(r)) if a.op == "pm"]
            ks = {a.args[0] for a in pms}
            E.check(len(ks) <= 1, f"epoch {e}: one permutation")
            allkeys += [(k, 0) for k in ks]
        if self.n >= self.B and self.n > 1:
            E.keys_distinct(allkeys, "every epoch draws a fresh permutation")
            E.check(len(allkeys) == self.ne, "every epoch draws a permutation")
        carried_fresh(E, E.keyterm(o["k"]), o["ev"], "returned key")
        # which epoch is returned
        w = s0(E.el(o["w"]))
        got = steps_of(w, w0, None, None)
        E.check(got is not None, "the returned parameter is reached by optimiser updates")
        if got is None:
            return
        seq, cur = got
        E.same(w, cur, "returned parameter")
        nan = [fl.nan(v) for v in ls]
        anyok = or_(*[not_(x) for x in nan])
        k = len(seq)
        E.check(k % self.spe == 0 and 0 <= k // self.spe <= self.ne, "the returned model is that of the end of an epoch")
        e = k // self.spe - 1
        if e < 0:
            E.check(not_(or_(*[and_(not_(fl.nan(v)), not_(fl.pinf(v))) for v in ls])), "the untrained model is returned only if no epoch has a usable loss")
        else:
            E.check(not_(nan[e]), "the returned epoch has a defined loss", when=anyok)
            for f in range(self.ne):
                E.check(or_(nan[f], fl.le(ls[e], ls[f])), f"no epoch has a lower loss than the returned one (epoch {f})", when=anyok)
        st, t, c = s0(E.el(o["s0"])), s0(E.el(o["s"])), 0
        while isinstance(t, T) and t.op == "app" and t.val == "S":
            if c < len(seq):
                q = seq[len(seq) - 1 - c]
                E.same(q["s"], t.args[0], "returned state and model went through the same steps")
                E.check(q["p"] in t.args and q["g"] in t.args, "returned state and model saw the same gradients")
            c += 1
            t = t.args[0]
        E.check(t is st and c == k, "the optimiser state is that of the returned epoch")


class Long(Train):
    """many epochs: instead of branching on every comparison of losses, the epoch with the lowest loss is chosen first"""

    def __init__(self, kind, epochs):
        Train.__init__(self, kind, 2, 2, epochs)
        self.name = f"long_{kind}_e{epochs}"
        where, out = ("any", "on and off") if epochs < 8 else ("the first, middle or last", "on")
        self.bounds = (f"2 examples in one batch, {epochs} epochs, the lowest loss in {where} epoch, losses falling before it, not below it after, any data, parameter and "
                       f"optimiser state; unknown loss and optimiser; progress output {out}")

    def setup(self, E):
        m, d = Loop.setup(self, E)
        best = E.choice("best", list(range(self.ne)) if self.ne < 8 else [0, self.ne // 2, self.ne - 1])
        seen = []

        class Watched(type(m)):
            def train_epoch(self, *a, **k):
                out = super().train_epoch(*a, **k)
                v = s0(E.el(out[0]))
                if seen:
                    E.assume(fl.lt(v, seen[-1]) if len(seen) <= best else fl.le(seen[best], v))
                seen.append(v)
                return out

        object.__setattr__(m, "__class__", Watched)
        return m, d

    def verbose(self, E):
        return E.choice("verbose", [False, True]) if self.ne < 8 else True


def harnesses(tier):
    hs = [Epoch("nf", 4, 2), Epoch("nf", 5, 2), Epoch("nf", 3, 1, 2), Epoch("nf", 3, 3), Epoch("nf", 2, 3, 2), Epoch("fm", 4, 2), Epoch("fm", 5, 2, 2), Epoch("fm", 2, 4), Epoch("fm", 3, 3),
          Train("nf", 4, 2, 2), Train("nf", 3, 2, 3), Train("nf", 2, 3, 3), Train("nf", 2, 3, 2, ("nan", "pinf")), Train("fm", 4, 2, 2), Train("fm", 2, 3, 3), Train("fm", 2, 3, 2, ("nan", "pinf")),
          Epoch("nf", 7, 3), Epoch("fm", 6, 2), Train("nf", 5, 2, 3), Train("fm", 3, 2, 3), Train("nf", 2, 2, 4), Train("nf", 3, 4, 3, ("nan", "pinf")), Long("nf", 5), Long("nf", 11), Long("fm", 11)]
    if tier == "thorough":
        hs += [Epoch("nf", 9, 4), Epoch("fm", 8, 3), Train("nf", 6, 2, 3), Train("fm", 4, 2, 3), Train("nf", 2, 2, 6), Train("fm", 2, 2, 5), Long("nf", 7), Long("fm", 7), Long("nf", 21)]
    return hs

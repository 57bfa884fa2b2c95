"""C22 Flow training uses only recorded, recent, finite samples"""
from flowMC.resource.buffers import Buffer
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State
from flowMC.strategy.train_model import TrainModel
from harness.c09 import carried_fresh, prefix
from harness.train import *


class Recorder(ToyFlow):
    """a flow whose training notes what it is given; results are unknown functions of the data and the call"""

    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        CALLS.append(dict(rng=rng, data=data, optim=optim, state=state, num_epochs=num_epochs, batch_size=batch_size, verbose=verbose, w=self.w))
        n = len(CALLS)
        flat = jnp.ravel(data)
        w = opaque_call(f"W{n}", [self.w, flat], (1,))
        s = opaque_call(f"O{n}", [jnp.ravel(state), flat])
        losses = opaque_call(f"Ls{n}", [self.w, flat], (num_epochs,))
        return jax.random.split(rng)[0], eqx.tree_at(lambda m: m.w, self, w), s, losses


CALLS = []


def patterns(c, m):
    """which slots of (chains, steps) are usable: at least one"""
    out = []
    for bits in itertools.product([0, 1], repeat=c * m):
        if any(bits):
            out.append(bits)
    return out


class Select(Harness):
    functions = ("TrainModel.__call__", "TrainModel.__init__", "Buffer.update_buffer")
    max_paths = 300
    budget = 250.0

    def __init__(self, c, m, nd, window, nmax, pats=None, part=None, ne=2, calls=1, lossbuf=True):
        self.c, self.m, self.nd, self.win, self.nmax, self.ne, self.calls, self.lossbuf = c, m, nd, window, nmax, ne, calls, lossbuf
        self.pats = patterns(c, m) if pats is None else pats
        if part:
            self.pats = self.pats[part[0]::part[1]]
        self.name = f"select_c{c}_m{m}_d{nd}_w{window}_n{nmax}" + (f"_{calls}calls" if calls > 1 else "") + ("" if lossbuf else "_noloss") + (f"_p{part[0]}" if part else "") + ("_fill" if pats is not None else "")
        self.bounds = (f"{c} chains, {m} slots of {nd} coordinates, any finite values, every one of {len(self.pats)} patterns of unusable slots (unfilled, NaN or infinite coordinate), window {window}, "
                       f"{nmax} examples, {calls} calls, any draws, any earlier losses")

    def fill(self, E, b, pats, tag):
        v = np.asarray(E.el(E.real("x" + tag, (self.c, self.m, self.nd))), object).copy()
        for i, (a, t) in enumerate(itertools.product(range(self.c), range(self.m))):
            if not pats[i]:
                k = (a + 2 * t) % 4
                if k == 0 or self.nd == 1 and k != 2:
                    v[a, t, :] = fl.NINF
                elif k == 1:
                    v[a, t, 0] = fl.NAN
                elif k == 2:
                    v[a, t, -1] = fl.NAN if self.nd == 1 else fl.PINF
                else:
                    v[a, t, -1] = fl.NINF
        b.data = E.wrap(v)
        return v

    def run(self, E):
        CALLS.clear()
        pat = E.choice("pattern", self.pats)
        c, m, nd = self.c, self.m, self.nd
        model = Recorder(E.real("w", (1,)), jnp.zeros(nd), jnp.eye(nd))
        opt = Optimizer(model)
        opt.optim_state = E.real("s", ())
        rule = opt.optim
        B = Buffer("positions", (c, m, nd), 1)
        Lb = Buffer("losses", (self.ne * self.calls + 3,), 0)
        Lb.data = E.real("old", (self.ne * self.calls + 3,))
        Lb.cursor = 1
        other = State({"a": True}, "s")
        model2 = Recorder(E.real("w2", (1,)), jnp.zeros(nd), jnp.eye(nd))
        res = {"positions": B, "model": model, "opt": opt, "losses": Lb, "other": other, "model2": model2}
        st = TrainModel("model", "positions", "opt", loss_buffer_name="losses" if self.lossbuf else "", n_epochs=self.ne, batch_size=5,
                        n_max_examples=self.nmax, history_window=self.win, verbose=E.choice("verbose", [False, True]) if len(self.pats) == 1 else False)
        key = E.key()
        pos = E.real("pos", (c, nd))
        o = {"v": [], "rules": rule, "pos": pos, "ids": {k: id(v) for k, v in res.items()}, "old": Lb.data, "w": model.w, "s": opt.optim_state, "w2": model2.w, "keys": [], "ev": []}
        for i in range(self.calls):
            o["v"].append((self.fill(E, B, pat if i == 0 else pat[1:] + (1,), str(i)), pat if i == 0 else pat[1:] + (1,)))
            data0 = B.data
            key, res, p2 = st(key, res, pos, {})
            o["keys"].append(key)
            o["ev"].append(len(E.ctx.events))
            o.setdefault("bufs", []).append((data0, res["positions"].data))
        o["calls"] = list(CALLS)
        o["res"], o["p2"] = res, p2
        E.out("o", [k["data"] for k in CALLS] + [res["model"].w, res["opt"].optim_state, res["losses"].data, p2])
        E.out("cur", [jnp.asarray(float(res["losses"].cursor))])
        return o

    def expected(self, v, pat):
        rows = []
        for a in range(self.c):
            ok = [t for t in range(self.m) if pat[a * self.m + t]]
            rows += [v[a, t] for t in ok[-self.win:]]
        return rows

    def spec(self, E, o):
        E.check(len(o["calls"]) == self.calls, "one training run per call")
        if len(o["calls"]) != self.calls:
            return
        keys = []
        w, s = (np.asarray(E.el(x), object) for x in (o["w"], o["s"]))
        for i, call in enumerate(o["calls"]):
            v, pat = o["v"][i]
            rows = self.expected(v, pat)
            N = len(rows)
            D = np.asarray(E.el(call["data"]), object)
            E.check(D.shape == (self.nmax, self.nd), f"call {i}: exactly {self.nmax} examples")
            if D.shape != (self.nmax, self.nd):
                return
            draws = []
            for r in range(self.nmax):
                ds = E.draws(D[r])
                if N > 1:
                    E.check(len(ds) == 1 and ds[0].op == "ri", f"call {i} example {r}: one index draw")
                    if len(ds) != 1 or ds[0].op != "ri":
                        return
                    E.check(ds[0].val[1] == N, f"call {i} example {r}: drawn from all {N} usable recent samples")
                    draws += ds
                elif ds:
                    draws += ds
                cand = [tuple(E.subst(D[r], {ds[0]: tm.const(k)})) if ds else tuple(D[r]) for k in range(N)]
                left = [tuple(x) for x in rows]
                for k, cd in enumerate(cand):
                    if cd in left:
                        left.remove(cd)
                        E.check(True, f"call {i} example {r}: choice {k} is a recorded recent finite sample")
                    else:
                        tgt = or_(*[and_(*[same_el(a, b) for a, b in zip(cd, x)]) for x in left]) if left else FALSE
                        E.check(tgt, f"call {i} example {r}: choice {k} is a recorded recent finite sample")
                E.check(not left or N == 1, f"call {i} example {r}: every recent usable sample can be chosen")
                if ds:
                    idx = ds[0]
                    e = [tm.const(0)]
                    want = list(rows[0])
                    # the example is one of the candidates for every draw
                    E.check(or_(*[and_(*[same_el(a, b) for a, b in zip(D[r], x)]) for x in rows]), f"call {i} example {r}: always a recorded recent finite sample",
                            when=or_(*[fl.feq(idx, tm.const(k)) for k in range(N)]))
            keys += [(d.args[0], d.val[0]) for d in draws]
            E.keys_distinct(keys, f"call {i}: examples are drawn independently of each other and of earlier calls")
            E.check((call["num_epochs"], call["batch_size"]) == (self.ne, 5), f"call {i}: epochs and batch size as configured")
            E.check(call["optim"] is o["rules"], f"call {i}: the optimiser resource's rule")
            E.same(s0(E.el(call["w"])), s0(w), f"call {i}: the current model is trained")
            E.same(s0(E.el(call["state"])), s0(s), f"call {i}: from the current optimiser state")
            flat = D.reshape(-1)
            self.kt = E.keyterm(call["rng"])
            E.check(all(not prefix(self.kt, k) for k, _ in keys), f"call {i}: training has its own key")
            n = i + 1
            w = np.array([E.fapp(f"W{n}[0]", w, flat)], object)
            s = np.array(E.fapp(f"O{n}", s, flat), object)
            o.setdefault("losses", []).append([E.fapp(f"Ls{n}[{e}]", E.el(call["w"]), flat) for e in range(self.ne)])
            kk = E.keyterm(o["keys"][i])
            carried_fresh(E, kk, list(E.ctx.events)[:o["ev"][i]], f"call {i}")
            a, b = o["bufs"][i]
            for p, q in zip(np.asarray(E.el(a), object).reshape(-1), np.asarray(E.el(b), object).reshape(-1)):
                if p is not q:
                    E.same(p, q, "the data buffer is left alone")
        res = o["res"]
        E.check(set(res) == set(o["ids"]), "the resources keep their names")
        if set(res) != set(o["ids"]):
            return
        E.same(s0(E.el(res["model"].w)), s0(w), "the trained model replaces the model")
        E.same(s0(E.el(res["opt"].optim_state)), s0(s), "the trained optimiser state replaces the state")
        E.check(res["opt"].optim is o["rules"], "the optimiser keeps its rule")
        E.same(s0(E.el(res["model2"].w)), s0(E.el(o["w2"])), "other models are left alone")
        E.check(id(res["other"]) == o["ids"]["other"] and res["other"].data == {"a": True}, "other resources are left alone")
        want = list(np.asarray(E.el(o["old"]), object))
        if self.lossbuf:
            for i, l in enumerate(o["losses"]):
                for e in range(self.ne):
                    want[1 + i * self.ne + e] = l[e]
        E.eq(np.asarray(E.el(res["losses"].data), object), arr(want), "losses are appended after earlier ones")
        E.check(res["losses"].cursor == 1 + (self.ne * self.calls if self.lossbuf else 0), "the loss cursor moves by the number of epochs")
        E.eq(np.asarray(E.el(o["p2"]), object), np.asarray(E.el(o["pos"]), object), "chain positions are unchanged")


def fills(c, m):
    """every chain recorded up to its own level"""
    return [tuple(1 if t < lv[a] else 0 for a in range(c) for t in range(m)) for lv in itertools.product(range(m + 1), repeat=c) if any(lv)]


def harnesses(tier):
    hs = [Select(2, 2, 1, 1, 2), Select(2, 2, 2, 2, 2), Select(1, 4, 2, 2, 2), Select(2, 3, 2, 2, 1, fills(2, 3)), Select(3, 2, 1, 1, 2, fills(3, 2)),
          Select(2, 2, 1, 5, 3, fills(2, 2)), Select(2, 2, 2, 1, 2, [(1, 1, 1, 1)], calls=2), Select(1, 3, 1, 2, 4, [(1, 1, 1)], lossbuf=False),
          Select(2, 2, 1, 2, 1, [(1, 0, 1, 1)], ne=1, calls=3)]
    hs += [Select(2, 3, 2, w, 2, part=(k, 2)) for w in (1, 2) for k in range(2)] + [Select(2, 5, 1, 3, 2, fills(2, 5))]
    if tier == "thorough":
        hs += [Select(3, 3, 1, 2, 2, fills(3, 3)), Select(4, 2, 1, 1, 2, fills(4, 2)), Select(2, 7, 1, 4, 2, fills(2, 7)[:64])]
    return hs

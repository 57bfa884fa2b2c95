"""Parallel tempering: shared harness"""
from harness.common import *
from harness.stubs import IdKernel, TargetKernel


class PT(Harness):
    functions = ["ParallelTempering.__call__", "_ensemble_step", "_individal_step", "_individual_step_body", "_exchange", "_exchange_step_body",
                 "_adapt_temperature", "TemperedPDF.tempered_log_pdf"]
    moving = False
    trainings = (False,)
    n = 1
    ladder_from = None  # lowest temperature fixed to this value

    def __init__(self, nc, nt, n=1, trainings=(False,), moving=False, dim=1, budget=200.0, tag=""):
        self.nc, self.nt, self.n, self.trainings, self.moving, self.dim, self.budget = nc, nt, n, trainings, moving, dim, budget
        self.name = (f"{tag}{'moves' if moving else 'exchange'}_c{nc}_t{nt}" + (f"_n{n}" if moving else "") + f"_d{dim}_" +
                     "".join("T" if t else "P" for t in trainings))
        self.bounds = (f"{nc} chain(s), {nt} temperatures, dimension {dim}, {n} within-temperature step(s), "
                       f"{len(trainings)} call(s) (training flags {trainings}); any positive increasing ladder, start configurations, "
                       "likelihood, prior, draws and " + ("kernel" if moving else "kernel that does not move"))

    def kernel(self, E):
        return TargetKernel() if self.moving else IdKernel()

    def run(self, E):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.resource.logPDF import TemperedPDF
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        L, Pr = E.opaque("L"), E.opaque("P")
        d = {"d": E.real("d")}
        gaps = E.el(E.real("gap", (self.nt,), pos=True))
        ts = [gaps[0]]
        for g in gaps[1:]:
            ts.append(fl.add(ts[-1], g))
        T = Buffer("T", (self.nt,), 0)
        T.data = E.wrap(arr(ts))
        X = Buffer("X", (self.nc, self.nt - 1, self.dim), 2)
        X.data = E.real("hot", (self.nc, self.nt - 1, self.dim))
        st = State({"training": True}, name="s")
        res = {"t": TemperedPDF(L, Pr, n_dims=self.dim), "k": self.kernel(E), "X": X, "T": T, "s": st}
        pt = ParallelTempering(self.n, "t", "k", ["X", "T"], "s", verbose=self.nc > 1)
        y, key = E.real("x", (self.nc, self.dim)), E.key()
        hist = []
        for tr_ in self.trainings:
            st.data["training"] = tr_
            before = (y, res["X"].data, res["T"].data)
            key, res, y = pt(key, res, y, d)
            hist.append((tr_, before, (y, res["X"].data, res["T"].data)))
        E.out("hist", [h[1:] for h in hist])
        return dict(hist=hist, d=d["d"], state=st.data)

    # ---- specification pieces
    def find_moves(self, E, outs, pos):
        """the draw with which the kernel was called at position pos (unique K application at pos in the outputs)"""
        ts = [t for e in np.asarray(outs, object).reshape(-1) for t in fl.elem_terms(e)]
        zs = set()
        for t in tm.postorder(ts):
            if t.op == "app" and t.val == "K[0]" and list(t.args[: self.dim]) == list(pos):
                zs.add(t.args[self.dim:])
        return zs

    def step(self, E, tag, outs, pos, temp, d):
        """expected configuration after the within-temperature steps of one replica"""
        tgt = lambda p: fl.add(fl.div(E.fapp("L", p, d), temp), E.fapp("P", p, d))
        lp = tgt(pos)
        used = []
        for i in range(self.n):
            zs = self.find_moves(E, outs, pos)
            E.check(len(zs) == 1, f"{tag} step {i}: the kernel runs once from the configuration held before")
            if len(zs) != 1:
                return None, used
            z = list(zs)[0]
            used += [t for t in z]
            y = arr([E.fapp(f"K[{j}]", pos, arr(z)) for j in range(self.dim)])
            ly = tgt(y)
            a = fl.lt(ZERO, E.fapp("A", pos, arr(z), arr([lp]), arr([ly])))
            pos = arr([fl.select(a, p, q) for p, q in zip(y, pos)])
            lp = fl.select(a, ly, lp)
        return pos, used

    def spec_call(self, E, c, h, d, tag, swaps):
        """checks one call for chain c; returns the exchange decisions"""
        tr_, (x, X, T), (y, Xn, Tn) = h
        x, X, T, y, Xn = [E.el(v) for v in (x, X, T, y, Xn)]
        start = [x[c]] + [X[c, k] for k in range(self.nt - 1)]
        end = [y[c]] + [Xn[c, k] for k in range(self.nt - 1)]
        zs = []
        if self.moving:
            conf = []
            outs = np.concatenate([v.reshape(-1) for v in end])
            for k in range(self.nt):
                p, used = self.step(E, f"{tag} replica {k}", outs, start[k], T[k], d)
                zs += used
                if p is None:
                    return None, zs
                conf.append(p)
        else:
            conf = start
        ll = [E.fapp("L", p, d) for p in conf]
        seen = set(a for v in start for a in E.draws(v))
        seenT = set(a for a in E.draws(T))
        acc = []
        for i in range(self.nt - 1):
            us = [u for u in E.draws(end[i]) if u.op == "u" and u not in seen and u not in seenT]
            E.check(len(us) == 1, f"{tag} pair {i}: decided by exactly one uniform draw of its own")
            if len(us) != 1:
                return None, zs
            u = us[0]
            seen.add(u)
            zs.append(u)
            ratio = fl.mul(fl.sub(fl.div(ONE, T[i + 1]), fl.div(ONE, T[i])), fl.sub(ll[i], ll[i + 1]))
            a = log_u_lt(u, ratio)
            acc.append(a)
            conf[i], conf[i + 1] = (arr([fl.select(a, q, p) for p, q in zip(conf[i], conf[i + 1])]),
                                    arr([fl.select(a, p, q) for p, q in zip(conf[i], conf[i + 1])]))
            ll[i], ll[i + 1] = fl.select(a, ll[i + 1], ll[i]), fl.select(a, ll[i], ll[i + 1])
        if swaps:
            for k in range(self.nt):
                E.eq(end[k], conf[k], f"{tag} replica {k}: configuration after " + ("moving and " if self.moving else "") + "exchanging")
        return acc, zs

    def spec_calls(self, E, o, swaps=True):
        d = E.el(o["d"])
        out = []
        for i, h in enumerate(o["hist"]):
            accs, allz = [], []
            for c in range(self.nc):
                a, zs = self.spec_call(E, c, h, d, f"call {i} ({'training' if h[0] else 'production'}) chain {c}", swaps)
                accs.append(a)
                allz += zs
            E.keys_distinct([(z.args[0], z.val) for z in allz], f"call {i}: all random draws are distinct")
            out.append(accs)
        return out

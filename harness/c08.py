"""C08 Steps are recorded in order, evenly thinned, without loss or overwriting"""
from harness.common import *


class Record(Harness):
    functions = ["TakeSteps.__call__", "TakeSteps.set_current_position", "TakeSerialSteps.sample", "TakeGroupSteps.sample", "Buffer.update_buffer"]
    max_paths = 200

    def __init__(self, group, ns, nc, extra, calls=2, start=0, batch=0, budget=150.0):
        self.group, self.ns, self.nc, self.extra, self.calls, self.start, self.batch = group, ns, nc, extra, calls, start, batch
        self.budget = budget
        self.name = f"{'group' if group else 'serial'}_n{'-'.join(map(str, ns))}_c{nc}_x{calls}_e{extra}" + (f"_s{start}" if start else "") + (
            f"_cb{batch}" if batch else "")
        self.bounds = (f"{'group' if group else 'serial'} strategy, steps per call in {list(ns)}, every thinning from 1 to steps+1 (at most 4), "
                       f"{calls} calls, {nc} chains, {extra} spare buffer slots, first slot {start}; unknown kernel and target, "
                       "arbitrary prior buffer contents")

    def run(self, E):
        from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        from flowMC.resource.logPDF import LogPDF
        from harness.stubs import StubGroupKernel, StubKernel
        n, th = E.choice("n_thinning", [(n, t) for n in self.ns for t in range(1, min(n + 1, 4) + 1)])
        L = E.opaque("L")
        nc, dim = self.nc, 1
        m = n // th
        slots = self.start + self.calls * m + self.extra
        x = E.real("x", (nc, dim))
        d = {"d": E.real("d")}
        cls = TakeGroupSteps if self.group else TakeSerialSteps

        def go(thin, per, fill, start, init, key, calls):
            res = {"k": StubGroupKernel() if self.group else StubKernel(), "L": LogPDF(L, n_dims=dim),
                   "s": State({"P": "bp", "Q": "bq", "A": "ba"}, name="s"),
                   "other": Buffer("other", (nc, 2), 1)}
            for b, sh in (("bp", (nc, per, dim)), ("bq", (nc, per)), ("ba", (nc, per))):
                res[b] = Buffer(b, sh, 1)
                if fill:
                    res[b].data = E.real("old_" + b, sh)
            strat = cls("L", "k", "s", ["P", "Q", "A"], n, thinning=thin, chain_batch_size=self.batch, verbose=bool(self.extra))
            if start:
                strat.set_current_position(start)
            outs = []
            last = init
            for _ in range(calls):
                key, res, last = strat(key, res, last, d)
                outs.append((key, last))
            return res, outs

        old = {b: E.real("old_" + b, sh) for b, sh in (("bp", (nc, slots, dim)), ("bq", (nc, slots)), ("ba", (nc, slots)))}
        res, outs = go(th, slots, True, self.start, x, E.key(), self.calls)
        # the same calls unthinned, each into a fresh buffer
        full = []
        key, init = E.key(), x
        for c in range(self.calls):
            r, _ = go(1, n, False, 0, init, key, 1)
            full.append([r[b].data for b in ("bp", "bq", "ba")])
            key, init = outs[c]
        rec = [res[b].data for b in ("bp", "bq", "ba")]
        E.out("rec", rec), E.out("lasts", [l for _, l in outs])
        untouched = res["other"].data
        return dict(x=x, d=d["d"], n=n, th=th, m=m, old=[old[b] for b in ("bp", "bq", "ba")], rec=rec, full=full, lasts=[l for _, l in outs], other=untouched)

    def spec(self, E, o):
        el = E.el
        n, th, m = o["n"], o["th"], o["m"]
        tag = f"steps={n} thinning={th}"
        rec, old = [el(v) for v in o["rec"]], [el(v) for v in o["old"]]
        names = ("positions", "log densities", "acceptances")
        for b in range(3):
            E.check(rec[b].shape == old[b].shape, f"{tag}: {names[b]} buffer keeps its shape")
        for c in range(self.calls):
            full = [el(v) for v in o["full"][c]]
            base = self.start + c * m
            init = el(o["x"]) if c == 0 else el(o["lasts"][c - 1])
            tg = "g" if self.group else ""
            for ch in range(self.nc):
                prev, plp = init[ch], E.fapp("L", init[ch], el(o["d"]))
                for i in range(n):
                    cur = full[0][ch, i]
                    new = [z for z in E.draws(cur) if z.op == "nrm" and z not in set(E.draws(prev))]
                    E.check(len(new) == 1, f"{tag} call {c} chain {ch} step {i + 1}: one new step of this chain")
                    if len(new) != 1:
                        break
                    a = fl.lt(ZERO, E.fapp("A" + tg, prev, new))
                    y = E.fapp("K" + tg + "[0]", prev, new)
                    E.eq(cur, arr([fl.select(a, y, prev[0])]), f"{tag} call {c} chain {ch} step {i + 1}: the step starts from the previous state")
                    plp = fl.select(a, E.fapp("L", arr([y]), el(o["d"])), plp)
                    E.same(full[1][ch, i], plp, f"{tag} call {c} chain {ch} step {i + 1}: log density of this state")
                    E.iff(b0(full[2][ch, i]), a, f"{tag} call {c} chain {ch} step {i + 1}: acceptance of this state")
                    prev = cur
            alts = []
            for s in range(1, th + 1):
                if m and s + (m - 1) * th > n:
                    continue
                g = []
                for b in range(3):
                    for ch in range(self.nc):
                        for j in range(m):
                            g += [same_el(p, q) for p, q in zip(np.ravel(rec[b][ch, base + j]), np.ravel(full[b][ch, s - 1 + j * th]))]
                alts.append((s, and_(*g)))
            E.check(or_(*[g for _, g in alts]), f"{tag} call {c}: records are exactly `thinning` steps apart, in order")
            last = el(o["lasts"][c])
            E.check(last.shape == (self.nc, 1), f"{tag} call {c}: one position per chain is returned")
            oks = []
            for s, g in alts:
                first = s + (m - 1) * th if m else 0
                for i in range(max(first, 1), n + 1):
                    oks.append(and_(g, *[same_el(p, q) for ch in range(self.nc) for p, q in
                                         zip(np.ravel(last[ch]), np.ravel(full[0][ch, i - 1]))]))
            E.check(or_(*oks), f"{tag} call {c}: the run continues from a state no older than the last record, same for all chains")
        used = set(range(self.start, self.start + self.calls * m))
        for b in range(3):
            for j in range(old[b].shape[1]):
                if j not in used:
                    E.eq(rec[b][:, j], old[b][:, j], f"{tag}: {names[b]} slot {j} unchanged")
        E.check(all(v is fl.NINF or fl.to_float(v) == -np.inf for v in el(o["other"]).reshape(-1)), f"{tag}: other buffers unchanged")


def harnesses(tier):
    hs = [Record(False, (1, 2, 3), 1, 1), Record(False, (4,), 2, 0), Record(True, (2, 3), 2, 1), Record(False, (5,), 1, 0),
          Record(False, (3,), 2, 1, start=2, calls=1), Record(True, (4,), 1, 0, start=1), Record(False, (4,), 3, 1, batch=2, calls=1),
          Record(False, (2,), 1, 0, calls=3), Record(False, (6,), 1, 0), Record(False, (7,), 1, 1), Record(True, (5, 6), 1, 0), Record(False, (3,), 3, 0, calls=3)]
    hs += [Record(False, (8,), 1, 0), Record(False, (9,), 2, 1), Record(True, (7, 8), 1, 1), Record(False, (4,), 5, 0, calls=2, batch=2), Record(True, (3,), 4, 2, start=3)]
    if tier == "thorough":
        hs += [Record(False, (12,), 1, 0), Record(False, (11,), 3, 1), Record(True, (9, 4), 2, 1), Record(False, (6,), 7, 0, calls=2, batch=3)]
    return hs

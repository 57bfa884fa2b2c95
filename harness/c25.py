"""C25 Bundles fill their buffers exactly and separate training from production"""
from harness.bundle import *


class Fill(BundleRun):
    def spec(self, E, o):
        el = E.el
        log = o["log"]
        d = el(o["d"]["d"])
        E.eq(el(log[0]["pos"]), el(o["x0"]), "the run starts from the given positions")
        for i in range(1, len(log)):
            E.eq(el(log[i]["pos"]), el(log[i - 1]["out"]), f"strategy {i} ({log[i]['name']}) starts where the previous one ended")
        steppers = [e for e in log if e["kind"] in ("local", "global")]
        n = self.ntl + self.npl
        E.check([e["kind"] for e in steppers] == ["local", "global"] * n, "local and global blocks alternate, one of each per loop")
        if [e["kind"] for e in steppers] != ["local", "global"] * n:
            return
        E.check(sum(e["kind"] == "train" for e in log) == self.ntl, "one training per training loop")
        if self.pt:
            E.check(sum(e["kind"] == "tempering" for e in log) == n, "one tempering step per loop")
        first_prod = steppers[2 * self.ntl] if self.npl else None
        ip = [i for i, e in enumerate(log) if e is first_prod][0] if self.npl else len(log)
        last_train = max([i for i, e in enumerate(log) if e["kind"] == "train"], default=-1)
        E.check(last_train < ip, "training happens only before production")
        cur = {"training": 0, "production": 0}
        bufs = lambda ph: [f"positions_{ph}", f"log_prob_{ph}", f"local_accs_{ph}", f"global_accs_{ph}"]
        size = {"training": self.ntl * (self.nl // self.lth + self.ng // self.gth), "production": self.npl * (self.nl // self.lth + self.ng // self.gth)}
        for ph in cur:
            for b in bufs(ph):
                v = el(log[-1]["after"][b])
                E.check(v.shape[:2] == (self.nc, size[ph]), f"{b} holds exactly the records of the {ph} loops")
                if v.shape[:2] != (self.nc, size[ph]):
                    return
        owner = {ph: [None] * size[ph] for ph in cur}
        model_names = [k for k, v in o["res"].items() if isinstance(v, StubFlow)]
        k = 0
        trained = 0
        for i, e in enumerate(log):
            tag = f"strategy {i} ({e['name']})"
            prod = i >= ip or (self.npl > 0 and k >= 2 * self.ntl)
            allb = [b for b in e["after"] if not isinstance(e["after"][b], dict)]
            mine, rows = [], range(0)
            if e["kind"] == "train":
                trained += 1
            if e["kind"] in ("local", "global"):
                ph = "training" if k < 2 * self.ntl else "production"
                k += 1
                m = self.nl // self.lth if e["kind"] == "local" else self.ng // self.gth
                rows = range(cur[ph], cur[ph] + m)
                cur[ph] += m
                mine = [f"positions_{ph}", f"log_prob_{ph}", f"{e['kind']}_accs_{ph}"]
                P_, LP = el(e["after"][mine[0]]), el(e["after"][mine[1]])
                AC = el(e["after"][mine[2]])
                x = el(e["in"])
                for c in range(self.nc):
                    for j in rows:
                        owner[ph][j] = e["kind"]
                        pos = P_[c, j]
                        new = [z for z in E.draws(pos) if z.op == "nrm"]
                        E.check(bool(new), f"{tag}: slot {j} of chain {c} holds a state of this block")
                        E.check(and_(fl.fin(LP[c, j]), fl.fin(AC[c, j])), f"{tag}: slot {j} of chain {c} has its log density and acceptance")
                        sup = E.support(pos)
                        E.check(all(t in sup for v in x[c] for t in fl.elem_terms(v) if t.op == "var") or j > rows[0],
                                f"{tag}: chain {c} continues from its own position")
                        others = [t for cc in range(self.nc) if cc != c for v in x[cc] for t in fl.elem_terms(v) if t.op == "var"]
                        E.check(not any(t in sup for t in others), f"{tag}: slot {j} of chain {c} is that chain's state")
                    if m and (self.lth if e["kind"] == "local" else self.gth) == 1:
                        E.eq(el(e["out"])[c], P_[c, rows[-1]], f"{tag}: chain {c} ends at its last record")
                if e["kind"] == "global":
                    th = el(o["theta"][trained])
                    apps = {t for t in tm.postorder([y for v in P_[:, list(rows)].reshape(-1) for y in fl.elem_terms(v)]) if t.op == "app" and t.val.startswith("Kg[")}
                    E.check(bool(apps) and all(t.args[-1] is th.reshape(-1)[0] for t in apps) if m else True,
                            f"{tag}: proposes from the most recently trained model")
            for b in allb:
                if b in model_names:
                    if e["kind"] != "train":
                        E.eq(el(e["after"][b]), el(e["before"][b]), f"{tag}: {b} changes only by training")
                    continue
                if b not in bufs("training") + bufs("production"):
                    continue
                old, new = el(e["before"][b]), el(e["after"][b])
                keep = [j for j in range(old.shape[1]) if b not in mine or j not in rows]
                if keep:
                    E.eq(new[:, keep], old[:, keep], f"{tag}: leaves all other slots of {b} alone")
            if e["kind"] == "tempering" and prod:
                tb = e["strat"].tempered_buffer_names[1]
                E.eq(el(e["after"][tb]), el(e["before"][tb]), f"{tag}: temperatures are frozen in production")
            elif self.pt and e["kind"] != "tempering":
                tb = [q["strat"].tempered_buffer_names[1] for q in log if q["kind"] == "tempering"][0]
                E.eq(el(e["after"][tb]), el(e["before"][tb]), f"{tag}: does not touch the temperatures")
        last = log[-1]["after"]
        for ph in cur:
            E.check(cur[ph] == size[ph] and all(owner[ph]), f"every slot of the {ph} buffers is filled exactly once")
            for kind in ("local", "global"):
                acc = el(last[f"{kind}_accs_{ph}"])
                for j in range(size[ph]):
                    if owner[ph][j] != kind:
                        E.check(all(v is fl.NINF or fl.to_float(v) == -np.inf for v in acc[:, j]), f"{kind} acceptances of {ph}: slot {j} of the other kind of block stays empty")

    def run(self, E):
        o = BundleRun.run(self, E)
        o["theta"] = [E.real(f"theta{k}") for k in range(self.ntl + 1)]
        return o


def harnesses(tier):
    hs = [Fill(False, nc=2, nl=2, ng=1, ntl=2, npl=2), Fill(False, nl=1, ng=2, ntl=0, npl=2), Fill(False, nl=3, ng=2, lth=2, gth=2, ntl=2, npl=1),
          Fill(False, nl=2, ng=3, lth=1, gth=2, ntl=1, npl=2), Fill(False, nc=3, nl=1, ng=1, ntl=1, npl=0, batch=2), Fill(False, nl=5, ng=4, lth=3, gth=3, ntl=1, npl=1),
          Fill(True, nc=2, ntl=2, npl=1), Fill(True, nl=2, ng=2, lth=2, ntl=1, npl=2), Fill(True, nt=3, ntl=1, npl=1, nl=2, ng=1),
          Fill(False, nl=2, ng=2, ntl=3, npl=3),
          Fill(False, nc=3, nl=4, ng=4, lth=2, gth=3, ntl=3, npl=3), Fill(False, dim=2, nl=2, ng=2), Fill(False, nl=6, ng=7, lth=4, gth=3, ntl=2, npl=2),
          Fill(True, nc=3, batch=2, ntl=1, npl=2)]
    if tier == "thorough":
        hs += [Fill(True, nc=2, nt=4, nl=3, ng=2, lth=2, ntl=2, npl=2), Fill(False, nc=5, batch=2, nl=2, ng=2, ntl=2, npl=2), Fill(False, nl=9, ng=8, lth=4, gth=5, ntl=3, npl=2),
               Fill(True, nc=2, nt=2, ntl=3, npl=3)]
    return hs

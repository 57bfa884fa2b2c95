"""C13 All parts of the tempering bundle leave one and the same target invariant"""
from harness.bundle import *
from harness.pt import PT


class Target(BundleRun):
    fresh_hot = True

    def run(self, E):
        o = BundleRun.run(self, E)
        # the target resources the strategies name, at an arbitrary point
        y = E.real("y", (self.dim,))
        vals = []
        for e in o["log"]:
            s = e["strat"]
            if e["kind"] in ("local", "global"):
                vals.append((e["kind"], o["res"][s.logpdf_name](y, o["d"])))
            elif e["kind"] == "tempering":
                vals.append(("cold replica", o["res"][s.tempered_logpdf_name].tempered_log_pdf(e["before"][s.tempered_buffer_names[1]][0], y, o["d"])))
        o["at"], o["y"] = vals, y
        E.out("at", [v for _, v in vals])
        return o

    def target(self, E, p, d):
        t = E.fapp("L", p, d)
        return fl.add(t, E.fapp("P", p, d)) if self.prior else t

    def spec(self, E, o):
        el = E.el
        d = el(o["d"]["d"])
        kinds = [e["kind"] for e in o["log"]]
        for k in ("local", "global", "tempering"):
            E.check(kinds.count(k) == self.ntl + self.npl, f"{k} strategy runs in every loop")
        for what, v in o["at"]:
            E.same(s0(el(v)), self.target(E, el(o["y"]), d), f"target used by the {what} is likelihood plus prior")
        first = True
        for i, e in enumerate(o["log"]):
            tag = f"strategy {i} ({e['name']})"
            if e["kind"] == "tempering":
                pb, tb = e["strat"].tempered_buffer_names
                T, Tn = el(e["before"][tb]), el(e["after"][tb])
                E.same(T[0], ONE, f"{tag}: the coldest replica is at temperature one")
                if first:
                    X, x0 = el(e["before"][pb]), el(o["x0"])
                    for c in range(self.nc):
                        for k in range(self.nt - 1):
                            E.eq(X[c, k], x0[c], f"replica {k + 1} of chain {c} starts from the chain's initial position")
                    for k in range(self.nt - 1):
                        E.check(fl.lt(T[k], T[k + 1]), "the ladder increases")
                first = False
                pt = PT(self.nc, self.nt, self.tsteps, moving=True, dim=self.dim)
                if not self.prior:
                    continue
                h = (True, (e["in"], e["fresh"], e["ladder"]), (e["out"], e["after"][pb], e["after"][tb]))
                for c in range(self.nc):
                    pt.spec_call(E, c, h, d, f"{tag} chain {c}", True)
            if e["kind"] in ("local", "global"):
                # rows written by this block: their log density is the target's
                b, a = e["before"], e["after"]
                st = [v for v in a.values() if isinstance(v, dict)][0]
                lpn = st[e["strat"].buffer_names[1]]
                pn = st[e["strat"].buffer_names[0]]
                P_, LP = el(a[pn]), el(a[lpn])
                for c in range(self.nc):
                    for j in range(P_.shape[1]):
                        if all(p is q for p, q in zip(P_[c, j], el(b[pn])[c, j])):
                            continue
                        pos = P_[c, j]
                        E.same(LP[c, j], self.target(E, pos, d), f"{tag} chain {c} record {j}: log density is the target's")


def harnesses(tier):
    hs = [Target(True), Target(True, nc=2, nt=3), Target(True, prior=False), Target(True, dim=2, tmax=20.0), Target(True, ntl=2, npl=2, nt=2), Target(True, nt=4, ntl=0, tmax=9.0),
          Target(True, tsteps=2), Target(True, nl=2, ng=2)]
    if tier == "thorough":
        hs += [Target(True, nc=3, nt=3), Target(True, dim=3, nt=5, tmax=30.0), Target(True, tsteps=4), Target(True, nl=4, ng=3), Target(True, ntl=3, npl=3, nt=2)]
    return hs

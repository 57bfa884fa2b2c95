"""C05 Global flow step is exact independence Metropolis for any batching"""
from harness.common import *


def user_logpdf(L):
    return lambda x, data: L(x, {"d": data["d"]})


class Global(Harness):
    functions = ["flowMC.resource.kernel.NF_proposal.NFProposal.kernel", "NFProposal.sample_flow"]
    prune = False
    max_paths = 64

    def __init__(self, dim, ns, budget=150.0, sp=False):
        self.dim, self.ns, self.budget, self.sp = dim, ns, budget, sp
        self.name = f"global_d{dim}_n{'-'.join(map(str, ns))}" + ("_special" if sp else "")
        self.bounds = (f"dimension {dim}, number of proposals n in {list(ns)}, every internal batch size from 1 to n+1; all start "
                       "points, draws, targets, flow densities" + ("; the target may be NaN or minus infinity anywhere, the start included" if sp else ""))

    def run(self, E):
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from harness.stubs import StubFlow
        n, b = E.choice("n_batch", [(n, b) for n in self.ns for b in range(1, n + 2)])
        L = E.opaque("L")
        if self.sp:
            E.ctx.special["L"] = ("nan", "ninf")
        lp_f = user_logpdf(L)
        x = E.real("x", (self.dim,))
        loc, th = E.real("loc", (self.dim,)), E.real("theta")
        d = {"d": E.real("d")}
        flow = StubFlow(self.dim, loc, th)
        lp = L(x, d)
        y, ly, acc = NFProposal(flow, n_NFproposal_batch_size=b).kernel(E.key(), x, lp, lp_f, {**d, "n_steps": n})
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=x, lp=lp, d=d["d"], th=th, loc=loc, y=y, ly=ly, acc=acc, n=n, b=b)

    def spec(self, E, o):
        el = E.el
        n, b = o["n"], o["b"]
        x, lp, d, th, loc = el(o["x"]), s0(el(o["lp"])), el(o["d"]), el(o["th"]), el(o["loc"])
        y, ly, acc = el(o["y"]), el(o["ly"]), el(o["acc"])
        tag = f"n={n} batch={b}"
        E.check(y.shape == (n, self.dim) and ly.size == n and acc.size == n, f"{tag}: one record per step")
        if not (y.shape == (n, self.dim) and ly.size == n and acc.size == n):
            return
        accs = [b0(a) for a in acc.reshape(-1)]
        ly = ly.reshape(-1)
        q = E.fapp("Q", x, th)
        pos, cur = x, lp
        prevF = {}
        allz, allu = [], []
        for k in range(n):
            a = accs[k]
            prop = proposal_of(E, y[k], a)
            zs = gaussian_noise(E, prop, loc, ONE, f"{tag} step {k}: flow sample")
            allz += zs
            Lp, Qp = E.fapp("L", prop, d), E.fapp("Q", prop, th)
            ratio = fl.sub(fl.sub(Lp, cur), fl.sub(Qp, q))
            ak = E.subst(arr([a]), prevF)
            us = [u for u in E.draws(ak) if u.op == "u" and not (self.sp and u in allu)]
            E.check(len(us) == 1, f"{tag} step {k}: the decision uses exactly one uniform draw of its own")
            if len(us) == 1:
                allu += us
                E.iff(a, log_u_lt(us[0], ratio), f"{tag} step {k}: accept exactly on the independence Metropolis ratio")
            pos = arr([fl.select(a, p, c) for p, c in zip(prop, pos)])
            cur = fl.select(a, Lp, cur)
            q = fl.select(a, Qp, q)
            E.eq(y[k], pos, f"{tag} step {k}: recorded position")
            E.same(ly[k], cur, f"{tag} step {k}: recorded log density")
            prevF.update(force(a, False))
        independent_draws(E, allz, allu, f"{tag}: all flow samples and uniforms come from distinct draws")


def harnesses(tier):
    hs = [Global(1, (1, 2, 3)), Global(2, (2, 3)), Global(1, (4,)), Global(1, (5,)), Global(1, (6,)), Global(1, (7,)), Global(3, (3,)), Global(2, (4,)), Global(2, (5,)), Global(1, (1, 2, 3), sp=True), Global(1, (4,), sp=True)]
    if tier == "thorough":
        hs += [Global(1, (8,)), Global(1, (9,)), Global(4, (4,)), Global(2, (6,)), Global(3, (5,)), Global(2, (5,), sp=True)]
    return hs

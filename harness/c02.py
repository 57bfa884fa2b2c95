"""C02 MALA step is exact Metropolis-adjusted Langevin"""
from harness.common import *


class MALAStep(Harness):
    functions = ["flowMC.resource.kernel.MALA.MALA.kernel", "jax.scipy.stats.multivariate_normal.logpdf"]

    def __init__(self, dim):
        self.dim = dim
        self.name = f"mala_d{dim}"
        self.bounds = (f"dimension {dim}; all real positions, positive step sizes, draws, differentiable targets "
                       "(value and gradient unknown functions)")

    def run(self, E):
        from flowMC.resource.kernel.MALA import MALA
        L = E.opaque("L")
        tau = E.real("tau", pos=True)
        x = E.real("x", (self.dim,))
        d = {"d": E.real("d")}
        lp = L(x, d)
        y, ly, acc = MALA(tau).kernel(E.key(), x, lp, L, d)
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=x, lp=lp, d=d["d"], tau=tau, y=y, ly=ly, acc=acc)

    def spec(self, E, o):
        el = E.el
        x, lp, d, tau = el(o["x"]), el(o["lp"]), el(o["d"]), el(o["tau"])[()]
        t2 = fl.mul(tau, tau)
        half = fl.mul(t2, tm.const(Fraction(1, 2)))
        g = lambda p: arr([E.fapp(f"L.d0[{i}]", p, d) for i in range(self.dim)])
        drift = lambda p: vadd(p, vscale(g(p), half))

        def corr(y):
            fwd = sumsq(vsub(y, drift(x)))
            rev = sumsq(vsub(x, drift(y)))
            return fl.div(fl.sub(fwd, rev), fl.mul(tm.const(2), t2))

        metropolis_gaussian(E, x, lp, d, el(o["y"]), el(o["ly"]), el(o["acc"]), drift=lambda: drift(x), var=t2,
                            correction=corr)


def harnesses(tier):
    return [MALAStep(d) for d in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12)] + ([MALAStep(16), MALAStep(20)] if tier == "thorough" else [])

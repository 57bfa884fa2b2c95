"""C01 Gaussian random walk step is an exact Metropolis step"""
from harness.common import *


class GRW(Harness):
    functions = ["flowMC.resource.kernel.Gaussian_random_walk.GaussianRandomWalk.kernel"]

    def __init__(self, dim):
        self.dim = dim
        self.name = f"grw_d{dim}"
        self.bounds = f"dimension {dim}; all real positions, positive step sizes, draws and targets; current log density = target at the current position; exact real arithmetic"

    def run(self, E):
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
        L = E.opaque("L")
        step = E.real("step", pos=True)
        x = E.real("x", (self.dim,))
        d = {"d": E.real("d")}
        lp = L(x, d)
        k = GaussianRandomWalk(step)
        y, ly, acc = k.kernel(E.key(), x, lp, L, d)
        E.out("y", y), E.out("ly", ly), E.out("acc", acc)
        return dict(x=x, lp=lp, d=d["d"], step=step, y=y, ly=ly, acc=acc)

    def spec(self, E, o):
        el = E.el
        x, lp, d, step = el(o["x"]), el(o["lp"]), el(o["d"]), el(o["step"])
        y, ly, acc = el(o["y"]), el(o["ly"]), el(o["acc"])
        metropolis_gaussian(E, x, lp, d, y, ly, acc,
                            drift=lambda: x, var=fl.mul(step[()], step[()]))


def harnesses(tier):
    return [GRW(d) for d in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32)] + ([GRW(d) for d in (40, 64)] if tier == "thorough" else [])

"""C12 Temperature ladder stays a ladder and is frozen outside training"""
from harness.pt import *


class Ladder(PT):
    def spec(self, E, o):
        accs = self.spec_calls(E, o, swaps=False)
        for i, (h, acc) in enumerate(zip(o["hist"], accs)):
            tr_, (_, _, T), (_, _, Tn) = h
            T, Tn = E.el(T), E.el(Tn)
            tag = f"call {i} ({'training' if tr_ else 'production'})"
            E.check(Tn.shape == T.shape, f"{tag}: the number of temperatures stays")
            if not tr_:
                E.eq(Tn, T, f"{tag}: temperatures unchanged outside training")
                continue
            E.same(Tn[0], T[0], f"{tag}: lowest temperature unchanged")
            for k in range(self.nt - 1):
                E.check(fl.lt(Tn[k], Tn[k + 1]), f"{tag}: temperatures {k} and {k + 1} strictly increasing")
                E.check(fl.le(Tn[k + 1], T[-1]), f"{tag}: temperature {k + 1} not above the top")
                E.check(fl.fin(Tn[k + 1]), f"{tag}: temperature {k + 1} finite")
            if any(a is None for a in acc):
                continue
            rate = [ZERO] * (self.nt - 1)
            for a in acc:
                for k in range(self.nt - 1):
                    rate[k] = fl.add(rate[k], tm.ite(a[k], ONE, ZERO))
            for k in range(1, self.nt - 1):
                wid = fl.lt(fl.sub(T[k], T[k - 1]), fl.sub(Tn[k], Tn[k - 1]))
                E.iff(wid, fl.lt(rate[k], rate[k - 1]), f"{tag}: gap below temperature {k} widens exactly when the pair below swaps more than the pair above")


def harnesses(tier):
    hs = [Ladder(1, 2, trainings=(True,)), Ladder(1, 3, trainings=(True, False)), Ladder(2, 3, trainings=(True,)), Ladder(1, 4, trainings=(True,)),
          Ladder(1, 3, trainings=(False, False)), Ladder(1, 3, trainings=(True, True)),
          Ladder(2, 4, trainings=(True,)), Ladder(1, 5, trainings=(True,)), Ladder(3, 3, trainings=(True,)), Ladder(1, 4, trainings=(True, False))]
    hs += [Ladder(1, 6, trainings=(True,)), Ladder(2, 5, trainings=(True,)), Ladder(1, 3, trainings=(True, True, True)), Ladder(1, 4, trainings=(False, True)), Ladder(4, 3, trainings=(True,))]
    if tier == "thorough":
        hs += [Ladder(1, 7, trainings=(True,)), Ladder(2, 4, trainings=(True, False)), Ladder(5, 3, trainings=(True,))]
    return hs

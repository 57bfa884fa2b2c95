"""C10 Replica exchange swaps exactly with the tempering ratio"""
from harness.pt import *


class Ex(PT):
    def spec(self, E, o):
        self.spec_calls(E, o)


def harnesses(tier):
    hs = [Ex(1, 2), Ex(2, 3), Ex(1, 4), Ex(1, 2, dim=2), Ex(2, 2, trainings=(True,)), Ex(1, 3, trainings=(True, False)),
          Ex(3, 3), Ex(1, 5), Ex(1, 3, dim=3), Ex(1, 3, trainings=(False, True, False))]
    hs += [Ex(1, 7), Ex(4, 4), Ex(2, 5, dim=2), Ex(1, 4, trainings=(False, False, True)), Ex(5, 2)]
    if tier == "thorough":
        hs += [Ex(1, 8), Ex(6, 3), Ex(3, 5, dim=2), Ex(1, 4, trainings=(True, False, True))]
    return hs

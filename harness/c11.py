"""C11 Each replica samples its own tempered target and its state persists"""
from harness.pt import *


class Moves(PT):
    def spec(self, E, o):
        self.spec_calls(E, o)


def harnesses(tier):
    hs = [Moves(1, 2, 1, moving=True), Moves(2, 2, 1, moving=True), Moves(1, 3, 1, moving=True), Moves(1, 2, 2, moving=True),
          Moves(1, 2, 1, (False, False), moving=True), Moves(1, 2, 1, (True, False), moving=True), Moves(1, 2, 1, (True, True), moving=True),
          Moves(1, 2, 1, moving=True, dim=2),
          Moves(2, 3, 1, moving=True), Moves(1, 3, 2, moving=True), Moves(1, 2, 3, moving=True), Moves(1, 2, 1, (False,) * 3, moving=True)]
    hs += [Moves(1, 4, 2, moving=True), Moves(3, 3, 1, moving=True), Moves(1, 2, 4, moving=True), Moves(1, 3, 1, (True, False, True), moving=True), Moves(2, 2, 2, (False, False), moving=True)]
    if tier == "thorough":
        hs += [Moves(1, 5, 1, moving=True), Moves(4, 3, 1, moving=True), Moves(1, 2, 6, moving=True), Moves(2, 3, 1, (True, False), moving=True)]
    return hs

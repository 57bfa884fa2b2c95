"""C24 Sampler runs the strategies in the stated order, threading all state"""
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.resource_strategy_bundle.base import ResourceStrategyBundle
from flowMC.Sampler import Sampler
from flowMC.strategy.base import Strategy
from flowMC.strategy.lambda_function import Lambda
from flowMC.strategy.update_state import UpdateState
import re

from harness.common import *
from symx.env import opaque_call


class Rec(Strategy):
    """records what it is given; returns a fresh key, a fresh resource dictionary with changed contents, moved positions"""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def __call__(self, rng_key, resources, initial_position, data):
        names = dict(resources)
        vals = {k: v.data for k, v in names.items()}
        rng_key2, sub = jax.random.split(rng_key)
        z = jax.random.normal(sub, initial_position.shape)
        pos = opaque_call("S" + self.tag, [initial_position, z, data["d"]], initial_position.shape)
        out = dict(names)
        if self.tag == "c":  # in place, as the shipped strategies do
            out = resources
        nb = Buffer("x", vals["x"].shape)
        nb.data = opaque_call("B" + self.tag, [vals["x"], z], vals["x"].shape)
        out["x"] = nb
        out["n" + str(len(self.log))] = State({"i": len(self.log)}, "n")
        self.log.append({"tag": self.tag, "key": rng_key, "vals": vals, "pos": initial_position, "data": dict(data),
                         "okey": rng_key2, "ovals": {k: v.data for k, v in out.items()}, "opos": pos})
        return rng_key2, out, pos


class Bundle(ResourceStrategyBundle):
    def __init__(self, resources, strategies, order):
        self.resources, self.strategies, self.strategy_order = resources, strategies, order

    def __repr__(self):
        return "B"


class Order(Harness):
    """every order of up to n names out of three strategies, repeats included; run twice"""
    functions = ("Sampler.__init__", "Sampler.sample")
    max_paths = 1000
    UNKNOWN = ["aZ9", "A", "", "a "]

    def __init__(self, n, nc=2, nd=2, bundle=False, calls=1, unknown=False, flat=False, pre=0):
        self.pre = pre
        self.n, self.nc, self.nd, self.bundle, self.calls, self.unknown, self.flat = n, nc, nd, bundle, calls, unknown, flat
        self.name = f"order_{n}" + ("_bundle" if bundle else "") + ("_unknown" if unknown else "") + (f"_calls{calls}" if calls > 1 else "") + ("_flat" if flat else "") + (f"_after{pre}" if pre else "")
        self.bounds = (f"{pre} fixed names followed by " if pre else "") + f"every sequence of {n} names out of {'3 known and 4 unknown ones' if unknown else '3'}, {nc} chains, {nd} dimensions, any key, positions, data; strategies are unknown functions; {calls} call(s) of sample"

    def run(self, E):
        log = []
        names = ["a", "b", "c"] + (self.UNKNOWN if self.unknown else [])
        # a long order with much repetition: the loops of a bundle
        order = [("a", "b", "b", "c", "a", "c")[i % 6] for i in range(self.pre)] + [E.choice(f"s{i}", names) for i in range(self.n)]
        strategies = {t: Rec(t, log) for t in ("a", "b", "c", "d")}
        x = Buffer("x", (2,))
        x.data = E.real("x", 2)
        res = {"x": x, "keep": State({"phase": 1}, "keep")}
        first = {k: v.data for k, v in res.items()}
        key = E.key()
        kw = dict(resource_strategy_bundles=Bundle(res, strategies, list(order))) if self.bundle else dict(resources=res, strategies=strategies, strategy_order=list(order))
        s = Sampler(self.nd, self.nc, key, **kw)
        d = {"d": E.real("d")}
        runs = []
        for c in range(self.calls):
            p = E.real(f"p{c}", (self.nd,) if self.flat else (self.nc, self.nd))
            n0 = len(log)
            err = None
            try:
                s.sample(p, d)
            except Exception as e:
                if not any(n in self.UNKNOWN for n in order):
                    raise
                err = f"{type(e).__name__}: {e}"
            runs.append({"p": p, "log": log[n0:], "err": err, "vals": {k: v.data for k, v in s.resources.items()}})
        E.out("log", [[g["tag"], g["key"], g["vals"]["x"], g["pos"], g["okey"], g["opos"]] for g in log])
        E.out("err", [str(r["err"]) for r in runs])
        return {"runs": runs, "order": order, "key": key, "first": first, "d": d}

    def spec(self, E, o):
        el = E.el
        unk = [n for n in o["order"] if n in self.UNKNOWN]
        held = o["first"]
        for c, r in enumerate(o["runs"]):
            E.check((r["err"] is not None) == bool(unk), "an unknown strategy name raises, known ones do not")
            E.check([k for k in o["d"]] == ["d"], "the caller's data dictionary is left alone")
            if unk:
                i = o["order"].index(unk[0])
                E.check(r["err"] is not None and (not unk[0].strip() or bool(re.search(r"(?<!\w)" + re.escape(unk[0]) + r"(?!\w)", r["err"]))), "the error names the unknown strategy")
                E.check([g["tag"] for g in r["log"]] == o["order"][: len(r["log"])] and len(r["log"]) <= i, "nothing runs out of order before the error")
                return
            E.check([g["tag"] for g in r["log"]] == o["order"], f"call {c}: exactly the named strategies run, in order")
            if [g["tag"] for g in r["log"]] != o["order"]:
                return
            key, pos = o["key"], el(r["p"]).reshape(-1, self.nd)
            for i, g in enumerate(r["log"]):
                tag = f"call {c} strategy {i}"
                E.eq(el(g["key"]), el(key), f"{tag}: key handed on")
                E.eq(el(g["pos"]), el(pos) if i else pos, f"{tag}: positions handed on")
                E.eq(el(g["data"]["d"]), el(o["d"]["d"]), f"{tag}: the caller's data")
                E.check(list(g["data"]) == ["d"], f"{tag}: only the caller's data")
                self.same_res(E, g["vals"], held, f"{tag}: resources handed on")
                key, pos, held = g["okey"], g["opos"], g["ovals"]
            self.same_res(E, r["vals"], held, f"call {c}: the sampler holds the last resources")

    def same_res(self, E, a, b, label):
        E.check(set(a) == set(b), label + " (names)")
        for k in b:
            if k in a and isinstance(b[k], dict):
                E.check(a[k] == b[k], label + f" ({k})")
            elif k in a:
                E.eq(E.el(a[k]), E.el(b[k]), label + f" ({k})")


VALS = [True, 0, "done"]


class Update(Harness):
    functions = ("UpdateState.__init__", "UpdateState.__call__", "State.update", "Lambda.__call__")
    max_paths = 1000

    def __init__(self, via):
        self.via = via
        self.name = "update_" + via
        self.bounds = f"every list of up to two distinct keys out of two existing and one new, every value of {VALS}, applied twice; two states, one buffer"

    def run(self, E):
        keys = E.choice("keys", [[]] + [[a] for a in "pqn"] + [[a, b] for a in "pqn" for b in "pqn" if a != b])
        vals = [E.choice(f"v{i}", VALS) for i in range(len(keys))]
        init = {"p": False, "q": "start"}
        res = {"s1": State(dict(init), "s1"), "s2": State(dict(init), "s2"), "x": Buffer("x", (2, 2))}
        res["x"].data = x0 = E.real("x", (2, 2))
        key, pos, d = E.key(), E.real("pos", (2, 2)), {"d": E.real("d")}
        st = UpdateState("s1", list(keys), list(vals))
        outs = []
        calls = []
        if self.via == "strategy":
            for _ in range(2):
                k2, r2, p2 = st(key, res, pos, d)
                outs.append((k2, p2, {n: (dict(v.data) if isinstance(v, State) else v.data) for n, v in r2.items()}))
                if isinstance(res["s1"], State):
                    r2["s1"].data["q"] = "start"  # a second application from a partly reset state
        elif self.via == "lambda":
            def f(rng_key, resources, initial_position, data):
                calls.append((rng_key, initial_position, data["d"], set(resources), list(data)))
                resources["s1"].update(list(keys), list(vals))

            lam = Lambda(f)
            k2, r2, p2 = lam(key, res, pos, d)
            outs.append((k2, p2, {n: (dict(v.data) if isinstance(v, State) else v.data) for n, v in r2.items()}))
        else:
            res["s1"].update(list(keys), list(vals))
            outs.append((key, pos, {n: (dict(v.data) if isinstance(v, State) else v.data) for n, v in res.items()}))
        E.out("outs", [[k, p, r["x"], repr(r["s1"]), repr(r["s2"])] for k, p, r in outs])
        return {"keys": keys, "vals": vals, "init": init, "outs": outs, "key": key, "pos": pos, "x": x0, "calls": calls, "d": d}

    def spec(self, E, o):
        for i, (k, p, r) in enumerate(o["outs"]):
            want = {**o["init"], **dict(zip(o["keys"], o["vals"]))} if i == 0 else {**prev, "q": "start", **dict(zip(o["keys"], o["vals"]))}
            prev = want
            same = r["s1"] == want and all(type(r["s1"][a]) is type(want[a]) for a in want)
            E.check(same, f"application {i}: exactly the named entries have the given values")
            E.check(r["s2"] == o["init"] and set(r) == {"s1", "s2", "x"}, f"application {i}: no other resource changes")
            E.eq(E.el(r["x"]), E.el(o["x"]), f"application {i}: buffers unchanged")
            E.eq(E.el(p), E.el(o["pos"]), f"application {i}: positions pass through")
            E.eq(E.el(k), E.el(o["key"]), f"application {i}: the key passes through")
        if self.via == "lambda":
            E.check(len(o["calls"]) == 1, "the function is applied exactly once")
            for (k, p, d, names, dn) in o["calls"]:
                E.eq(E.el(k), E.el(o["key"]), "the function gets the key")
                E.eq(E.el(p), E.el(o["pos"]), "the function gets the positions")
                E.eq(E.el(d), E.el(o["d"]["d"]), "the function gets the data")
                E.check(names == {"s1", "s2", "x"} and dn == ["d"], "the function gets the resources and data")


def harnesses(tier):
    hs = [Order(0), Order(1), Order(2), Order(3), Order(4), Order(2, bundle=True), Order(2, calls=2), Order(2, flat=True),
          Order(1, unknown=True), Order(3, unknown=True), Order(2, unknown=True, bundle=True), Update("strategy"), Update("state"), Update("lambda"),
          Order(5), Order(3, nc=3, nd=1, calls=3), Order(1, pre=45), Order(2, pre=13, bundle=True), Order(1, pre=24, calls=2), Order(1, pre=30, unknown=True)]
    if tier == "thorough":
        hs += [Order(4, unknown=True), Order(6), Order(3, pre=30), Order(1, pre=150), Order(2, nc=4, nd=3, calls=5)]
    return hs

"""C26 Buffers and states hold exactly what was written and survive saving"""
import os
import shutil
import tempfile

from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from harness.common import *


class Write(Harness):
    """two consecutive writes at every position that fits"""
    functions = ("Buffer.__init__", "Buffer.update_buffer", "Buffer.__call__")

    def __init__(self, shape, axis, n1, n2):
        self.shape, self.axis, self.ns = tuple(shape), axis, (n1, n2)
        self.name = f"write_{'x'.join(map(str, shape))}_axis{axis}_{n1}_{n2}"
        self.bounds = f"buffer shape {shape}, axis {axis}, writes of {n1} then {n2} entries at every start that fits, all values (any real, or never written)"

    def run(self, E):
        b = Buffer("b", self.shape, self.axis)
        ups, starts = [], []
        for k, n in enumerate(self.ns):
            us = list(self.shape)
            us[self.axis] = n
            u = E.real(f"u{k}", us)
            s = E.choice(f"start{k}", range(self.shape[self.axis] - n + 1))
            b.update_buffer(u, start=s)
            ups.append(u), starts.append(s)
        E.out("data", b.data)
        E.out("call", b())
        E.out("meta", [b.name, b.cursor, b.cursor_dim])
        return {"b": b, "ups": ups, "starts": starts}

    def spec(self, E, o):
        want = np.empty(self.shape, object)
        for i in np.ndindex(*self.shape):
            want[i] = fl.NINF
        for u, s in zip(o["ups"], o["starts"]):
            ix = [slice(None)] * len(self.shape)
            ix[self.axis] = slice(s, s + E.el(u).shape[self.axis])
            want[tuple(ix)] = E.el(u)
        b = o["b"]
        E.eq(E.el(b.data), want, "exactly the addressed blocks hold what was written, everything else is as before")
        E.eq(E.el(b()), want, "calling the buffer gives its contents")
        E.check(b.name == "b" and b.cursor == 0 and b.cursor_dim == self.axis, "writing changes neither name, axis nor position marker")


class SaveBuffer(Harness):
    """real files in a scratch folder; symbolic entries pass through them as numbers of their own"""
    functions = ("Buffer.save_resource", "Buffer.load_resource", "Buffer.update_buffer")

    def __init__(self, shape, axis, n):
        self.shape, self.axis, self.n = tuple(shape), axis, n
        self.name = f"save_{'x'.join(map(str, shape))}_axis{axis}"
        self.bounds = f"buffer shape {shape}, axis {axis}, {n} written entries of any real value, the rest unwritten, every position marker, three names; saved, loaded, saved and loaded again; a write after loading"

    def run(self, E):
        E.tokens()
        name = E.choice("name", ["buf", "local accs-1", "a.b"])
        cur = E.choice("cursor", range(self.shape[self.axis] + 1))
        b = Buffer(name, self.shape, self.axis)
        us = list(self.shape)
        us[self.axis] = self.n
        b.update_buffer(E.real("u", us), start=self.shape[self.axis] - self.n)
        odd = E.choice("odd", [None, np.nan, np.inf])
        if odd is not None:  # a slot holding an undefined or infinite value
            b.update_buffer(jnp.full([1 if i == self.axis else m for i, m in enumerate(self.shape)], odd, b.data.dtype), start=self.shape[self.axis] - 1)
        b.cursor = cur
        d = tempfile.mkdtemp(prefix="c26_")
        try:
            b.save_resource(d + "/")
            l1 = Buffer("other", (1, 1)).load_resource(os.path.join(d, name + ".npz"))
            shutil.rmtree(d)
            os.mkdir(d)
            l1.save_resource(d + "/")
            l2 = Buffer("other", (1, 1)).load_resource(os.path.join(d, name + ".npz"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        d0, d1, d2 = b.data, E.thaw(l1.data), E.thaw(l2.data)
        v = E.real("v", [1 if i == self.axis else m for i, m in enumerate(self.shape)])
        l2.update_buffer(v, start=0)
        d3 = E.thaw(l2.data)
        for k, x in enumerate((d0, d1, d2, d3)):
            E.out(f"data{k}", x)
        meta = [[x.name, x.cursor, x.cursor_dim] for x in (b, l1, l2)]
        E.out("meta", [str(m) for m in meta])
        return {"meta": meta, "d": (d0, d1, d2, d3), "v": v, "name": name, "cur": cur}

    def spec(self, E, o):
        d = [E.el(x) for x in o["d"]]
        for k in (1, 2):
            E.eq(d[k], d[0], f"contents after saving and loading ({k} times)")
            n, c, a = o["meta"][k]
            E.check(isinstance(n, str) and n == o["name"], f"name after saving and loading ({k} times)")
            E.check(_num(c) and int(c) == o["cur"], f"position marker after saving and loading ({k} times)")
            E.check(_num(a) and int(a) == self.axis, f"axis after saving and loading ({k} times)")
        want = d[0].copy()
        ix = [slice(None)] * len(self.shape)
        ix[self.axis] = slice(0, 1)
        want[tuple(ix)] = E.el(o["v"])
        E.eq(d[3], want, "a loaded buffer can be written like the saved one")


def _num(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


VALUES = [True, False, 1, 0, -7, 2**40, "True", "1", "", "a b'\"c"]


class SaveState(Harness):
    """every assignment of the listed entry values to the keys, through the real file"""
    functions = ("State.__init__", "State.update", "State.save_resource", "State.load_resource")
    max_paths = 400

    def __init__(self, nkeys, name):
        self.nkeys, self.sname = nkeys, name
        self.name = f"state_{nkeys}_{name.replace(' ', '_') or 'empty'}"
        self.bounds = f"{nkeys} entries over the values {VALUES}; saved and loaded twice, then updated"

    def run(self, E):
        keys = ["phase", "a b", "1"][: self.nkeys]
        data = {k: E.choice("v" + k, VALUES) for k in keys}
        s = State(dict(data), name=self.sname)
        d = tempfile.mkdtemp(prefix="c26_")
        try:
            s.save_resource(d + "/")
            l1 = State({}, name="other").load_resource(os.path.join(d, self.sname + ".npz"))
            shutil.rmtree(d)
            os.mkdir(d)
            l1.save_resource(d + "/")
            l2 = State({"x": 1}, name="other").load_resource(os.path.join(d, self.sname + ".npz"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        got = [(x.name, dict(x.data)) for x in (l1, l2)]
        l2.update(["new"], ["v"])
        E.out("got", [repr(g) for g in got] + [repr(l2.data)])
        return {"data": data, "got": got, "l2": l2}

    def spec(self, E, o):
        same = lambda a, b: list(a) == list(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)
        for k, (n, dd) in enumerate(o["got"]):
            E.check(isinstance(n, str) and n == self.sname, f"state name after saving and loading ({k + 1} times)")
            E.check(same(dd, o["data"]), f"state entries after saving and loading ({k + 1} times)")
        E.check(same(o["l2"].data, {**o["data"], "new": "v"}), "a loaded state can be updated like the saved one")


def harnesses(tier):
    hs = [Write((4,), 0, 2, 1), Write((2, 4), 1, 2, 1), Write((3, 2), 0, 1, 2), Write((2, 2, 3), 2, 1, 2), Write((2, 4, 2), 1, 2, 2), Write((2, 3), 1, 3, 1),
          SaveBuffer((2, 3), 1, 2), SaveBuffer((3, 2), 0, 1), SaveBuffer((2, 3, 2), 1, 3), SaveBuffer((4,), 0, 2),
          SaveState(1, "State"), SaveState(2, "my state"),
          Write((3, 5, 2), 1, 3, 2), Write((6,), 0, 4, 3), Write((2, 2, 2, 3), 3, 2, 1), SaveBuffer((2, 2, 4), 2, 2), SaveBuffer((6, 2), 0, 4)]
    if tier == "thorough":
        hs += [Write((2, 8), 1, 3, 4), Write((10,), 0, 3, 4), SaveBuffer((3, 6, 2), 1, 4), SaveState(4, "s")]
    return hs

"""C02: assignments are a faithful variable -> value map."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from checks.graphs import DEFAULT, PDIM, VT, flat, unflat
from jsmt.harness import In, Problem, arr
from jaxfg.core import VariableAssignments


def read(a, vs, types, order):
    """Every way of reading: one by one, as a dictionary, stacked by type."""
    one = [a.get_value(v) for v in vs]
    for t, x in zip(types, one):  # structured values keep their structure
        assert isinstance(x, dict) == (t == "B") and (t != "B" or (x["b"].shape == (2, 1) and x["a"].shape == ()))
    d = a.as_dict()
    assert set(d.keys()) == set(vs) == set(a.get_variables())
    dic = [d[v] for v in vs]
    out = dict(one=[flat(x) for x in one], dic=[flat(x) for x in dic], stk={})
    lst = list(a.get_variables())
    for t in sorted(set(types)):
        s = a.get_stacked_value(VT[t])
        k = types.count(t)
        if t == "B":
            assert s["a"].shape == (k,) and s["b"].shape == (k, 2, 1)
            s = jnp.concatenate([s["a"].reshape((k, 1)), s["b"].reshape((k, 2))], axis=1)
        assert s.shape == (k, PDIM[t])
        # row i belongs to the i-th variable of that type in storage order
        rows = [vs.index(v) for v in lst if types[vs.index(v)] == t]
        for i, j in enumerate(rows):
            out["stk"][f"{j}"] = s[i]
    return out


class Map(Problem):
    functions = ("VariableAssignments.make_from_dict", "VariableAssignments.make_from_partial_dict",
                 "VariableAssignments.make_from_defaults", "VariableAssignments.get_value", "VariableAssignments.get_stacked_value",
                 "VariableAssignments.as_dict", "VariableBase.flatten", "VariableBase.unflatten")

    def __init__(self, case):
        self.types, self.order, self.how = case["types"], case["order"], case["how"]
        self.given = [i for i in range(len(self.types)) if i % 2 == 0] if self.how == "partial" else (
            list(range(len(self.types))) if self.how == "dict" else [])
        self.vs = [VT[t]() for t in self.types]
        self.bounds = f"types {self.types}, {self.how}"

    def inputs(self):
        return {f"x{i}": In((PDIM[t],)) for i, t in enumerate(self.types)}

    def build(self, xs):
        d = {self.vs[i]: unflat(self.types[i], xs[f"x{i}"]) for i in self.order if i in self.given}
        if self.how == "dict":
            return VariableAssignments.make_from_dict(d)
        if self.how == "partial":
            return VariableAssignments.make_from_partial_dict([self.vs[i] for i in self.order], d)
        return VariableAssignments.make_from_defaults([self.vs[i] for i in self.order])

    def real(self, **xs):
        return read(self.build(xs), self.vs, self.types, self.order)

    def expect(self, h, inp):
        return [inp[f"x{i}"] if i in self.given else arr([h.const(v) for v in DEFAULT[t]]) for i, t in enumerate(self.types)]

    def compare(self, h, pre, out, exp):
        for i, e in enumerate(exp):
            h.eq(f"{pre}get_value of variable {i}", out["one"][i], e)
            h.eq(f"{pre}as_dict of variable {i}", out["dic"][i], e)
            h.eq(f"{pre}stacked value of variable {i}", out["stk"][f"{i}"], e)

    def post(self, h, inp, out):
        self.compare(h, "", out, self.expect(h, inp))


class Set(Map):
    functions = Map.functions + ("VariableAssignments.set_value",)

    def __init__(self, case):
        super().__init__(dict(case, how="dict"))

    def inputs(self):
        d = super().inputs()
        d.update({f"y{i}": In((PDIM[t],)) for i, t in enumerate(self.types)})
        return d

    def real(self, **xs):
        a = self.build(xs)
        n = len(self.types)
        out = dict(orig0=read(a, self.vs, self.types, self.order))
        for i in range(n):
            b = a.set_value(self.vs[i], unflat(self.types[i], xs[f"y{i}"]))
            out[f"set{i}"] = read(b, self.vs, self.types, self.order)
            j = (i + 1) % n
            c = b.set_value(self.vs[j], unflat(self.types[j], xs[f"y{j}"]))
            out[f"two{i}"] = read(c, self.vs, self.types, self.order)
            out[f"keep{i}"] = read(b, self.vs, self.types, self.order)
        out["orig"] = read(a, self.vs, self.types, self.order)
        return out

    def post(self, h, inp, out):
        base = self.expect(h, inp)
        n = len(base)
        y = lambda i: inp[f"y{i}"]
        self.compare(h, "before: ", out["orig0"], base)
        self.compare(h, "original afterwards: ", out["orig"], base)
        for i in range(n):
            e1 = [y(k) if k == i else base[k] for k in range(n)]
            self.compare(h, f"after replacing {i}: ", out[f"set{i}"], e1)
            self.compare(h, f"kept after replacing {i}: ", out[f"keep{i}"], e1)
            j = (i + 1) % n
            self.compare(h, f"after replacing {i},{j}: ", out[f"two{i}"], [y(k) if k in (i, j) else base[k] for k in range(n)])


run, replay = make_runner(dict(map=Map, set=Set))

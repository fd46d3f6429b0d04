"""C04: retraction moves each variable by its own delta only."""
import numpy as np

from checks.common import make_runner
from checks.graphs import LDIM, PDIM, VT, flat, retract, unflat
from jsmt.harness import In, Problem
from jaxfg.core import StorageLayout, VariableAssignments


class Retract(Problem):
    functions = ("VariableAssignments.manifold_retract", "VariableBase.manifold_retract", "VariableBase.flatten",
                 "VariableBase.unflatten", "StorageLayout.make")

    def __init__(self, case):
        self.types, self.o1, self.o2 = case["types"], case["order"], case["order2"]
        self.vs = [VT[t]() for t in self.types]
        self.bounds = f"types {self.types}"

    def inputs(self):
        d = {f"x{i}": In((PDIM[t],)) for i, t in enumerate(self.types)}
        d["d"] = In((sum(LDIM[t] for t in self.types),))
        return d

    def real(self, d, **xs):
        a = VariableAssignments.make_from_dict({self.vs[i]: unflat(self.types[i], xs[f"x{i}"]) for i in self.o1})
        loc = StorageLayout.make([self.vs[i] for i in self.o2], local=True)
        b = a.manifold_retract(VariableAssignments(storage=d, storage_layout=loc))
        assert b.storage_layout == a.storage_layout
        assert list(b.get_variables()) == list(a.get_variables())
        return dict(v=[flat(b.get_value(v)) for v in self.vs], orig=[flat(a.get_value(v)) for v in self.vs])

    def post(self, h, inp, out):
        loc = StorageLayout.make([self.vs[i] for i in self.o2], local=True)
        for i, (v, t) in enumerate(zip(self.vs, self.types)):
            k = loc.index_from_variable[v]
            x = inp[f"x{i}"]
            h.eq(f"variable {i}", out["v"][i], retract(h, t, x, inp["d"][k:k + LDIM[t]]))
            h.eq(f"original of variable {i}", out["orig"][i], x)


run, replay = make_runner(dict(retract=Retract))

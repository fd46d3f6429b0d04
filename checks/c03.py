"""C03: changing the storage layout never changes what a variable maps to."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from checks.graphs import LDIM, PDIM, VT, flat, unflat
from jsmt.harness import In, Problem
from jaxfg.core import StorageLayout, VariableAssignments


class Relayout(Problem):
    functions = ("VariableAssignments.update_storage_layout", "StorageLayout.make")

    def __init__(self, case):
        self.types, self.o1, self.o2, self.local = case["types"], case["order"], case["order2"], case["local"]
        self.vs = [VT[t]() for t in self.types]
        self.dims = [(LDIM if self.local else PDIM)[t] for t in self.types]
        self.bounds = f"types {self.types}"

    def inputs(self):
        return dict(s=In((sum(self.dims),)))

    def real(self, s):
        l1 = StorageLayout.make([self.vs[i] for i in self.o1], local=self.local)
        l2 = StorageLayout.make([self.vs[i] for i in self.o2], local=self.local)
        a = VariableAssignments(storage=s, storage_layout=l1)
        b = a.update_storage_layout(l2)
        c = b.update_storage_layout(l1)
        d = a.update_storage_layout(l1)
        assert b.storage_layout == l2 and c.storage_layout == l1 and d.storage_layout == l1
        assert list(b.get_variables()) == list(l2.get_variables())

        def rd(x, lay):
            out = []
            for v, n in zip(self.vs, self.dims):
                i = lay.index_from_variable[v]
                out.append(x.storage[i:i + n])
            return out

        out = dict(a=rd(a, l1), b=rd(b, b.storage_layout), c=c.storage, d=d.storage, a0=a.storage)
        if not self.local:
            out["va"] = [flat(a.get_value(v)) for v in self.vs]
            out["vb"] = [flat(b.get_value(v)) for v in self.vs]
        return out

    def post(self, h, inp, out):
        for i in range(len(self.vs)):
            h.eq(f"variable {i}", out["b"][i], out["a"][i])
            if not self.local:
                h.eq(f"value of variable {i}", out["vb"][i], out["va"][i])
        h.eq("there and back", out["c"], inp["s"])
        h.eq("identity", out["d"], inp["s"])
        h.eq("original", out["a0"], inp["s"])


class Refuse(Problem):
    """Conversions to something that does not hold the same variables must raise."""

    functions = ("VariableAssignments.update_storage_layout",)

    def __init__(self, case):
        self.what = case["what"]
        self.bounds = case["what"]

    def inputs(self):
        return dict(s=In((5,)))

    def real(self, s):
        a, b, c = VT["V1"](), VT["V2"](), VT["V2"]()
        vs = [a, b, c]
        src = StorageLayout.make(vs, local=self.what in ("localglobal", "otherlocal"))
        dst = dict(
            other=lambda: StorageLayout.make([a, b, VT["V2"]()]),
            otherlocal=lambda: StorageLayout.make([VT["V1"](), b, c], local=True),
            subset=lambda: StorageLayout.make([a, b]),
            superset=lambda: StorageLayout.make([a, b, c, VT["V1"]()]),
            localglobal=lambda: StorageLayout.make([c, a, b], local=False),
            globallocal=lambda: StorageLayout.make([c, a, b], local=True),
        )[self.what]()
        x = VariableAssignments(storage=s, storage_layout=src)
        try:
            x.update_storage_layout(dst)
            refused = 0
        except Exception:
            refused = 1
        return dict(refused=jnp.asarray(refused))

    def post(self, h, inp, out):
        h.eq("conversion refused", out["refused"], h.const(1.0))


run, replay = make_runner(dict(relayout=Relayout, refuse=Refuse))

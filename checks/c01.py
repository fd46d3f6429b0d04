"""C01: storage layouts give every variable its own block."""
import numpy as np
from jax import numpy as jnp
from overrides import overrides

from checks.common import make_runner
from jsmt import scal as S
from jsmt.harness import In
from jsmt.pyexec import PyProblem, rs, un
from jaxfg.core import StorageLayout, VariableBase

MAXT = 3


def make_class(pd, ld):
    class Var(VariableBase):
        @classmethod
        @overrides(check_signature=False)
        def get_default_value(cls):
            return jnp.zeros(1)

    Var.get_parameter_dim = classmethod(lambda cls: pd)
    Var.get_local_parameter_dim = classmethod(lambda cls: ld)
    return Var


class Layout(PyProblem):
    functions = ("StorageLayout.make", "StorageLayout.get_variables", "StorageLayout.get_variable_types")
    max_paths = 20000

    def __init__(self, case):
        self.n, self.how = case["n"], case["how"]
        self.bounds = f"{self.n} variables"

    def inputs(self):
        return dict(pd=In((MAXT,), "int", lo=1, hi=9), ld=In((MAXT,), "int", lo=1, hi=9))

    def structure(self, choose):
        self.types = []
        for _ in range(self.n):  # restricted growth strings: every partition into types
            self.types.append(choose(min(MAXT, (max(self.types) + 1 if self.types else 0) + 1)))
        self.vars = None

    def host(self, inp, sym):
        g = lambda x: x if sym else int(x)
        cls = [make_class(g(inp["pd"][i]), g(inp["ld"][i])) for i in range(MAXT)]
        vs = [cls[t]() for t in self.types]
        out = dict(cls=cls, vs=vs)
        for local in (False, True):
            src = list(vs) if self.how == "list" else (v for v in vs)
            lay = StorageLayout.make(src, local=local)
            out[local] = lay
        return out

    def post(self, h, inp, out):
        cls, vs = out["cls"], out["vs"]
        val = (lambda x: un(x)) if h.symbolic else (lambda x: x)
        first = []
        for t in self.types:
            if t not in first:
                first.append(t)
        for local in (False, True):
            nm = "local" if local else "global"
            lay = out[local]
            dims = inp["ld"] if local else inp["pd"]
            if lay.local_flag != local:
                h.bad(f"{nm}: local flag")
            listed = list(lay.get_variables())
            if len(listed) != len(vs) or {id(v) for v in listed} != {id(v) for v in vs}:
                h.bad(f"{nm}: listed variables are not the given ones")
                return
            lt = [self.types[[id(v) for v in vs].index(id(v))] for v in listed]
            # contiguous types, in the given order within a type
            runs = [t for i, t in enumerate(lt) if i == 0 or lt[i - 1] != t]
            if len(runs) != len(set(runs)):
                h.bad(f"{nm}: variables of a type are not contiguous")
            for t in set(lt):
                if [id(v) for v, tt in zip(listed, lt) if tt == t] != [id(v) for v, tt in zip(vs, self.types) if tt == t]:
                    h.bad(f"{nm}: order within a type")
            pos = h.const(0.0)
            start = {}
            for i, (v, t) in enumerate(zip(listed, lt)):
                h.eq(f"{nm}: start of block {i}", val(lay.index_from_variable[v]), pos)
                start.setdefault(t, pos)
                pos = S.add(pos, dims[t])
            h.eq(f"{nm}: total dimension", val(lay.dim), pos)
            types = list(lay.get_variable_types())
            if types != [cls[t] for t in runs]:
                h.bad(f"{nm}: listed types")
                return
            for t in runs:
                h.eq(f"{nm}: start of type {t}", val(lay.index_from_variable_type[cls[t]]), start[t])
                h.eq(f"{nm}: count of type {t}", val(lay.count_from_variable_type[cls[t]]), h.const(float(lt.count(t))))
            if set(lay.index_from_variable_type) != {cls[t] for t in runs} or set(lay.count_from_variable_type) != {cls[t] for t in runs}:
                h.bad(f"{nm}: recorded types")
        a, b = list(out[False].get_variables()), list(out[True].get_variables())
        if [id(v) for v in a] != [id(v) for v in b]:
            h.bad("global and local layouts order the variables differently")


run, replay = make_runner(dict(layout=Layout))

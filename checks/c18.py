"""C18: variable types form consistent manifolds."""
from fractions import Fraction
from typing import Any, NamedTuple

import jax
import jaxlie
import numpy as np
from jax import numpy as jnp
from overrides import overrides

from checks import graphs, lie
from checks.common import make_runner
from jaxfg import core
from jsmt.harness import In, Problem


class Group(Problem):
    """One Lie group variable."""

    functions = ("LieVariableBase.get_default_value", "LieVariableBase.get_local_parameter_dim", "LieVariableBase.manifold_retract",
                 "LieVariableBase.manifold_retract_jacobian", "VariableBase.flatten", "VariableBase.unflatten",
                 "VariableBase.get_parameter_dim", "VariableBase.__init_subclass__")

    def __init__(self, case):
        self.g, self.what = case["group"], case["what"]
        self.forking = self.what in ("multiplication", "closed-form", "exponential", "stays")
        self.bounds = f"{self.g}: {self.what}"

    def inputs(self):
        d = lie.ins(self.g, "x") if self.what != "exponential" else {}
        if self.what in ("multiplication", "closed-form", "exponential", "stays"):
            d["d"] = In((lie.TAN[self.g],), sample=lambda r: r.uniform(-1, 1))
        return d

    def assume(self, h, inp):
        if self.forking:
            return [lie.angle2(self.g, inp["d"]) >= h.const(Fraction(1, 10 ** 9) if h.symbolic else 1e-9)]

    def hints(self, inp):
        return [1]

    def real(self, **kw):
        V, g = lie.VARS[self.g], lie.GROUPS[self.g]
        x = lie.element(self.g, "x", kw) if self.what != "exponential" else g.identity()
        if self.what == "dimensions":
            assert V.get_parameter_dim() == lie.ROT[self.g] + lie.TR[self.g], V.get_parameter_dim()
            assert V.get_local_parameter_dim() == lie.TAN[self.g], V.get_local_parameter_dim()
            assert V.get_group_type() is g
            dv = V.get_default_value()
            assert type(dv) is g
            return dict(default=dv.parameters(), retracted=V.manifold_retract(dv, jnp.zeros(lie.TAN[self.g])).parameters())
        if self.what == "flatten":
            f = V.flatten(x)
            u = V.unflatten(f)
            assert type(u) is g
            u2 = V.unflatten(x.parameters())
            return dict(flat=f, again=u.parameters(), back=V.flatten(u2))
        if self.what == "zero":
            y = V.manifold_retract(x, jnp.zeros(lie.TAN[self.g]))
            assert type(y) is g
            return dict(y=y.parameters())
        if self.what == "jacobian":
            J = V.manifold_retract_jacobian(x)
            assert isinstance(J, (tuple, list)) and len(J) == 1
            D = jax.jacfwd(lambda d: V.manifold_retract(x, d).parameters())(jnp.zeros(lie.TAN[self.g]))
            E = jax.jacfwd(lambda d: (x @ g.exp(d)).parameters())(jnp.zeros(lie.TAN[self.g]))
            return dict(J=J[0], D=D, E=E)
        y = V.manifold_retract(x, kw["d"])
        assert type(y) is g
        out = dict(y=y.parameters())
        if self.what == "multiplication":
            out["spec"] = (x @ g.exp(kw["d"])).parameters()
        return out

    def post(self, h, inp, out):
        n = lie.ROT[self.g]
        x = lie.params(self.g, "x", inp) if self.what != "exponential" else None
        if self.what == "dimensions":
            ident = np.array([1.0] + [0.0] * (n - 1 + lie.TR[self.g]), dtype=object)
            h.eq("default value is the identity", out["default"], ident)
            h.eq("identity retracted by zero", out["retracted"], ident)
        elif self.what == "flatten":
            h.eq("unflatten after flatten", out["again"], x)
            h.eq("flatten after unflatten", out["back"], x)
        elif self.what == "zero":
            h.eq("retracted by zero", out["y"], x)
        elif self.what == "jacobian":
            h.eq("Jacobian is the derivative of the retraction", out["J"], out["D"])
            h.eq("Jacobian is the derivative of the group operation", out["J"], out["E"])
        elif self.what == "multiplication":
            if h.symbolic:
                for a, b in zip(out["y"], out["spec"]):
                    h.propose_zero(a - b)
            h.eq("retraction is multiplication by the exponential", out["y"], out["spec"])
        elif self.what == "closed-form":
            want = lie.multiply(self.g, list(x), lie.exp(self.g, inp["d"]))
            if h.symbolic:
                for a, b in zip(out["y"], want):
                    h.propose_zero(a - b)
            h.eq("retraction in closed form", out["y"], np.array(want, dtype=object))
        elif self.what == "exponential":
            want = lie.exp(self.g, inp["d"])
            if h.symbolic:
                for a, b in zip(out["y"], want):
                    h.propose_zero(a - b)
            h.eq("identity retracted in closed form", out["y"], np.array(want, dtype=object))
        elif self.what == "stays":
            y = out["y"][:n]
            h.eq("rotation keeps unit norm", lie.total(v * v for v in y), h.const(1))


class Pair(NamedTuple):
    first: Any
    second: Any


def _struct(name, default):
    class Struct(core.VariableBase[Any]):
        @classmethod
        @overrides(check_signature=False)
        def get_default_value(cls):
            return default()

    Struct.__name__ = name
    return Struct


EXAMPLES = dict(
    scalar=lambda: jnp.array(0.5),
    matrix=lambda: jnp.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]),
    dict=lambda: {"b": jnp.array([1.0, 2.0]), "a": jnp.array(3.0)},
    named=lambda: Pair(first=jnp.array([[1.0], [2.0]]), second={"z": jnp.array([7.0]), "y": jnp.array([8.0, 9.0])}),
    nested=lambda: (jnp.array([1.0]), [jnp.array(2.0), (jnp.array([[3.0, 4.0]]),)]),
    group=lambda: {"T": jaxlie.SE2(jnp.array([1.0, 0.0, 2.0, 3.0])), "v": jnp.array([4.0])},
    empty=lambda: (jnp.zeros((0,)), jnp.array([1.0, -1.0])),
)
STRUCT = {k: _struct("Struct_" + k, f) for k, f in EXAMPLES.items()}


class Plain(Problem):
    """Real vectors and structured values without a retraction of their own: addition of the flattened value."""

    functions = ("RealVectorVariable", "VariableBase.flatten", "VariableBase.unflatten", "VariableBase.manifold_retract",
                 "VariableBase.manifold_retract_jacobian", "VariableBase.get_parameter_dim", "VariableBase.get_local_parameter_dim",
                 "VariableBase.__init_subclass__")

    def __init__(self, case):
        self.name = case["name"]
        if isinstance(self.name, int):
            self.V = core.RealVectorVariable[self.name]
            self.example = np.zeros(self.name)
        else:
            self.V = STRUCT[self.name]
            self.example = EXAMPLES[self.name]()
        ls, self.tree = jax.tree_util.tree_flatten(self.example)
        self.shapes = [np.shape(v) for v in ls]
        self.values = [float(v) for l in ls for v in np.asarray(l).reshape(-1)]
        self.n = len(self.values)
        self.bounds = f"{self.name}: {self.n} parameters"

    def inputs(self):
        return dict(x=In((self.n,)), d=In((self.n,)))

    def build(self, x):
        out, k = [], 0
        for s in self.shapes:
            m = int(np.prod(s, dtype=int))
            out.append(x[k:k + m].reshape(s))
            k += m
        return jax.tree_util.tree_unflatten(self.tree, out)

    def flat(self, v):
        assert jax.tree_util.tree_structure(v) == self.tree, (jax.tree_util.tree_structure(v), self.tree)
        ls = jax.tree_util.tree_leaves(v)
        assert [np.shape(l) for l in ls] == self.shapes, ([np.shape(l) for l in ls], self.shapes)
        return jnp.concatenate([jnp.asarray(l).reshape(-1) for l in ls])

    def real(self, x, d):
        V = self.V
        assert V.get_parameter_dim() == self.n and V.get_local_parameter_dim() == self.n
        if isinstance(self.name, int):
            assert core.RealVectorVariable[self.name] is V and core.RealVectorVariable[self.name + 1] is not V
            assert core.RealVectorVariable[self.name + 1].get_parameter_dim() == self.n + 1
        v = self.build(x)
        f = V.flatten(v)
        assert f.shape == (self.n,)
        J = V.manifold_retract_jacobian(v)
        assert [np.shape(j) for j in J] == [tuple(s) + (self.n,) for s in self.shapes], [np.shape(j) for j in J]
        return dict(default=self.flat(V.get_default_value()), flat=self.flat(V.unflatten(f)), unflat=V.flatten(V.unflatten(x)),
                    retracted=self.flat(V.manifold_retract(v, d)), zero=self.flat(V.manifold_retract(v, jnp.zeros(self.n))),
                    J=jnp.concatenate([jnp.asarray(j).reshape((-1, self.n)) for j in J]),
                    instance=jnp.array([V.canonical_instance() is V.canonical_instance(), isinstance(V.canonical_instance(), V)]))

    def post(self, h, inp, out):
        x, d, n = inp["x"], inp["d"], self.n
        h.eq("default value", out["default"], np.array(self.values, dtype=object))
        h.eq("unflatten after flatten", out["flat"], x)
        h.eq("flatten after unflatten", out["unflat"], x)
        h.eq("retraction adds", out["retracted"], np.array([a + b for a, b in zip(x, d)], dtype=object))
        h.eq("retracted by zero", out["zero"], x)
        h.eq("Jacobian", out["J"], np.array([[float(i == j) for j in range(n)] for i in range(n)], dtype=object))
        h.eq("canonical instance", out["instance"], np.array([True, True], dtype=object))


class Custom(Problem):
    """A variable with an arbitrary retraction: the Jacobian is its derivative at zero, leaf by leaf."""

    functions = ("VariableBase.manifold_retract_jacobian", "VariableBase.flatten", "VariableBase.unflatten")

    def __init__(self, case):
        self.t = case["type"]
        self.V = graphs.VT[self.t]
        self.bounds = f"arbitrary retraction, {graphs.PDIM[self.t]} parameters, {graphs.LDIM[self.t]} local"

    def inputs(self):
        return dict(x=In((graphs.PDIM[self.t],)))

    def real(self, x):
        V, n = self.V, graphs.LDIM[self.t]
        assert V.get_parameter_dim() == graphs.PDIM[self.t] and V.get_local_parameter_dim() == n
        v = graphs.unflat(self.t, x)
        J = V.manifold_retract_jacobian(v)
        assert [np.shape(j) for j in J] == [np.shape(l) + (n,) for l in jax.tree_util.tree_leaves(v)], [np.shape(j) for j in J]
        return dict(flat=graphs.flat(V.unflatten(V.flatten(v))), unflat=V.flatten(V.unflatten(x)),
                    J=jnp.concatenate([jnp.asarray(j).reshape((-1, n)) for j in J]))

    def post(self, h, inp, out):
        h.eq("unflatten after flatten", out["flat"], inp["x"])
        h.eq("flatten after unflatten", out["unflat"], inp["x"])
        h.eq("Jacobian", out["J"], graphs.retract_jac(h, self.t, inp["x"]))


run, replay = make_runner(dict(group=Group, plain=Plain, custom=Custom))

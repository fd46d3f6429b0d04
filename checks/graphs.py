"""Variables, factors and noise models whose functions are uninterpreted, and a catalogue of graph
structures over them.  Everything goes through jaxfg's public extension points."""
from typing import Any, NamedTuple, Tuple

import functools

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jsmt import scal as S
from jsmt.havoc import call
from jsmt.harness import HarnessError, In, arr
from jaxfg.core import FactorBase, StackedFactorGraph, StorageLayout, VariableAssignments, VariableBase, RealVectorVariable
from jaxfg.noises import DiagonalGaussian, Gaussian, HuberWrapper, NoiseModelBase


# ------------------------------------------------------------------ variables

V1 = RealVectorVariable[1]
V2 = RealVectorVariable[2]
V3 = RealVectorVariable[3]


def flat(x):
    return jnp.concatenate([jnp.asarray(l).reshape(-1) for l in jax.tree_util.tree_leaves(x)])


class ManA(VariableBase[Any]):
    """Manifold: 2 parameters, 1 local parameter, arbitrary retraction."""

    NAME, P, L = "retA", 2, 1

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls):
        return jnp.array([0.25, -0.5])

    @classmethod
    @overrides(check_signature=False)
    def get_local_parameter_dim(cls) -> int:
        return 1

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x, local_delta):
        return call("retA", (2,), x, local_delta)


class ManB(VariableBase[Any]):
    """Structured value (dict of arrays): 3 parameters, 2 local parameters, arbitrary retraction."""

    NAME, P, L = "retB", 3, 2

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls):
        return {"b": jnp.array([[1.5], [2.5]]), "a": jnp.array(0.75)}

    @classmethod
    @overrides(check_signature=False)
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x, local_delta):
        y = call("retB", (3,), flat(x), local_delta)
        return {"a": y[0], "b": y[1:].reshape((2, 1))}


class ManC(VariableBase[Any]):
    """1 parameter, 2 local parameters, arbitrary retraction."""

    NAME, P, L = "retC", 1, 2

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls):
        return jnp.array([0.125])

    @classmethod
    @overrides(check_signature=False)
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x, local_delta):
        return call("retC", (1,), x, local_delta)


VT = dict(V1=V1, V2=V2, V3=V3, A=ManA, B=ManB, C=ManC)
PDIM = dict(V1=1, V2=2, V3=3, A=2, B=3, C=1)
LDIM = dict(V1=1, V2=2, V3=3, A=1, B=2, C=2)
EUCL = ("V1", "V2", "V3")
DEFAULT = dict(V1=[0.0], V2=[0.0] * 2, V3=[0.0] * 3, A=[0.25, -0.5], B=[0.75, 1.5, 2.5], C=[0.125])


def unflat(t, x):
    """Flat parameters -> value of variable type t (written independently of jaxfg)."""
    if t == "B":
        return {"a": x[0], "b": jnp.stack([x[1], x[2]]).reshape((2, 1))}
    return x


def retract(h, t, x, d):
    """Reference retraction on flat parameters."""
    if t in EUCL:
        return arr([S.add(a, b) for a, b in zip(x, d)])
    return h.uf("ret" + t, [x, d], (PDIM[t],))


def retract_jac(h, t, x):
    """Reference d retract(x, delta) / d delta at 0, shape (P, L)."""
    if t in EUCL:
        n = PDIM[t]
        return arr([[h.const(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
    J = h.uf("D:ret" + t, [x, arr([h.const(0.0)] * LDIM[t])], (PDIM[t], PDIM[t] + LDIM[t]))
    return J[:, PDIM[t]:]


# ------------------------------------------------------------------ factors


@jdc.pytree_dataclass
class F(FactorBase):
    """Arbitrary residual of arbitrarily many variables, tuple hint with ellipsis."""

    par: Any
    tag: jdc.Static[str] = "F"

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[Any, ...]) -> jnp.ndarray:
        return call("f_" + self.tag, (self.get_residual_dim(),), *[flat(v) for v in variable_values], flat(self.par))


# get_type_hints(...)["variable_values"] == Tuple[Any, ...]: isinstance(x, Any) is not allowed, so use object.
F.compute_residual_vector.__annotations__["variable_values"] = Tuple[object, ...]


class PairValues(NamedTuple):
    first: object
    second: object


@jdc.pytree_dataclass
class FN(FactorBase):
    """Named-tuple hint; uses the fields by name, second before first."""

    par: Any
    tag: jdc.Static[str] = "FN"

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: PairValues) -> jnp.ndarray:
        return call("f_" + self.tag, (self.get_residual_dim(),), flat(variable_values.second), flat(variable_values.first),
                    flat(self.par))


@jdc.pytree_dataclass
class FJ(FactorBase):
    """User-supplied (arbitrary) Jacobians."""

    par: Any
    tag: jdc.Static[str] = "FJ"

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        return call("f_" + self.tag, (self.get_residual_dim(),), *[flat(v) for v in variable_values], flat(self.par))

    @overrides(check_signature=False)
    def compute_residual_jacobians(self, variable_values: Tuple[object, ...]) -> Tuple[jnp.ndarray, ...]:
        vals = [flat(v) for v in variable_values]
        return tuple(
            call(f"j{i}_" + self.tag, (self.get_residual_dim(), v.get_local_parameter_dim()), *vals, flat(self.par))
            for i, v in enumerate(self.variables)
        )


class FJ2(FJ):
    """Another class with the same fields."""


FCLS = dict(F=F, FN=FN, FJ=FJ)


# ------------------------------------------------------------------ noise


@jdc.pytree_dataclass
class HavocNoise(NoiseModelBase):
    """Arbitrary whitening function of residual and parameters."""

    s: Any

    @overrides(check_signature=False)
    def get_residual_dim(self) -> int:
        return self.s.shape[-1]

    @overrides(check_signature=False)
    def whiten_residual_vector(self, residual_vector):
        return call("whiten", (residual_vector.shape[0],), residual_vector, self.s)

    @overrides(check_signature=False)
    def whiten_jacobian(self, jacobian, residual_vector):
        return call("whitenJ", jacobian.shape, jacobian, residual_vector, self.s)


@jdc.pytree_dataclass
class UnitNoise(NoiseModelBase):
    """Leaves residuals and Jacobians alone."""

    dim: jdc.Static[int]

    @overrides(check_signature=False)
    def get_residual_dim(self) -> int:
        return self.dim

    @overrides(check_signature=False)
    def whiten_residual_vector(self, residual_vector):
        return residual_vector

    @overrides(check_signature=False)
    def whiten_jacobian(self, jacobian, residual_vector):
        return jacobian


def noise_params(kind, d):
    """Number of float parameters of a noise model of residual dimension d."""
    return dict(diag=d, full=d * d, havoc=d, huber=d + 1, huberfull=d * d + 1, tri=d * (d + 1) // 2, unit=0)[kind]


def tri_index(i, j):
    return i * (i + 1) // 2 + j


def make_noise(kind, d, p):
    if kind == "diag":
        return DiagonalGaussian(sqrt_precision_diagonal=p[:d])
    if kind == "unit":
        return UnitNoise(dim=d)
    if kind == "full":
        return Gaussian(sqrt_precision_matrix=p[:d * d].reshape((d, d)))
    if kind == "tri":  # lower triangular
        xp = np if isinstance(p, np.ndarray) else jnp
        M = [[p[tri_index(i, j)] if j <= i else 0.0 * p[0] for j in range(d)] for i in range(d)]
        return Gaussian(sqrt_precision_matrix=xp.stack([xp.stack(r) for r in M]))
    if kind == "havoc":
        return HavocNoise(s=p[:d])
    if kind == "huber":
        return HuberWrapper(wrapped=DiagonalGaussian(sqrt_precision_diagonal=p[1:d + 1]), delta=p[0])
    if kind == "huberfull":
        return HuberWrapper(wrapped=Gaussian(sqrt_precision_matrix=p[1:].reshape((d, d))), delta=p[0])
    raise HarnessError(kind)


def whiten_spec(h, kind, d, p, r):
    """Reference whitening of a residual (array of d scalars)."""
    if kind == "unit":
        return arr(r)
    if kind == "diag":
        return arr([S.mul(p[i], r[i]) for i in range(d)])
    if kind == "full":
        M = np.asarray(p, dtype=object).reshape((d, d))
        out = []
        for i in range(d):
            t = h.const(0.0)
            for j in range(d):
                t = S.add(t, S.mul(M[i, j], r[j]))
            out.append(t)
        return arr(out)
    if kind == "tri":
        return arr([functools.reduce(S.add, [S.mul(p[tri_index(i, j)], r[j]) for j in range(i + 1)]) for i in range(d)])
    if kind == "havoc":
        return h.uf("whiten", [r, p], (d,))
    if kind in ("huber", "huberfull"):
        w = whiten_spec(h, "diag" if kind == "huber" else "full", d, p[1:], r)
        n2 = h.const(0.0)
        for x in w:
            n2 = S.add(n2, S.mul(x, x))
        n = S.sqrt(n2)
        sc = S.sqrt(S.div(p[0], n))
        return arr([S.ite(S.lt(n, p[0]), x, S.mul(x, sc)) for x in w])
    raise HarnessError(kind)


def whiten_jac_spec(h, kind, d, p, J):
    """Linear noise models only."""
    if kind == "diag":
        return arr([[S.mul(p[i], x) for x in J[i]] for i in range(d)])
    if kind == "full":
        M = np.asarray(p, dtype=object).reshape((d, d))
        out = np.empty(J.shape, dtype=object)
        for i in range(d):
            for k in range(J.shape[1]):
                t = h.const(0.0)
                for j in range(d):
                    t = S.add(t, S.mul(M[i, j], J[j, k]))
                out[i, k] = t
        return out
    raise HarnessError(kind)


# ------------------------------------------------------------------ graph structures

# A structure: variables: list of type names; factors: list of
#   (class, variable indices, noise kind, residual dim, parameter shape, tag)


def fac(cls, vs, noise="diag", d=1, par=(1,), tag=None):
    return dict(cls=cls, vs=list(vs), noise=noise, d=d, par=list(par), tag=tag or cls)


STRUCTS = {
    # one unary factor
    "single": dict(vars=["V2"], factors=[fac("F", [0], d=2)]),
    # asymmetric chain: one group of three binary factors over vectors
    "chain": dict(vars=["V2", "V2", "V2"], factors=[fac("F", [0, 1], d=2), fac("F", [2, 1], d=2), fac("F", [2, 0], d=2)]),
    # interleaved groups (same class, different arity / noise / tag / parameter shape)
    "interleaved": dict(vars=["V1", "V1", "V1"], factors=[
        fac("F", [1]), fac("F", [0, 1]), fac("F", [2]), fac("F", [2, 0]), fac("F", [0])]),
    # types with different parameter and local dimensions, mixed factors
    "mixed": dict(vars=["B", "V2", "A", "B", "V1"], factors=[
        fac("F", [0, 1], d=2), fac("F", [2, 3], d=1), fac("F", [3, 1], d=2), fac("F", [4, 2, 0], d=1), fac("F", [2, 0], d=1)]),
    # the same variable twice in one factor
    "twice": dict(vars=["V2", "V2"], factors=[fac("F", [0, 0], d=1), fac("F", [1, 0], d=1), fac("F", [1, 1], d=1)]),
    "twice_man": dict(vars=["A", "A"], factors=[fac("F", [1, 1], d=2), fac("F", [1, 0], d=2)]),
    # static fields differ
    "static": dict(vars=["V1", "V1"], factors=[
        fac("F", [0], tag="p"), fac("F", [1], tag="q"), fac("F", [1], tag="p"), fac("F", [0], tag="q")]),
    # parameter shapes differ (same number of elements, too)
    "shapes": dict(vars=["V1", "V1"], factors=[
        fac("F", [0], par=(2,), tag="s"), fac("F", [1], par=(2, 1), tag="s"), fac("F", [1], par=(1,), tag="s1"),
        fac("F", [1], par=(2,), tag="s"), fac("F", [0], par=(), tag="s1")]),
    # named tuples
    "named": dict(vars=["V1", "V2", "V1"], factors=[
        fac("FN", [0, 1], d=1), fac("FN", [2, 1], d=1), fac("FN", [1, 1], d=1, tag="FNb")]),
    # user-supplied Jacobians, same class and autodiff class interleaved
    "analytic": dict(vars=["A", "V2", "A"], factors=[
        fac("FJ", [0, 1], d=2), fac("F", [1], d=2), fac("FJ", [2, 1], d=2), fac("FJ", [2], d=1, tag="u")]),
    # noise models differ
    "noise": dict(vars=["V1", "V1"], factors=[
        fac("F", [0], "diag", 2), fac("F", [1], "full", 2), fac("F", [1], "diag", 2), fac("F", [0], "full", 2),
        fac("F", [0], "diag", 1, tag="F1")]),
    "havocnoise": dict(vars=["V1", "A"], factors=[
        fac("F", [0], "havoc", 2), fac("F", [1], "havoc", 1, tag="F1"), fac("F", [0], "havoc", 2), fac("F", [0], "diag", 2)]),
    "huber": dict(vars=["V1", "V1"], factors=[
        fac("F", [0], "huber", 1), fac("F", [1], "diag", 1), fac("F", [1], "huber", 1)]),
    # local dimension larger than parameter dimension
    "fat": dict(vars=["C", "A", "C"], factors=[fac("F", [0, 1], d=2), fac("F", [2, 1], d=2), fac("F", [0, 2], d=1, tag="c")]),
    # ternary and unary, structured values
    "ternary": dict(vars=["B", "B", "V1"], factors=[fac("F", [1, 2, 0], d=1), fac("F", [0, 2, 1], d=1), fac("F", [0], d=3, tag="u")]),
    # same number of parameters but types in different positions
    "swapped": dict(vars=["V1", "A", "V1", "A"], factors=[
        fac("F", [0, 1], tag="w"), fac("F", [3, 2], tag="w"), fac("F", [2, 1], tag="w"), fac("F", [1, 0], tag="w")]),
}


class Graph:
    """Builds the real graph for a structure, with symbolic parameters, and its reference model."""

    def __init__(self, struct, order=None, use_onp=True, prefix=""):
        self.s = struct if isinstance(struct, dict) else STRUCTS[struct]
        self.types = self.s["vars"]
        self.factors = self.s["factors"]
        self.n = len(self.types)
        self.use_onp = use_onp
        self.variables = [VT[t]() for t in self.types]
        used = []
        for f in self.factors:
            for v in f["vs"]:
                if v not in used:
                    used.append(v)
        self.used = used
        self.order = list(order) if order is not None else list(range(self.n))  # dictionary order of the assignments
        self.prefix = prefix
        # parameter slots
        self.slots = []
        o = 0
        for f in self.factors:
            np_ = int(np.prod(f["par"], dtype=int))
            nn = noise_params(f["noise"], f["d"])
            self.slots.append((o, np_, o + np_, nn))
            o += np_ + nn
        self.nparams = o

    # ---- inputs
    def inputs(self):
        d = {f"x{i}": In((PDIM[t],)) for i, t in enumerate(self.types)}
        d["par"] = In((self.nparams,))
        return d

    # ---- real objects
    def make_factors(self, par):
        out = []
        for f, (o, n, oo, nn) in zip(self.factors, self.slots):
            p = par[o:o + n].reshape(tuple(f["par"]))
            q = par[oo:oo + nn]
            cls = FCLS[f["cls"]]
            out.append(cls(variables=tuple(self.variables[v] for v in f["vs"]),
                           noise_model=make_noise(f["noise"], f["d"], q), par=p, tag=f["tag"]))
        return out

    def make(self, par):
        if not self.use_onp:
            return StackedFactorGraph.make(self.make_factors(par), use_onp=False)
        # Parameters are opaque to make(): build with placeholders, then substitute.
        ph = 1000.0 + np.arange(self.nparams, dtype=np.float64)
        g = StackedFactorGraph.make(self.make_factors(ph), use_onp=True)

        def sub(leaf):
            a = np.asarray(leaf)
            if a.dtype.kind != "f":
                return leaf
            idx = np.round(a - 1000.0).astype(int)
            zero = a == 0.0
            if not np.all(zero | ((idx >= 0) & (idx < self.nparams) & (np.abs(a - 1000.0 - idx) < 1e-9))):
                raise HarnessError("graph construction changed factor parameters")
            if zero.any():
                return jnp.where(zero, 0.0, par[np.where(zero, 0, idx)])
            return par[idx] if self.nparams else leaf

        return jax.tree_util.tree_map(sub, g)

    def assignments(self, xs, order=None):
        d = {}
        for i in (order if order is not None else self.order):
            d[self.variables[i]] = unflat(self.types[i], xs[f"x{i}"])
        return VariableAssignments.make_from_dict(d)

    # ---- reference model
    def values(self, inp):
        return [np.asarray(inp[f"x{i}"], dtype=object) for i in range(self.n)]

    def args(self, f, vals):
        a = [vals[v] for v in f["vs"]]
        return a[::-1] if f["cls"] == "FN" else a

    def raw_residual(self, h, k, vals, par):
        f, (o, n, oo, nn) = self.factors[k], self.slots[k]
        return h.uf("f_" + f["tag"], self.args(f, vals) + [par[o:o + n]], (f["d"],))

    def residual(self, h, k, vals, par):
        f, (o, n, oo, nn) = self.factors[k], self.slots[k]
        return whiten_spec(h, f["noise"], f["d"], par[oo:oo + nn], self.raw_residual(h, k, vals, par))

    def raw_jacobians(self, h, k, vals, par):
        """One (d, local dim) array per connected variable, in order."""
        f, (o, n, oo, nn) = self.factors[k], self.slots[k]
        a = self.args(f, vals) + [par[o:o + n]]
        out = []
        if f["cls"] == "FJ":
            for i, v in enumerate(f["vs"]):
                out.append(h.uf(f"j{i}_" + f["tag"], a, (f["d"], LDIM[self.types[v]])))
            return out
        tot = sum(len(x) for x in a)
        D = h.uf("D:f_" + f["tag"], a, (f["d"], tot))
        offs, q = [], 0
        for x in a:
            offs.append(q)
            q += len(x)
        pos = list(range(len(f["vs"])))
        if f["cls"] == "FN":
            pos = pos[::-1]
        for i, v in enumerate(f["vs"]):
            t = self.types[v]
            blk = D[:, offs[pos[i]]:offs[pos[i]] + PDIM[t]]
            out.append(matmul(h, blk, retract_jac(h, t, vals[v])))
        return out


def matmul(h, A, B):
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            t = h.const(0.0)
            for k in range(A.shape[1]):
                t = S.add(t, S.mul(A[i, k], B[k, j]))
            out[i, j] = t
    return out


def _simp(x):
    x = S.rr(x)
    return (S.z3.simplify(S.tz(x.v), som=True, sort_sums=True), tuple(f if S.is_pb(f) else S.z3.simplify(f) for f in (x.nan, x.pinf, x.ninf)))


def _same_syn(a, b):
    (va, fa), (vb, fb) = a, b
    if not va.eq(vb):
        return False
    for p, q in zip(fa, fb):
        if S.is_pb(p) or S.is_pb(q):
            if not (S.is_pb(p) and S.is_pb(q) and p == q):
                return False
        elif not p.eq(q):
            return False
    return True


def match_blocks(h, vec, blocks):
    """Positions of the blocks (each appearing once) in the vector; structural / numeric matching.

    -> list of start positions, or None for blocks without a match."""
    n = len(vec)
    free = [True] * n
    pos = [None] * len(blocks)
    if h.symbolic:
        sv = [_simp(x) for x in vec]
        eq = _same_syn
        sb = [[_simp(x) for x in b] for b in blocks]
    else:
        sv = [float(x) for x in vec]
        sb = [[float(x) for x in b] for b in blocks]

        def eq(a, b):
            if np.isnan(a) or np.isnan(b):
                return np.isnan(a) and np.isnan(b)
            return a == b or abs(a - b) <= h.rtol * (1 + abs(a) + abs(b))

    for k, b in enumerate(sb):
        for p in range(0, n - len(b) + 1):
            if all(free[p + i] for i in range(len(b))) and all(eq(sv[p + i], b[i]) for i in range(len(b))):
                pos[k] = p
                for i in range(len(b)):
                    free[p + i] = False
                break
    return pos, free


def fill_unmatched(pos, free, lens):
    """Assigns remaining free positions, in order, to unmatched blocks."""
    pos = list(pos)
    free = list(free)
    for k, p in enumerate(pos):
        if p is None:
            for q in range(0, len(free) - lens[k] + 1):
                if all(free[q:q + lens[k]]):
                    pos[k] = q
                    for i in range(lens[k]):
                        free[q + i] = False
                    break
    return pos

"""Symbolic interpreter for jaxprs over numpy object arrays of `scal` scalars.

Integer/bool arrays that are fully concrete are evaluated with JAX itself; float arrays are
always carried exactly (Fractions) or symbolically.  In concrete mode (all floats numpy
float64) the same code is an ordinary evaluator, used to validate the translation.
"""
from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction

import jax
import numpy as np
from jax import lax
from jax import numpy as jnp
from jax.core import ClosedJaxpr, Jaxpr, Literal

from . import scal as S
from .havoc import havoc_p, lookup


class Unsupported(Exception):
    pass


class UnwindError(Exception):
    pass


STAT = {"eqns": 0, "prims": set()}


def is_obj(a):
    return a.dtype == object


def obj(a):
    """numpy array -> object array of scalars."""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    k = a.dtype.kind
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = bool(x) if k == "b" else int(x) if k in "iu" else (S.rr(x) if EXACT[0] else np.float64(x))
    return out


EXACT = [True]


def norm(a, aval):
    """Object arrays of integer/bool type that turned fully concrete go back to numpy."""
    if a.dtype != object:
        return a
    kind = np.dtype(aval.dtype).kind
    if kind == "b":
        if all(S.is_pb(x) for x in a.flat):
            return np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)
    elif kind in "iu":
        vals = []
        for x in a.flat:
            if isinstance(x, S.R) and S.isF(x.v) and x.plain():
                vals.append(int(x.v))
            elif isinstance(x, (int, np.integer, bool, np.bool_)):
                vals.append(int(x))
            else:
                return a
        return np.array(vals, dtype=aval.dtype).reshape(a.shape)
    return a


def ew(f, *arrs):
    arrs = [obj(a) for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


# ----------------------------------------------------------------------- data movement

SENT = -(2**31) + 7


def move(prim, params, inputs, data_idx, out_avals):
    """Data-movement primitive: apply it to position arrays, then pick elements."""
    pos_in, pool = [], []
    off = 0
    for i, a in enumerate(inputs):
        if i in data_idx:
            oa = obj(a)
            n = oa.size
            pos_in.append(jnp.asarray((np.arange(n) + off).reshape(oa.shape).astype(np.int32)))
            pool.extend(oa.reshape(-1).tolist() if n else [])
            off += n
        else:
            pos_in.append(jnp.asarray(a))
    p = dict(params)
    if prim.name == "gather":
        p["fill_value"] = SENT
    outs = prim.bind(*pos_in, **p)
    if not prim.multiple_results:
        outs = [outs]
    res = []
    for o in outs:
        o = np.asarray(o)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            k = int(o[i])
            r[i] = S.rr(float("nan")) if (k == SENT or k < 0) else pool[k]
        res.append(r)
    return res


def scatter_targets(prim, params, oshape, indices, ushape):
    """For each update element (flat) the flat operand position it lands on, or -1."""
    n = int(np.prod(ushape, dtype=int))
    dn = params["dimension_numbers"]
    eye = np.eye(n, dtype=np.int32).reshape((n,) + tuple(ushape))

    def one(u):
        return lax.scatter_add(
            jnp.zeros(oshape, jnp.int32), jnp.asarray(indices), u, dn,
            indices_are_sorted=False, unique_indices=False, mode=params["mode"])

    out = np.asarray(jax.vmap(one)(jnp.asarray(eye))).reshape((n, -1)) if n else np.zeros((0, 1))
    tgt = []
    for k in range(n):
        nz = np.nonzero(out[k])[0]
        tgt.append(int(nz[0]) if len(nz) else -1)
    return tgt


def _rows_of_indices(indices):
    return indices.reshape((-1, indices.shape[-1])) if indices.ndim else indices.reshape((1, 1))


def sym_index_cases(row, dims):
    """All in-range values of a symbolic index vector with their conditions."""
    choices = []
    for x, d in zip(row, dims):
        if isinstance(x, (int, np.integer)):
            choices.append([(int(x), True)])
        elif isinstance(x, S.R) and S.isF(x.v):
            choices.append([(int(x.v), True)])
        else:
            choices.append([(v, S.feq(x, v)) for v in range(d)])
    for combo in itertools.product(*choices):
        yield tuple(v for v, _ in combo), S.And(*[c for _, c in combo])


def gather_sym(params, operand, indices, out_aval):
    """Gather with symbolic indices: case split over in-range values per index vector."""
    dn = params["dimension_numbers"]
    operand = obj(operand)
    idx = np.asarray(indices)
    rows = idx.reshape((-1, idx.shape[-1]))
    batch_shape = idx.shape[:-1]
    out_shape = out_aval.shape
    off = set(dn.offset_dims)
    batch_axes = [a for a in range(len(out_shape)) if a not in off]
    dims = [operand.shape[a] - params["slice_sizes"][a] + 1 for a in dn.start_index_map]
    pos = np.arange(operand.size, dtype=np.int32).reshape(operand.shape)
    pool = operand.reshape(-1)
    cache = {}

    def at(v):
        if v not in cache:
            ii = np.broadcast_to(np.array(v, dtype=np.int32), idx.shape)
            p = dict(params)
            p["fill_value"] = SENT
            cache[v] = np.asarray(lax.gather_p.bind(jnp.asarray(pos), jnp.asarray(ii), **p))
        return cache[v]

    out = np.empty(out_shape, dtype=object)
    clip = "CLIP" in str(params["mode"]).upper()
    for o in np.ndindex(*out_shape):
        b = tuple(o[a] for a in batch_axes)
        k = int(np.ravel_multi_index(b, batch_shape)) if batch_shape else 0
        r = list(rows[k])
        if clip:
            r = [x if isinstance(x, (int, np.integer)) else S.minv(S.maxv(x, 0), d - 1) for x, d in zip(r, dims)]
        res = S.rr(float("nan"))
        for v, cond in sym_index_cases(r, dims):
            p = int(at(v)[o])
            val = S.rr(float("nan")) if p < 0 else pool[p]
            res = S.ite(cond, val, res) if cond is not True else val
        out[o] = res
    return out


def scatter_sym(prim, params, operand, indices, updates):
    dn = params["dimension_numbers"]
    operand, updates = obj(operand).copy(), obj(updates)
    idx = np.asarray(indices)
    rows = idx.reshape((-1, idx.shape[-1]))
    batch_shape = idx.shape[:-1]
    win = set(dn.update_window_dims)
    batch_axes = [a for a in range(updates.ndim) if a not in win]
    dims = [operand.shape[a] for a in dn.scatter_dims_to_operand_dims]
    cache = {}
    for u in np.ndindex(*updates.shape):
        b = tuple(u[a] for a in batch_axes)
        k = int(np.ravel_multi_index(b, batch_shape)) if batch_shape else 0
        uflat = int(np.ravel_multi_index(u, updates.shape)) if updates.shape else 0
        for v, cond in sym_index_cases(list(rows[k]), dims):
            if v not in cache:
                ii = np.broadcast_to(np.array(v, dtype=np.int32), idx.shape)
                cache[v] = scatter_targets(prim, params, operand.shape, ii, updates.shape)
            t = cache[v][uflat]
            if t < 0:
                continue
            p = np.unravel_index(t, operand.shape) if operand.shape else ()
            if prim.name == "scatter-add":
                operand[p] = S.ite(cond, S.add(operand[p], updates[u]), operand[p])
            else:
                operand[p] = S.ite(cond, updates[u], operand[p])
    return operand


# ----------------------------------------------------------------------- linear algebra


def dot_general(a, b, dn):
    (ca, cb), (ba, bb) = dn
    a, b = obj(a), obj(b)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    bs = [a.shape[i] for i in ba]
    sa = [a.shape[i] for i in fa]
    sb = [b.shape[i] for i in fb]
    cs = [a.shape[i] for i in ca]
    out = np.empty(tuple(bs + sa + sb), dtype=object)
    for bi in np.ndindex(*bs):
        for ai in np.ndindex(*sa):
            for bj in np.ndindex(*sb):
                tot = None
                for ci in np.ndindex(*cs):
                    ia, ib = [0] * a.ndim, [0] * b.ndim
                    for ax, v in zip(ba, bi): ia[ax] = v
                    for ax, v in zip(bb, bi): ib[ax] = v
                    for ax, v in zip(fa, ai): ia[ax] = v
                    for ax, v in zip(fb, bj): ib[ax] = v
                    for ax, v in zip(ca, ci): ia[ax] = v
                    for ax, v in zip(cb, ci): ib[ax] = v
                    t = S.mul(a[tuple(ia)], b[tuple(ib)])
                    tot = t if tot is None else S.add(tot, t)
                out[bi + ai + bj] = zero() if tot is None else tot
    return out


def zero():
    return S.R(S.F0) if EXACT[0] else np.float64(0.0)


def one():
    return S.R(S.F1) if EXACT[0] else np.float64(1.0)


def cholesky_by_contract(a, L):
    """Some lower triangular L with positive diagonal and L L^T = a (assumes a is positive definite)."""
    n = a.shape[-1]
    ij = [(i, j) for i in range(n) for j in range(i + 1)]
    c = S.ctx()

    def axiom(args, outs):
        A, o = dict(zip(ij, args)), dict(zip(ij, outs))
        for i, j in ij:
            yield S.tz(A[i, j].v) == S.z3.Sum(*[S.tz(o[i, k].v) * S.tz(o[j, k].v) for k in range(j + 1)])
            if i == j:
                yield o[i, i].v > 0

    c.uf_axioms[f"math.cholesky{n}"] = axiom
    for k, x in zip(ij, S.uf(f"math.cholesky{n}", [a[k] for k in ij], len(ij))):
        L[k] = x
    return L


def cholesky2(a):
    n = a.shape[-1]
    L = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            L[i, j] = zero()
    if EXACT[0] and S.ctx().cholesky_contract:
        return cholesky_by_contract(a, L)
    for j in range(n):
        s = a[j, j]
        for k in range(j):
            s = S.sub(s, S.mul(L[j, k], L[j, k]))
        L[j, j] = S.sqrt(s)
        for i in range(j + 1, n):
            s = a[i, j]
            for k in range(j):
                s = S.sub(s, S.mul(L[i, k], L[j, k]))
            L[i, j] = S.div(s, L[j, j])
    return L


def _nonzero(x):
    """x != 0 as a condition, True when it is certain."""
    if not isinstance(x, S.R):
        return bool(x != 0)
    z = S.And(x.fin(), S.veq(x.v, S.F0))
    return True if z is False or S.ctx().infeasible(z) else S.Not(z)


def lu2(a):
    """LU with row pivoting -> (factors, pivots, permutation).

    The pivot is the first row with a non-zero entry (numbers: the largest entry).  Solutions, inverses and
    determinants do not depend on that choice in exact arithmetic."""
    m, n = a.shape
    a = a.copy()
    perm = np.empty(m, dtype=object)
    perm[:] = range(m)
    piv = np.empty(min(m, n), dtype=object)
    for k in range(min(m, n)):
        piv[k] = k
        if EXACT[0]:
            conds, seen = [], False
            for i in range(k, m):
                nz = _nonzero(a[i, k])
                conds.append((i, S.And(nz, S.Not(seen))))
                seen = S.Or(seen, nz)
                if seen is True:
                    break
            # swap row k with the chosen one (all rows zero: keep k)
            for i, c in conds[1:] if not (conds and conds[0][1] is True) else []:
                if c is False:
                    continue
                for j in range(n):
                    x, y = a[k, j], a[i, j]
                    a[k, j], a[i, j] = S.ite(c, y, x), S.ite(c, x, y)
                x, y = perm[k], perm[i]
                perm[k], perm[i] = S.ite(c, y, x), S.ite(c, x, y)
                piv[k] = S.ite(c, i, piv[k])
        else:
            i = k + int(np.argmax([abs(float(a[r, k])) for r in range(k, m)]))
            if i != k:
                a[[k, i]] = a[[i, k]]
                perm[k], perm[i] = perm[i], perm[k]
                piv[k] = i
        for i in range(k + 1, m):
            if isinstance(a[i, k], S.R) and S.isF(a[i, k].v) and a[i, k].plain() and a[i, k].v == 0:
                continue
            if isinstance(a[i, k], float) and a[i, k] == 0.0:
                continue
            f = S.div(a[i, k], a[k, k])
            a[i, k] = f
            for j in range(k + 1, n):
                a[i, j] = S.sub(a[i, j], S.mul(f, a[k, j]))
    return a, piv, perm


def _ints(a):
    """Integer array if every entry is a number."""
    if all(isinstance(x, (int, np.integer)) for x in a.reshape(-1)):
        return a.astype(np.int32)
    return a


def trisolve(a, b, *, left_side, lower, transpose_a, conjugate_a, unit_diagonal):
    a, b = obj(a), obj(b)
    if a.ndim > 2:
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = trisolve(a[i], b[i], left_side=left_side, lower=lower, transpose_a=transpose_a,
                              conjugate_a=conjugate_a, unit_diagonal=unit_diagonal)
        return out
    if not left_side:
        return trisolve(a, b.T, left_side=True, lower=lower, transpose_a=not transpose_a,
                        conjugate_a=conjugate_a, unit_diagonal=unit_diagonal).T
    if transpose_a:
        a, lower = a.T, not lower
    n = a.shape[0]
    x = np.empty(b.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(b.shape[1]):
        for i in order:
            s = b[i, c]
            for j in (range(i) if lower else range(i + 1, n)):
                s = S.sub(s, S.mul(a[i, j], x[j, c]))
            x[i, c] = s if unit_diagonal else S.div(s, a[i, i])
    return x


def reduce(f, a, axes, init):
    a = obj(a)
    keep = [i for i in range(a.ndim) if i not in axes]
    out = np.empty(tuple(a.shape[i] for i in keep), dtype=object)
    for o in np.ndindex(*out.shape):
        acc = None
        for r in np.ndindex(*[a.shape[i] for i in axes]):
            ix = [0] * a.ndim
            for ax, v in zip(keep, o): ix[ax] = v
            for ax, v in zip(axes, r): ix[ax] = v
            x = a[tuple(ix)]
            acc = x if acc is None else f(acc, x)
        out[o] = init() if acc is None else acc
    return out


# ----------------------------------------------------------------------- interpreter

EW = {
    "add": S.add, "add_any": S.add, "sub": S.sub, "mul": S.mul, "div": S.div, "neg": S.neg, "abs": S.absv,
    "max": S.maxv, "min": S.minv, "sqrt": S.sqrt, "sign": S.sign,
    "lt": S.lt, "le": S.le, "gt": lambda a, b: S.lt(b, a), "ge": lambda a, b: S.le(b, a),
    "lt_to": S.lt, "le_to": S.le,
    "sin": functools.partial(S.math_uf, "sin"), "cos": functools.partial(S.math_uf, "cos"),
    "tan": functools.partial(S.math_uf, "tan"), "log": functools.partial(S.math_uf, "log"),
    "exp": functools.partial(S.math_uf, "exp"), "atan2": functools.partial(S.math_uf, "atan2"),
    "asin": functools.partial(S.math_uf, "asin"), "acos": functools.partial(S.math_uf, "acos"),
    "atan": functools.partial(S.math_uf, "atan"), "tanh": functools.partial(S.math_uf, "tanh"),
    "log1p": functools.partial(S.math_uf, "log1p"), "expm1": functools.partial(S.math_uf, "expm1"),
    "square": lambda a: S.mul(a, a),
    "rsqrt": lambda a: S.div(one(), S.sqrt(a)),
}


def _eq(a, b):
    return S.feq(a, b)


EW["eq"] = _eq
EW["eq_to"] = _eq
EW["ne"] = lambda a, b: S.Not(_eq(a, b))


def _fin(a):
    if S.is_conc(a):
        return bool(np.isfinite(a))
    return S.rr(a).fin()


EW["is_finite"] = _fin

MOVE = {"broadcast_in_dim", "reshape", "transpose", "slice", "squeeze", "expand_dims", "rev", "concatenate", "pad"}
IGNORE1 = {"copy", "copy_p", "stop_gradient", "reduce_precision", "optimization_barrier", "device_put"}
CALLS = {"pjit": "jaxpr", "closed_call": "call_jaxpr", "core_call": "call_jaxpr", "remat": "jaxpr", "checkpoint": "jaxpr",
         "custom_jvp_call": "call_jaxpr", "custom_vjp_call": "call_jaxpr", "custom_vjp_call_jaxpr": "fun_jaxpr",
         "xla_call": "call_jaxpr"}


class Interp:
    def __init__(self, unwind=4, hooks=None):
        self.unwind = unwind
        self.hooks = hooks or {}
        self.while_log = []

    def run(self, closed: ClosedJaxpr, args):
        return self.eval(closed.jaxpr, closed.consts, args)

    def eval(self, jaxpr: Jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return self.lit(np.asarray(v.val), v.aval)
            return env[v]

        def write(v, x):
            x = np.asarray(x) if not isinstance(x, np.ndarray) else x
            assert tuple(x.shape) == tuple(v.aval.shape), (v.aval, x.shape)
            env[v] = norm(x, v.aval)

        for v, c in zip(jaxpr.constvars, consts):
            write(v, self.lit(np.asarray(c), v.aval))
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            write(v, a)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            try:
                outs = self.prim(eqn, ins)
            except (Unsupported, UnwindError):
                raise
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ != "DropVar":
                    write(v, o)
        return [read(v) for v in jaxpr.outvars]

    def lit(self, a, aval):
        if a.dtype == object:
            return a
        return obj(a) if a.dtype.kind == "f" else a

    def closed(self, j):
        return (j.jaxpr, j.consts) if isinstance(j, ClosedJaxpr) else (j, ())

    def prim(self, eqn, ins):
        p, params, name = eqn.primitive, eqn.params, eqn.primitive.name
        STAT["eqns"] += 1
        STAT["prims"].add(name)
        out_avals = [v.aval for v in eqn.outvars]
        if name in self.hooks:
            r = self.hooks[name](self, eqn, ins)
            if r is not None:
                return r
        if name in CALLS:
            j = params[CALLS[name]]
            jx, cs = self.closed(j)
            return self.eval(jx, cs, ins)
        if p is havoc_p:
            return [self.havoc(params, ins)]
        if name in ("jsmt_id",):
            return ins
        # fully concrete, non-float -> JAX
        if all(not is_obj(a) for a in ins) and all(np.dtype(o.dtype).kind in "biu" for o in out_avals) \
                and name not in ("while", "cond", "scan", "outside_call"):
            outs = p.bind(*[jnp.asarray(a) for a in ins], **params)
            return [np.asarray(o) for o in (outs if p.multiple_results else [outs])]
        if name in EW:
            return [ew(EW[name], *ins)]
        if name in MOVE:
            return move(p, params, ins, set(range(len(ins))), out_avals)
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, ins)
        if name in IGNORE1:
            return list(ins)
        raise Unsupported(name)

    # -- individual primitives
    def p_outside_call(self, eqn, ins):
        # id_tap: identity on the tapped values; only used for printing.
        if eqn.params.get("identity"):
            return list(ins[:len(eqn.outvars)])
        raise Unsupported("outside_call (host callback with result)")

    def p_convert_element_type(self, eqn, ins):
        (a,) = ins
        k = np.dtype(eqn.params["new_dtype"]).kind
        a = obj(a)

        def f(x):
            if k == "f":
                if EXACT[0] or isinstance(x, S.R) or not S.is_pb(x) and isinstance(x, S.z3.ExprRef):
                    return S.rr(x)
                return np.float64(float(x))
            if k in "iu":
                if S.is_pb(x):
                    return int(x)
                if isinstance(x, (int, np.integer)):
                    return int(x)
                if isinstance(x, S.z3.BoolRef):
                    return S.rr(x)
                if S.is_conc(x):
                    return int(x)
                if S.isF(x.v) and x.plain():
                    return int(x.v)
                if np.dtype(eqn.invars[0].aval.dtype).kind in "iub":
                    return x
                raise Unsupported("float->int conversion of a symbol")
            if k == "b":
                if S.is_b(x):
                    return x
                return S.Not(S.feq(x, 0))
            raise Unsupported(f"convert to {k}")

        return [ew(f, a)]

    def p_integer_pow(self, eqn, ins):
        return [ew(lambda x: S.ipow(x, eqn.params["y"]), ins[0])]

    def p_pow(self, eqn, ins):
        def f(x, y):
            if isinstance(y, S.R) and S.isF(y.v) and y.plain() and y.v.denominator == 1:
                return S.ipow(x, int(y.v))
            if isinstance(y, S.R) and S.isF(y.v) and y.v == Fraction(1, 2):
                return S.sqrt(x)
            if S.is_conc(y):
                return np.power(S._f(x), S._f(y))
            if isinstance(y, (int, np.integer)):
                return S.ipow(x, int(y))
            raise Unsupported("pow")

        return [ew(f, *ins)]

    def p_and(self, eqn, ins): return [ew(S.And, *ins)]
    def p_or(self, eqn, ins): return [ew(S.Or, *ins)]
    def p_not(self, eqn, ins): return [ew(S.Not, *ins)]
    def p_xor(self, eqn, ins): return [ew(S.Xor, *ins)]

    def p_select_n(self, eqn, ins):
        c, *xs = ins
        if len(xs) != 2:
            raise Unsupported("select_n with >2 cases")
        c = obj(c)
        if c.shape != xs[0].shape:
            c = np.broadcast_to(c, xs[0].shape) if c.shape == () else c
        if EXACT[0] and S.ctx().fork is not None and all(S.is_b(x) for x in c.flat):
            return [ew(lambda cc, f, t: S.lazy_ite(cc, t, f), c, xs[0], xs[1])]
        return [ew(lambda cc, f, t: S.ite(cc if S.is_b(cc) else S.Not(S.feq(cc, 0)), t, f), c, xs[0], xs[1])]

    def p_clamp(self, eqn, ins):
        lo, x, hi = ins
        return [ew(lambda l, v, h: S.minv(S.maxv(v, l), h), lo, x, hi)]

    def p_iota(self, eqn, ins):
        out = eqn.primitive.bind(**eqn.params)
        return [self.lit(np.asarray(out), None)]

    def p_gather(self, eqn, ins):
        operand, idx = ins
        if is_obj(idx):
            return [gather_sym(eqn.params, operand, idx, eqn.outvars[0].aval)]
        return move(eqn.primitive, eqn.params, [operand, idx], {0}, None)

    def p_dynamic_slice(self, eqn, ins):
        if any(is_obj(i) for i in ins[1:]):
            raise Unsupported("symbolic dynamic_slice")
        return move(eqn.primitive, eqn.params, ins, {0}, None)

    def p_dynamic_update_slice(self, eqn, ins):
        if any(is_obj(i) for i in ins[2:]):
            raise Unsupported("symbolic dynamic_update_slice")
        return move(eqn.primitive, eqn.params, ins, {0, 1}, None)

    def _scatter(self, eqn, ins):
        operand, idx, upd = ins
        if is_obj(idx):
            return [scatter_sym(eqn.primitive, eqn.params, operand, idx, upd)]
        operand, upd = obj(operand).copy(), obj(upd)
        tgt = scatter_targets(eqn.primitive, eqn.params, operand.shape, idx, upd.shape)
        flat = operand.reshape(-1)
        for k, t in enumerate(tgt):
            if t < 0:
                continue
            u = upd.reshape(-1)[k]
            if eqn.primitive.name == "scatter-add":
                flat[t] = S.add(flat[t], u)
            elif eqn.primitive.name == "scatter-mul":
                flat[t] = S.mul(flat[t], u)
            elif eqn.primitive.name == "scatter-max":
                flat[t] = S.maxv(flat[t], u)
            else:
                flat[t] = u
        return [flat.reshape(operand.shape)]

    p_scatter = p_scatter_add = p_scatter_mul = p_scatter_max = _scatter

    def p_dot_general(self, eqn, ins):
        return [dot_general(ins[0], ins[1], eqn.params["dimension_numbers"])]

    def p_reduce_sum(self, eqn, ins): return [reduce(S.add, ins[0], eqn.params["axes"], zero)]
    def p_reduce_prod(self, eqn, ins): return [reduce(S.mul, ins[0], eqn.params["axes"], one)]
    def p_reduce_max(self, eqn, ins): return [reduce(S.maxv, ins[0], eqn.params["axes"], lambda: S.NINF)]
    def p_reduce_min(self, eqn, ins): return [reduce(S.minv, ins[0], eqn.params["axes"], lambda: S.PINF)]
    def p_reduce_or(self, eqn, ins): return [reduce(S.Or, ins[0], eqn.params["axes"], lambda: False)]
    def p_reduce_and(self, eqn, ins): return [reduce(S.And, ins[0], eqn.params["axes"], lambda: True)]

    def p_cumsum(self, eqn, ins):
        a = np.moveaxis(obj(ins[0]), eqn.params["axis"], 0).copy()
        rng = range(1, a.shape[0])
        if eqn.params["reverse"]:
            a = a[::-1].copy()
        for i in rng:
            a[i] = ew(S.add, a[i - 1], a[i])
        if eqn.params["reverse"]:
            a = a[::-1]
        return [np.moveaxis(a, 0, eqn.params["axis"])]

    def p_cholesky(self, eqn, ins):
        a = obj(ins[0])
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = cholesky2(a[i])
        return [out]

    def p_lu(self, eqn, ins):
        a = obj(ins[0])
        out = np.empty(a.shape, dtype=object)
        k = min(a.shape[-2:])
        piv = np.empty(a.shape[:-2] + (k,), dtype=object)
        perm = np.empty(a.shape[:-2] + (a.shape[-2],), dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i], piv[i], perm[i] = lu2(a[i])
        return [out, _ints(piv), _ints(perm)]

    def p_lu_pivots_to_permutation(self, eqn, ins):
        n = eqn.params["permutation_size"]
        piv = ins[0]
        out = np.empty(piv.shape[:-1] + (n,), dtype=object)
        for b in np.ndindex(*piv.shape[:-1]):
            perm = np.empty(n, dtype=object)
            perm[:] = range(n)
            for k in range(piv.shape[-1]):
                p = piv[b + (k,)]
                new = perm.copy()
                for i in range(k + 1, n):
                    c = S.feq(p, i) if isinstance(p, S.R) else bool(p == i)
                    new[k] = S.ite(c, perm[i], new[k])
                    new[i] = S.ite(c, perm[k], perm[i])
                perm = new
            out[b] = perm
        return [_ints(out)]

    def p_rem(self, eqn, ins):
        def f(x, m):
            m = m if isinstance(m, (int, np.integer)) else m.v if isinstance(m, S.R) and S.isF(m.v) else None
            if m is None or m.denominator != 1:
                raise Unsupported("rem")
            if isinstance(x, (int, np.integer)):
                return int(math.fmod(x, int(m)))
            if S.is_conc(x):
                return np.float64(math.fmod(x, m))
            if np.dtype(eqn.invars[0].aval.dtype).kind not in "iu":
                raise Unsupported("rem of a real symbol")
            top = 4 * int(abs(m)) + 8
            r = S.rr(0)
            for v in range(top):
                r = S.ite(S.feq(x, v), S.rr(v % int(abs(m))), r)
            S.ctx().obligations.append(("small integer", S.Or(*[S.feq(x, v) for v in range(top)])))
            return r

        return [ew(f, *ins)]

    def p_triangular_solve(self, eqn, ins):
        return [trisolve(ins[0], ins[1], **eqn.params)]

    def p_custom_linear_solve(self, eqn, ins):
        params = eqn.params
        cl = params["const_lengths"]
        jx = params["jaxprs"]
        lens = list(cl)
        parts, o = [], 0
        for n in lens:
            parts.append(ins[o:o + n])
            o += n
        b = ins[o:]
        solve_consts = parts[2] if len(parts) == 4 else None
        jx_solve, cs = self.closed(jx.solve)
        names = ["matvec", "vecmat", "solve", "transpose_solve"]
        i = names.index("solve")
        return self.eval(jx_solve, cs, list(parts[i]) + list(b))[:len(eqn.outvars)]

    def p_cond(self, eqn, ins):
        idx, *ops = ins
        branches = eqn.params["branches"]
        x = obj(idx).item() if idx.ndim == 0 else None
        if isinstance(x, (int, np.integer, bool, np.bool_)):
            jx, cs = self.closed(branches[max(0, min(int(x), len(branches) - 1))])
            return self.eval(jx, cs, ops)
        res = None
        for k in reversed(range(len(branches))):
            jx, cs = self.closed(branches[k])
            o = self.eval(jx, cs, ops)
            if res is None:
                res = o
            else:
                cond = S.feq(x, k) if not isinstance(x, S.z3.BoolRef) else (S.Not(x) if k == 0 else x)
                ite = S.lazy_ite if EXACT[0] and S.ctx().fork is not None and S.is_b(cond) else S.ite
                res = [ew(lambda a, b: ite(cond, a, b), oo, rr_) for oo, rr_ in zip(o, res)]
        return res

    def p_scan(self, eqn, ins):
        P = eqn.params
        nc, ncar, length = P["num_consts"], P["num_carry"], P["length"]
        consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
        jx, cs = self.closed(P["jaxpr"])
        ys = []
        rng = range(length - 1, -1, -1) if P["reverse"] else range(length)
        for i in rng:
            o = self.eval(jx, cs, list(consts) + carry + [obj(x)[i] if is_obj(x) else x[i] for x in xs])
            carry = o[:ncar]
            ys.append(o[ncar:])
        if P["reverse"]:
            ys = ys[::-1]
        n_y = len(eqn.outvars) - ncar
        stacked = []
        for k in range(n_y):
            stacked.append(np.stack([np.asarray(y[k]) for y in ys]) if ys else
                           np.empty(eqn.outvars[ncar + k].aval.shape, dtype=object))
        return list(carry) + stacked

    def p_while(self, eqn, ins):
        P = eqn.params
        nc, nb = P["cond_nconsts"], P["body_nconsts"]
        cc, bc, carry = ins[:nc], ins[nc:nc + nb], list(ins[nc + nb:])
        cj, ccs = self.closed(P["cond_jaxpr"])
        bj, bcs = self.closed(P["body_jaxpr"])
        avals = [v.aval for v in eqn.outvars]
        states, conds = [carry], []
        path = True
        while True:
            (c,) = self.eval(cj, ccs, list(cc) + states[-1])
            lanes = obj(c)
            if EXACT[0] and S.ctx().fork is not None and len(states) <= self.unwind:
                lanes = ew(lambda x: x if S.is_pb(x) else S.branch(x), lanes)
            c = lanes.item() if lanes.shape == () else S.Or(*lanes.reshape(-1))
            conds.append(c)
            if S.is_pb(c) and not c:
                break
            path = S.And(path, c)
            if not S.is_pb(path) and S.z3.is_false(S.z3.simplify(path)):
                break
            limit = self.unwind if not S.is_pb(c) else 10000
            if len(states) > limit:
                # unwinding assertion: the loop must have ended
                S.ctx().obligations.append(("loop ends within %d iterations" % self.unwind, S.Not(path)))
                break
            nxt = self.eval(bj, bcs, list(bc) + states[-1])
            if lanes.shape:  # a batch of loops: finished elements keep their state
                nxt = [select_lanes(lanes, np.asarray(x), np.asarray(y)) for x, y in zip(nxt, states[-1])]
            states.append([norm(np.asarray(x), a) for x, a in zip(nxt, avals)])
        self.while_log.append((states, conds))
        # result: the first state whose condition is false
        res = states[-1] if len(states) == len(conds) else states[-1]
        k = min(len(states), len(conds)) - 1
        res = states[k]
        for i in range(k - 1, -1, -1):
            c = conds[i]
            if S.is_pb(c):
                res = res if c else states[i]
                continue
            res = [r if (not is_obj(np.asarray(r)) and not is_obj(np.asarray(s)) and np.array_equal(r, s)) else
                   ew(lambda a, b: S.ite(c, a, b), r, s) for r, s in zip(res, states[i])]
        return [norm(np.asarray(x), a) for x, a in zip(res, avals)]

    def havoc(self, params, ins):
        nb, out_shape, name = params["nbatch"], params["out_shape"], params["name"]
        ins = [obj(a) for a in ins]
        bshape = ins[0].shape[:nb]
        m = int(np.prod(out_shape, dtype=int))
        out = np.empty(bshape + tuple(out_shape), dtype=object)
        for b in np.ndindex(*bshape):
            flat = [x for a in ins for x in obj(a[b]).reshape(-1)] if nb else [x for a in ins for x in a.reshape(-1)]
            vals = apply_uf(name, flat, m)
            r = np.empty(m, dtype=object)
            r[:] = vals
            out[b] = r.reshape(out_shape) if out_shape else vals[0]
        return out


def select_lanes(lanes, new, old):
    out = np.empty(new.shape, dtype=object)
    for i in np.ndindex(*new.shape):
        c = lanes[i[:lanes.ndim]]
        out[i] = (new[i] if c else old[i]) if S.is_pb(c) else S.ite(c, new[i], old[i])
    return out if is_obj(new) or is_obj(old) or not all(S.is_pb(c) for c in lanes.reshape(-1)) else out.astype(new.dtype)


def apply_uf(name, flat, m):
    """Uninterpreted function application; table lookup when arguments are concrete."""
    if not EXACT[0]:
        return [np.float64(x) for x in np.asarray(lookup(name, np.array([float(x) for x in flat]), m)).reshape(-1)]
    return S.uf(name, flat, m)

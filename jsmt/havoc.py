"""A JAX primitive standing for an arbitrary (uninterpreted) user-supplied function.

`call(name, out_shape, *args)` can be used anywhere in JAX code (vmap/jit/jacfwd).  In the
symbolic interpreter it is an uninterpreted function; in real execution it is a host callback
which looks its value up in TABLES[name] (built from a solver model, or a smooth random
function), so counterexamples can be replayed on the real code.
"""
from __future__ import annotations

import functools

import jax
import numpy as np
from jax import numpy as jnp
from jax.core import Primitive, ShapedArray
from jax.interpreters import ad, batching, mlir

havoc_p = Primitive("jsmt_havoc")
TABLES = {}
"""name -> callable(flat args (n,)) -> flat outputs (m,)."""


def call(name, out_shape, *args):
    args = [jnp.asarray(a, dtype=float) for a in args]
    return havoc_p.bind(*args, name=name, out_shape=tuple(out_shape), nbatch=0)


@havoc_p.def_abstract_eval
def _abs(*args, name, out_shape, nbatch):
    bshape = args[0].shape[:nbatch]
    return ShapedArray(bshape + tuple(out_shape), jnp.result_type(float))


def _host(name, out_shape, nbatch, *args):
    args = [np.asarray(a, dtype=np.float64) for a in args]
    bshape = args[0].shape[:nbatch]
    n = int(np.prod(bshape, dtype=int))
    flat = np.concatenate([a.reshape((n, -1)) for a in args], axis=1)
    m = int(np.prod(out_shape, dtype=int))
    out = np.empty((n, m))
    for i in range(n):
        out[i] = np.asarray(lookup(name, flat[i], m), dtype=np.float64).reshape(-1)
    return out.reshape(bshape + tuple(out_shape))


def lookup(name, flat, m):
    t = TABLES.get(name)
    if t is None:
        t = TABLES["*"](name)
    return t(flat, m)


def _impl_fn(*args, name, out_shape, nbatch):
    aval = jax.ShapeDtypeStruct(args[0].shape[:nbatch] + tuple(out_shape), jnp.result_type(float))
    return jax.pure_callback(functools.partial(_host, name, out_shape, nbatch), aval, *args)


havoc_p.def_impl(_impl_fn)
mlir.register_lowering(havoc_p, mlir.lower_fun(_impl_fn, multiple_results=False))


def _batch(args, dims, *, name, out_shape, nbatch):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            new.append(jnp.broadcast_to(a, (size,) + a.shape))
        else:
            new.append(jnp.moveaxis(a, d, 0))
    return havoc_p.bind(*new, name=name, out_shape=out_shape, nbatch=nbatch + 1), 0


batching.primitive_batchers[havoc_p] = _batch


def _jvp(primals, tangents, *, name, out_shape, nbatch):
    out = havoc_p.bind(*primals, name=name, out_shape=out_shape, nbatch=nbatch)
    bshape = primals[0].shape[:nbatch]
    m = int(np.prod(out_shape, dtype=int))
    sizes = [int(np.prod(p.shape[nbatch:], dtype=int)) for p in primals]
    J = havoc_p.bind(*primals, name="D:" + name, out_shape=(m, sum(sizes)), nbatch=nbatch)
    tan = jnp.zeros(bshape + (m,))
    o = 0
    for p, t, s in zip(primals, tangents, sizes):
        if type(t) is not ad.Zero:
            tf = t.reshape(bshape + (s,))
            tan = tan + jnp.einsum("...ij,...j->...i", J[..., o:o + s], tf)
        o += s
    return out, tan.reshape(bshape + tuple(out_shape))


ad.primitive_jvps[havoc_p] = _jvp


# ------------------------------------------------------------------ concrete functions


class Nearest:
    """Table function: value at the nearest recorded argument (max-norm, relative)."""

    def __init__(self, entries):
        self.args = [np.asarray(a, dtype=np.float64) for a, _ in entries]
        self.outs = [np.asarray(o, dtype=np.float64) for _, o in entries]

    def __call__(self, flat, m):
        best, bd = 0, np.inf
        x = np.nan_to_num(np.asarray(flat, dtype=np.float64), nan=1e30, posinf=1e31, neginf=-1e31)
        for i, a in enumerate(self.args):
            if a.shape != x.shape:
                continue
            aa = np.nan_to_num(a, nan=1e30, posinf=1e31, neginf=-1e31)
            d = np.max(np.abs(aa - x) / (1.0 + np.abs(aa)), initial=0.0)
            if d < bd:
                best, bd = i, d
        if not self.args or self.outs[best].shape != (m,):
            return np.zeros(m)
        return self.outs[best]


class Smooth:
    """Deterministic smooth pseudo-random function (used where no table was recorded)."""

    def __init__(self, name, seed=0):
        self.h = abs(hash_str(name + str(seed)))

    def _w(self, n, m):
        rng = np.random.default_rng(self.h % (2**32))
        return rng.normal(size=(m, n)), rng.normal(size=(m,)), rng.normal(size=(m, n))

    def __call__(self, flat, m):
        W, b, V = self._w(len(flat), m)
        return np.sin(W @ flat + b) + 0.3 * (V @ flat)


class SmoothD:
    """Derivative of Smooth(name) at the argument, flattened row-major (m, n)."""

    def __init__(self, name, seed=0):
        self.f = Smooth(name, seed)

    def __call__(self, flat, mn):
        n = len(flat)
        m = mn // n
        W, b, V = self.f._w(n, m)
        return (np.cos(W @ flat + b)[:, None] * W + 0.3 * V).reshape(-1)


def hash_str(s):
    h = 1469598103934665603
    for ch in s.encode():
        h = ((h ^ ch) * 1099511628211) % (1 << 64)
    return h


def default_table(name, seed=0):
    if name.startswith("D:") and not name.startswith("D:D:"):
        return SmoothD(name[2:], seed)
    return Smooth(name, seed)


TABLES["*"] = default_table

"""C22: g2o files are read into the graph they describe."""
import contextlib
import importlib
import inspect
import os
import pathlib
import tempfile
import types

import jax
import jaxlie
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from jaxfg import geometry
from jsmt import scal as S
from jsmt.harness import HarnessError, In, Problem


class T:
    """A traced scalar that numpy treats as an opaque object."""

    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def astype(self, dtype):
        return self

    def __float__(self):
        raise HarnessError("a traced number was forced to a concrete one")

    def __neg__(self): return T(-self.x)
    def __pos__(self): return self


def _op(name):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return T(getattr(jnp.asarray(self.x), name)(o.x if isinstance(o, T) else o))
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow"):
    setattr(T, f"__{_n}__", _op(f"__{_n}__"))


def jaxed(x):
    """Traced scalars and object arrays of them as jax values."""
    if isinstance(x, T):
        return x.x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return jnp.stack([jnp.asarray(jaxed(v), dtype=float) for v in x.reshape(-1)]).reshape(x.shape)
    if type(x) in (list, tuple):
        return type(x)(jaxed(v) for v in x)
    if isinstance(x, jaxlie.MatrixLieGroup):
        return jax.tree_util.tree_map(jaxed, x)
    return x


class Text(np.ndarray):
    """An array of text fields, some of which stand for traced numbers."""

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind != "f":
            return np.asarray(self).astype(dtype, *a, **k)
        if self.size == 0:
            return np.zeros(self.shape)
        return np.vectorize(self.tokens.float, otypes=[object])(np.asarray(self))

    def __array_finalize__(self, other):
        self.tokens = getattr(other, "tokens", None)


def objects(x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = T(x[i])
    return out


def has_traced(x):
    if isinstance(x, (T, jax.core.Tracer)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_traced(v) for v in x.flat)
    return type(x) in (list, tuple) and any(has_traced(v) for v in x)


def holds_tracer(x):
    return isinstance(x, jax.core.Tracer) or type(x) in (list, tuple) and any(holds_tracer(v) for v in x)


class Converting:
    """A module whose functions accept object arrays of traced scalars."""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, n):
        v = getattr(self._mod, n)
        if isinstance(v, types.ModuleType):
            return Converting(v)
        return converting(v) if callable(v) and not isinstance(v, type) and not hasattr(v, "dtype") else v


def fields(init):
    def g(self, *a, **k):
        init(self, *[jaxed(v) for v in a], **{n: jaxed(v) for n, v in k.items()})
    return g


def converting(f):
    def g(*a, **k):
        return f(*[jaxed(v) for v in a], **{n: jaxed(v) for n, v in k.items()})
    return g


class Numpy:
    """numpy, with arrays that can hold traced scalars."""

    def __init__(self, tokens):
        self._tokens = tokens
        self.linalg = Linalg()
        self.float64 = self.double = Float(tokens)

    def __getattr__(self, n):
        v = getattr(np, n)
        return either(v, getattr(jnp, n, None)) if callable(v) and not isinstance(v, type) else v

    @staticmethod
    def _new(x):
        return x.astype(object) if x.dtype == np.float64 else x

    def zeros(self, *a, **k):
        return self._new(np.zeros(*a, **k))

    def ones(self, *a, **k):
        return self._new(np.ones(*a, **k))

    def eye(self, *a, **k):
        return self._new(np.eye(*a, **k))

    def empty(self, *a, **k):
        return self._new(np.zeros(*a, **k))

    def array(self, x, dtype=None, **k):
        if holds_tracer(x):
            x = jax.tree_util.tree_map(lambda v: objects(v) if isinstance(v, jax.core.Tracer) and v.ndim else T(v) if isinstance(v, jax.core.Tracer) else v, x)
        x = np.array(x, **k)
        if x.dtype.kind in "US":
            x = x.view(Text)
            x.tokens = self._tokens
            return x if dtype is None else x.astype(dtype)
        return x if x.dtype == object or dtype is None else x.astype(dtype)

    asarray = array


def either(f, g):
    """numpy's f, or jax's g on arrays that hold traced numbers (where numpy itself has no answer for objects)."""
    def run(*a, **k):
        if g is not None and any(holds_tracer(v) for v in list(a) + list(k.values())):
            return g(*[jaxed(v) for v in a], **{n: jaxed(v) for n, v in k.items()})
        try:
            return f(*a, **k)
        except TypeError:
            if g is None or not any(has_traced(v) for v in list(a) + list(k.values())):
                raise
            return objects(jnp.asarray(g(*[jaxed(v) for v in a], **{n: jaxed(v) for n, v in k.items()})))
    return run


class Linalg:
    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        return either(v, getattr(jnp.linalg, n, None)) if callable(v) and not isinstance(v, type) else v

    @staticmethod
    def cholesky(A):
        A = objects(A) if isinstance(A, jax.core.Tracer) else np.asarray(A)
        if A.dtype != object:
            return np.linalg.cholesky(A)
        n = len(A)  # numpy reads the lower triangle
        A = jaxed(np.array([[A[max(i, j), min(i, j)] for j in range(n)] for i in range(n)], dtype=object))
        return objects(jnp.linalg.cholesky(A))


class Tokens:
    def __init__(self, values):
        self.values = values

    def float(self, s=0.0):
        if isinstance(s, T):
            return s
        key = str(s).strip()
        return T(self.values[key]) if key in self.values else float(s)


class Float:
    """The type float, read through the tokens (numpy takes it for a dtype by its attribute)."""

    dtype = np.dtype(np.float64)

    def __init__(self, tokens):
        self.tokens = tokens

    def __call__(self, x=0.0):
        if isinstance(x, (T, str)) or not np.ndim(x):
            return self.tokens.float(x)
        return np.asarray(x).astype(float)


@contextlib.contextmanager
def traced(mod, values):
    """The parser module with numbers read as traced scalars."""
    tok = Tokens(values)
    with contextlib.ExitStack() as st:
        def put(obj, name, value):
            had, old = name in vars(obj), vars(obj).get(name)
            setattr(obj, name, value)
            st.callback(lambda: setattr(obj, name, old) if had else delattr(obj, name))

        for n, v in list(vars(mod).items()):
            if v is np:
                put(mod, n, Numpy(tok))
            elif v is jnp or v is jnp.linalg:
                put(mod, n, Converting(v))
        put(mod, "float", Float(tok))
        for cls in (jaxlie.SO2, jaxlie.SE2, jaxlie.SO3, jaxlie.SE3):
            for n in dir(cls):
                if n.startswith("from_") or n in ("exp",):
                    put(cls, n, staticmethod(converting(getattr(cls, n))))
            put(cls, "__init__", fields(cls.__init__))
        for n in ("array", "asarray", "stack", "concatenate"):
            put(jnp, n, converting(getattr(jnp, n)))
        yield


NV, NE = dict(SE2=3, SE3=7), dict(SE2=3, SE3=7)
DIM = dict(SE2=3, SE3=6)
VAR = dict(SE2=geometry.SE2Variable, SE3=geometry.SE3Variable)


class Parse(Problem):
    functions = ("parse_g2o", "BetweenFactor.make", "PriorFactor.make", "Gaussian.whiten_jacobian")

    def __init__(self, case):
        self.g, self.lines = case["group"], case["lines"]
        self.n = sum(1 for l in self.lines if l[0] == "v")
        self.edges = [tuple(l[1:]) for l in self.lines if l[0] == "e"]
        self.sep = case.get("sep", " ")
        self.bounds = f"{self.g}: {self.n} vertices, edges {self.edges}"
        self.axioms = lambda ctx: setattr(ctx, "cholesky_contract", True)

    def inputs(self):
        d, m = {}, DIM[self.g]
        for i in range(self.n):
            d[f"v{i}"] = In((NV[self.g],))
        for k in range(len(self.edges)):
            d[f"e{k}"] = In((NE[self.g],))
            d[f"d{k}"] = In((m,), sample=lambda r: r.uniform(4, 9))
            d[f"o{k}"] = In((m * (m - 1) // 2,), sample=lambda r: r.uniform(-0.6, 0.6))
        return d

    def info(self, inp, k):
        """The information matrix: upper triangle as listed in the file, row by row."""
        m = DIM[self.g]
        A = np.empty((m, m), dtype=object)
        off = iter(inp[f"o{k}"])
        for i in range(m):
            A[i, i] = inp[f"d{k}"][i]
            for j in range(i + 1, m):
                A[i, j] = A[j, i] = next(off)
        return A

    def assume(self, h, inp):
        if h.symbolic:  # (the contract of the Cholesky factorization implies it)
            return [inp[f"d{k}"][i].v > 0 for k in range(len(self.edges)) for i in range(DIM[self.g])]
        return [np.linalg.eigvalsh(self.info(inp, k).astype(float)).min() > 1e-6 for k in range(len(self.edges))]

    def real(self, **kw):
        mod = importlib.import_module("_g2o_utils")
        tracing = any(isinstance(v, jax.core.Tracer) for v in kw.values())
        values = {}

        def field(x):
            if tracing:
                t = f"{len(values) + 1}.0{len(values) + 1:04d}1"
                values[t] = x
                return t
            return repr(float(x))

        out, iv, ie = [], 0, 0
        m = DIM[self.g]
        for l in self.lines:
            if l[0] == "v":
                out.append([dict(SE2="VERTEX_SE2", SE3="VERTEX_SE3:QUAT")[self.g], str(iv)] + [field(x) for x in kw[f"v{iv}"]])
                iv += 1
            else:
                up, off = [], iter(kw[f"o{ie}"])
                for i in range(m):
                    up.append(kw[f"d{ie}"][i])
                    up += [next(off) for _ in range(i + 1, m)]
                out.append([dict(SE2="EDGE_SE2", SE3="EDGE_SE3:QUAT")[self.g], str(l[1]), str(l[2])]
                           + [field(x) for x in kw[f"e{ie}"]] + [field(x) for x in up])
                ie += 1
        with tempfile.TemporaryDirectory() as d, open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
            path = pathlib.Path(d) / "graph.g2o"
            path.write_text("".join(self.sep.join(l) + "\n" for l in out))
            with traced(mod, values) if tracing else contextlib.nullcontext():
                data = mod.parse_g2o(path)
        vs = list(data.initial_poses)
        assert [type(v) for v in vs] == [VAR[self.g]] * self.n, vs
        priors = [f for f in data.factors if isinstance(f, geometry.PriorFactor)]
        betw = [f for f in data.factors if isinstance(f, geometry.BetweenFactor)]
        assert len(priors) == 1 and len(betw) == len(self.edges) and len(data.factors) == len(self.edges) + 1, data.factors
        assert len(priors[0].variables) == 1 and priors[0].variables[0] is vs[0], "prior is not on the first pose"
        left, order = list(betw), []
        for a, b in self.edges:
            hit = [f for f in left if len(f.variables) == 2 and f.variables[0] is vs[a] and f.variables[1] is vs[b]]
            assert hit, f"no factor from vertex {a} to vertex {b}"
            order.append(hit[0])
            left.__delitem__([f is hit[0] for f in left].index(True))
        num = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(jaxed(x), dtype=float), t)
        G = jaxlie.SE2 if self.g == "SE2" else jaxlie.SE3
        res = dict(pose=[], rel=[], precision=[], prior=None)
        for v in vs:
            x = data.initial_poses[v]
            assert type(x) is G
            res["pose"].append(num(x).parameters())
        for f in order:
            assert type(f.T_a_b) is G
            res["rel"].append(num(f.T_a_b).parameters())
            Sq = num(f.noise_model).whiten_jacobian(jnp.eye(m), jnp.zeros(m))
            res["precision"].append(Sq.T @ Sq)
        res["prior"] = num(priors[0].mu).parameters()
        res["anchor"] = jnp.linalg.norm(num(priors[0].noise_model).whiten_jacobian(jnp.eye(m), jnp.zeros(m)), axis=0) > 1e-3
        return res

    def pose(self, x):
        """Parameters of the pose listed as x y theta, or x y z qx qy qz qw."""
        if self.g == "SE2":
            return np.array([S.math_uf("cos", x[2]), S.math_uf("sin", x[2]), x[0], x[1]], dtype=object)
        return np.array([x[6], x[3], x[4], x[5], x[0], x[1], x[2]], dtype=object)

    def post(self, h, inp, out):
        for i in range(self.n):
            h.eq(f"initial pose of vertex {i}", out["pose"][i], self.pose(inp[f"v{i}"]))
        for k in range(len(self.edges)):
            h.eq(f"measurement of edge {k}", out["rel"][k], self.pose(inp[f"e{k}"]))
            h.eq(f"precision of edge {k}", out["precision"][k], self.info(inp, k))
        h.eq("prior on the first pose", out["prior"], self.pose(inp["v0"]))
        h.eq("prior holds every direction", out["anchor"], np.array([True] * DIM[self.g], dtype=object))


run, replay = make_runner(dict(parse=Parse))

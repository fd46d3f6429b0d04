"""Contract stubs for FFI used by the host Python under symbolic execution."""
import contextlib
import itertools
import sys

import numpy as np
import scipy.sparse

from jsmt import scal as S
from jsmt.pyexec import Sym, cur, un


class CooStub:
    """scipy.sparse.coo_matrix on symbolic data: a container of triplets."""

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        data, (row, col) = arg
        self.data, self.row, self.col = np.asarray(data), np.asarray(row), np.asarray(col)
        assert self.data.shape == self.row.shape == self.col.shape
        self.shape = tuple(shape)

    def transpose(self):
        return CooStub((self.data, (self.col, self.row)), shape=self.shape[::-1])

    T = property(transpose)

    def tocoo(self, copy=False):
        return self

    def tocsc(self, copy=False):
        return self

    def tocsr(self, copy=False):
        return self

    def copy(self):
        return CooStub((self.data.copy(), (self.row.copy(), self.col.copy())), shape=self.shape)

    def nonzero(self):
        keep = [bool(d != 0) for d in self.data]
        return self.row[keep], self.col[keep]

    nnz = property(lambda self: len(self.data))
    coords = property(lambda self: (self.row, self.col))
    ndim = 2

    def toarray(self):
        out = np.empty(self.shape, dtype=object)
        out[...] = 0
        for r, c, d in zip(self.row, self.col, self.data):
            out[int(r), int(c)] = out[int(r), int(c)] + d
        return out

    todense = toarray


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def patched_scipy():
    return patched(scipy.sparse, coo_matrix=CooStub, coo_array=CooStub)


@contextlib.contextmanager
def patched_everywhere(module, name, new):
    """Replaces a library function, also where jaxfg modules have imported it by name."""
    old = getattr(module, name)
    places = [(module, name)]
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("jaxfg"):
            places += [(m, k) for k, v in list(vars(m).items()) if v is old]
    try:
        for m, k in places:
            setattr(m, k, new)
        yield
    finally:
        for m, k in places:
            setattr(m, k, old)


def dense(A):
    return np.asarray(A.toarray(), dtype=object)


class CscStub:
    """scipy.sparse.csc_matrix on symbolic data (read only); structural zeros are not stored."""

    def __init__(self, D):
        self.D = np.asarray(D, dtype=object)
        self.shape = self.D.shape
        self.indices, self.data, self.indptr = [], [], [0]
        for j in range(self.shape[1]):
            for i in range(self.shape[0]):
                if not (isinstance(self.D[i, j], (int, float)) and self.D[i, j] == 0):
                    self.indices.append(i)
                    self.data.append(self.D[i, j])
            self.indptr.append(len(self.indices))
        self.indices, self.indptr = np.array(self.indices, dtype=int), np.array(self.indptr)
        data = np.empty(len(self.data), dtype=object)
        data[:] = self.data
        self.data = data
        self.nnz = len(data)

    def diagonal(self):
        return np.array([self.D[i, i] for i in range(min(self.shape))], dtype=object)

    def todense(self):
        return self.D.copy()

    toarray = todense

    def getcol(self, j):
        return CscStub(self.D[:, j:j + 1])

    def getrow(self, i):
        return CscStub(self.D[i:i + 1, :])

    def transpose(self):
        return CscStub(self.D.T)

    T = property(transpose)

    def tocsc(self, copy=False):
        return self

    def tocoo(self, copy=False):
        cols = np.repeat(np.arange(self.shape[1]), np.diff(self.indptr))
        return CooStub((self.data, (self.indices, cols)), shape=self.shape)

    def nonzero(self):
        c = self.tocoo()
        return c.row, c.col

    def __getitem__(self, key):
        r = self.D[key]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r.reshape((1, -1)) if not isinstance(key[0], slice) else r.reshape((-1, 1))
            return CscStub(r)
        return r


class FactorStub:
    """sksparse.cholmod.Factor by its contract: the factorization last computed is that of the given matrix
    (A A' + beta I, or A + beta I), whatever pattern was analyzed before."""

    def __init__(self, M=None, natural=True, lower=None):
        self.M, self.natural, self.lower = M, natural, lower

    def P(self):
        """The fill-reducing permutation: any, unless the natural order was asked for."""
        if not hasattr(self, "perm"):
            n = len(self.M)
            perms = [list(range(n))] if self.natural else list(itertools.permutations(range(n)))
            self.perm = list(perms[cur().choose(len(perms)) if len(perms) > 1 else 0])
        return np.array(self.perm)

    def L(self):
        """Lower triangular with positive diagonal and L L' = P M P'."""
        p, n = self.P(), len(self.M)
        if self.lower is not None and list(p) == list(range(n)):
            return CscStub(self.lower)
        c = S.ctx()
        L = np.zeros((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = Sym(S.R(c.fresh("l")))
        xs = [S.tz(L[i, j].r.v) for i in range(n) for j in range(i + 1)]
        for i in range(n):
            c.define(xs, S.tz(L[i, i].r.v) > 0)
            for j in range(i + 1):
                t = 0
                for k in range(j + 1):
                    t = t + L[i, k] * L[j, k]
                c.define(xs, S.tz(S.rr(un(t)).v) == S.tz(S.rr(un(self.M[p[i], p[j]])).v))
        return CscStub(L)

    @staticmethod
    def factor_of(A, beta, natural, positive):
        """Factor of A A' + beta I; if A is itself lower triangular with positive diagonal it is the factor."""
        D = dense(A)
        lower = None
        if isinstance(beta, (int, float)) and beta == 0 and D.shape[0] == D.shape[1]:
            zero = lambda x: isinstance(x, (int, float)) and x == 0  # noqa: E731
            if all(zero(D[i, j]) for i in range(len(D)) for j in range(i + 1, len(D))) and all(
                    isinstance(D[i, i], Sym) and any(S.tz(D[i, i].r.v).eq(q) for q in positive) for i in range(len(D))):
                lower = D
        return FactorStub(FactorStub.outer(A, beta), natural, lower)

    @staticmethod
    def outer(A, beta):
        A = dense(A)
        m, n = A.shape
        M = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                t = beta if i == j else 0
                for k in range(n):
                    t = t + A[i, k] * A[j, k]
                M[i, j] = t
        return M

    @staticmethod
    def shifted(A, beta):
        M = dense(A)
        for i in range(M.shape[0]):
            M[i, i] = M[i, i] + beta
        return M

    def cholesky_AAt_inplace(self, A, beta=0):
        self.M = self.outer(A, beta)

    def cholesky_inplace(self, A, beta=0):
        self.M = self.shifted(A, beta)

    def cholesky_AAt(self, A, beta=0):
        return FactorStub(self.outer(A, beta))

    def cholesky(self, A, beta=0):
        return FactorStub(self.shifted(A, beta))

    def copy(self):
        return FactorStub(self.M)

    def solve_A(self, b):
        """The x with M x = b (M is positive definite for positive beta)."""
        if self.M is None:
            raise RuntimeError("not factorized")
        b = np.asarray(b, dtype=object)
        c = S.ctx()
        xs = [c.fresh("x") for _ in b]
        for i in range(len(b)):
            lhs = S.rr(0)
            for j, x in enumerate(xs):
                lhs = S.add(lhs, S.mul(un(self.M[i, j]), S.R(x)))
            c.define(xs, S.tz(lhs.v) == S.tz(S.rr(un(b[i])).v))
        return np.array([Sym(S.R(x)) for x in xs], dtype=object)

    __call__ = solve_A


def inverse(A):
    """The X with A X = I (A invertible)."""
    A = np.asarray(A, dtype=object)
    n = len(A)
    c = S.ctx()
    X = np.empty((n, n), dtype=object)
    for i in np.ndindex(n, n):
        X[i] = Sym(S.R(c.fresh("inv")))
    low = all(isinstance(A[i, j], (int, float)) and A[i, j] == 0 for i in range(n) for j in range(i + 1, n))
    if low:  # forward substitution
        for j in range(n):
            for i in range(n):
                t = 1 if i == j else 0
                for k in range(i):
                    t = t - A[i, k] * X[k, j]
                X[i, j] = 0 if isinstance(t, (int, float)) and t == 0 else t / A[i, i]
        return X
    xs = [S.tz(x.r.v) for x in X.flat]
    for i in range(n):
        for j in range(n):
            t = 0
            for k in range(n):
                t = t + A[i, k] * X[k, j]
            c.define(xs, S.tz(S.rr(un(t)).v) == (1 if i == j else 0))
    return X


@contextlib.contextmanager
def patched_numpy():
    """Arrays of symbols; inverses of them by contract."""
    zeros, empty, inv = np.zeros, np.empty, np.linalg.inv

    def new(old):
        def make(shape, dtype=float, *a, **k):
            if dtype in (float, np.float64, np.float32, None):
                out = np.full(shape, 0, dtype=object)
                return out
            return old(shape, dtype, *a, **k)
        return make

    with patched(np, zeros=new(zeros), empty=new(empty)), patched(
            np.linalg, inv=lambda A: inverse(A) if np.asarray(A).dtype == object else inv(A)):
        yield


@contextlib.contextmanager
def patched_cholmod(positive=()):
    """Host callbacks run directly; CHOLMOD and scipy matrices by contract."""
    import jax
    import jax.experimental.host_callback as hcb
    import sksparse.cholmod as ch

    def callback(f, shape, *a, **kw):
        return f(*a)

    with contextlib.ExitStack() as st:
        st.enter_context(patched_scipy())
        st.enter_context(patched_everywhere(hcb, "call", lambda f, arg, result_shape=None, **kw: f(arg)))
        st.enter_context(patched_everywhere(jax, "pure_callback", callback))
        for name, fn in dict(analyze_AAt=lambda A, *a, **k: FactorStub(), analyze=lambda A, *a, **k: FactorStub(),
                             cholesky_AAt=lambda A, beta=0, mode="auto", ordering_method="default", use_long=None:
                             FactorStub.factor_of(A, beta, ordering_method == "natural", positive),
                             cholesky=lambda A, beta=0, *a, **k: FactorStub(FactorStub.shifted(A, beta))).items():
            st.enter_context(patched_everywhere(ch, name, fn))
        yield

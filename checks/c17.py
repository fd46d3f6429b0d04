"""C17: marginal covariances are blocks of the inverse information matrix."""
import contextlib

import numpy as np

import jaxfg
from checks.common import make_runner
from checks.graphs import LDIM, VT
from checks.stubs import patched_cholmod, patched_numpy
from jaxfg import sparse
from jaxfg.core import StorageLayout
from jsmt import scal as S
from jsmt.harness import In
from jsmt.pyexec import PyProblem, rs


class LinearGraph:
    """A graph given by its whitened Jacobian."""

    def __init__(self, A, layout):
        self.A, self.local_storage_layout = A, layout
        self.seen = []

    def compute_whitened_residual_vector(self, assignments):
        return ("residual", assignments)

    def compute_cost(self, assignments):
        return ("cost", assignments), ("residual", assignments)

    def compute_whitened_residual_jacobian(self, assignments, residual_vector):
        self.seen.append((assignments, residual_vector))
        return self.A


class Covariance(PyProblem):
    functions = ("SparseCovariance.make", "SparseCovariance.compute_marginal", "SparseCovariance.as_dense",
                 "SparseCovariance.__getitem__", "SparseCovariance._sum_over_col", "SparseCooMatrix.T",
                 "SparseCooMatrix.as_scipy_coo_matrix")

    def __init__(self, case):
        self.types = case["types"]
        self.variables = [VT[t]() for t in self.types]
        self.layout = StorageLayout.make(self.variables, local=True)
        self.n = self.layout.dim
        self.queries = case["queries"]
        # upper triangular Jacobian with positive diagonal: every information matrix has this form
        self.pos = [(i, j) for i in range(self.n) for j in range(i, self.n) if [i, j] not in case.get("zeros", [])]
        if case.get("reverse"):
            self.pos = self.pos[::-1]
        self.bounds = f"variables {self.types}, {self.n} unknowns, entries {self.pos}, queries {self.queries}"

    def inputs(self):
        return dict(vals=In((len(self.pos),), sample=lambda r: r.uniform(0.5, 2)))

    def assume(self, h, inp):
        return [S.lt(h.const(0.0), v) for v, (i, j) in zip(inp["vals"], self.pos) if i == j]

    def host(self, inp, sym):
        rows, cols = np.array([p[0] for p in self.pos]), np.array([p[1] for p in self.pos])
        A = sparse.SparseCooMatrix(values=inp["vals"], coords=sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=(self.n, self.n))
        out = []
        with contextlib.ExitStack() as st:
            if sym:
                positive = [S.tz(v.r.v) for v, (i, j) in zip(inp["vals"], self.pos) if i == j]
                st.enter_context(patched_cholmod(positive))
                st.enter_context(patched_numpy())
            graph = LinearGraph(A, self.layout)
            point = object()
            cov = jaxfg.experimental.SparseCovariance.make(graph, point)
            self.point_ok = all(a is point and r == ("residual", point) for a, r in graph.seen)
            for q in self.queries:
                if q == "dense":
                    out.append(cov.as_dense())
                elif q == "entries":
                    out.append(cov.as_dense(use_inverse=False))
                else:
                    out.append(cov.compute_marginal(*[self.variables[v] for v in q]))
        return [np.asarray(o, dtype=object) for o in out]

    def reference(self, h, inp):
        """(A'A)^-1 by substitution in the triangular Jacobian."""
        n = self.n
        U = np.full((n, n), None, dtype=object)
        for i in np.ndindex(n, n):
            U[i] = h.const(0.0)
        for v, p in zip(inp["vals"], self.pos):
            U[p] = v
        X = np.full((n, n), None, dtype=object)  # U X = I
        for j in range(n):
            for i in reversed(range(n)):
                t = h.const(1.0 if i == j else 0.0)
                for k in range(i + 1, n):
                    t = S.sub(t, S.mul(U[i, k], X[k, j]))
                X[i, j] = S.div(t, U[i, i])
        C = np.full((n, n), None, dtype=object)
        for i in np.ndindex(n, n):
            t = h.const(0.0)
            for k in range(n):
                t = S.add(t, S.mul(X[i[0], k], X[i[1], k]))
            C[i] = t
        return C

    def post(self, h, inp, out):
        if not self.point_ok:
            h.bad("linearized elsewhere")
        C = self.reference(h, inp)
        for q, got in zip(self.queries, out):
            idx = range(self.n)
            if q not in ("dense", "entries"):
                idx = []
                for v in q:
                    o = self.layout.index_from_variable[self.variables[v]]
                    idx += range(o, o + LDIM[self.types[v]])
            exp = C[np.ix_(idx, idx)]
            got = rs(got) if h.symbolic else np.vectorize(np.float64, otypes=[object])(got)
            if h.symbolic and got.shape == exp.shape:
                for i in np.ndindex(*got.shape):
                    h.propose_zero(S.sub(got[i], exp[i]))
            h.eq(f"query {q}", got, exp)


run, replay = make_runner(dict(cov=Covariance))

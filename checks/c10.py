"""C10: every view of a sparse matrix denotes the same linear map."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from jsmt import scal as S
from jsmt.harness import In, Problem
from jsmt.pyexec import PyProblem, Sym, rs, un
from jaxfg import sparse


def dense_model(h, m, n, rows, cols, vals):
    D = np.empty((m, n), dtype=object)
    for i in range(m):
        for j in range(n):
            t = h.const(0)
            for k in range(len(vals)):
                hit = S.And(S.feq(rows[k], i), S.feq(cols[k], j))
                t = S.ite(hit, S.add(t, vals[k]), t)
            D[i, j] = t
    return D


def matvec(h, m, n, rows, cols, vals, x):
    """sum over stored entries of value * x[col], per row (linear in the products)."""
    out = np.empty(m, dtype=object)
    for i in range(m):
        t = h.const(0)
        for k in range(len(vals)):
            for j in range(n):
                hit = S.And(S.feq(rows[k], i), S.feq(cols[k], j))
                t = S.add(t, S.ite(hit, S.mul(vals[k], x[j]), h.const(0)))
        out[i] = t
    return out


class Views(Problem):
    push_mul = True
    functions = ("SparseCooMatrix.__matmul__", "SparseCooMatrix.T", "SparseCooMatrix.as_dense")

    def __init__(self, case):
        self.m, self.n, self.k = case["m"], case["n"], case["nnz"]
        self.intvec = case["kind"] == "intvec"
        self.bounds = f"{self.m}x{self.n}, {self.k} entries, all coordinates"

    def inputs(self):
        m, n, k = self.m, self.n, self.k
        vec = dict(kind="int", lo=-3, hi=3) if self.intvec else {}
        return dict(rows=In((k,), "int", lo=0, hi=m - 1), cols=In((k,), "int", lo=0, hi=n - 1), vals=In((k,)),
                    x=In((n,), **vec), y=In((m,), **vec))

    def real(self, rows, cols, vals, x, y):
        A = sparse.SparseCooMatrix(values=vals, coords=sparse.SparseCooCoordinates(rows=rows, cols=cols),
                                   shape=(self.m, self.n))
        out = dict(Ax=A @ x, ATy=A.T @ y, ATTx=A.T.T @ x)
        if not self.intvec:
            out.update(dense=A.as_dense(), denseT=A.T.as_dense(), denseTT=A.T.T.as_dense())
        return out

    def post(self, h, inp, out):
        D = dense_model(h, self.m, self.n, inp["rows"], inp["cols"], inp["vals"])
        r, c, v = inp["rows"], inp["cols"], inp["vals"]
        h.eq("A@x", out["Ax"], matvec(h, self.m, self.n, r, c, v, inp["x"]))
        h.eq("A.T@y", out["ATy"], matvec(h, self.n, self.m, c, r, v, inp["y"]))
        h.eq("A.T.T@x", out["ATTx"], matvec(h, self.m, self.n, r, c, v, inp["x"]))
        if not self.intvec:
            h.eq("dense(A)", out["dense"], D)
            h.eq("dense(A.T)", out["denseT"], D.T)
            h.eq("dense(A.T.T)", out["denseTT"], D)
        if self.k >= 2 and h.symbolic:
            h.reach("repeated coordinate", S.And(S.feq(inp["rows"][0], inp["rows"][1]), S.feq(inp["cols"][0], inp["cols"][1])))


class Scipy(PyProblem):
    functions = ("SparseCooMatrix.as_scipy_coo_matrix", "SparseCooMatrix.from_scipy_coo_matrix", "SparseCooMatrix.T")

    def __init__(self, case):
        self.m, self.n, self.k = case["m"], case["n"], case["nnz"]
        self.bounds = f"{self.m}x{self.n}, {self.k} entries, all coordinates"

    def inputs(self):
        m, n, k = self.m, self.n, self.k
        return dict(rows=In((k,), "int", lo=0, hi=m - 1), cols=In((k,), "int", lo=0, hi=n - 1), vals=In((k,)))

    def host(self, inp, sym):
        from checks.stubs import CooStub, patched_scipy
        import scipy.sparse

        def views(coo):
            r, c, d = coo.row, coo.col, coo.data
            return dict(rows=np.asarray(r), cols=np.asarray(c), vals=np.asarray(d), shape=tuple(coo.shape))

        A = sparse.SparseCooMatrix(values=inp["vals"], coords=sparse.SparseCooCoordinates(rows=inp["rows"], cols=inp["cols"]),
                                   shape=(self.m, self.n))
        if sym:
            with patched_scipy():
                a, at = A.as_scipy_coo_matrix(), A.T.as_scipy_coo_matrix()
                B = sparse.SparseCooMatrix.from_scipy_coo_matrix(CooStub((inp["vals"], (inp["rows"], inp["cols"])), shape=(self.m, self.n)))
        else:
            a, at = A.as_scipy_coo_matrix(), A.T.as_scipy_coo_matrix()
            B = sparse.SparseCooMatrix.from_scipy_coo_matrix(
                scipy.sparse.coo_matrix((inp["vals"], (inp["rows"], inp["cols"])), shape=(self.m, self.n)))
        b = dict(rows=np.asarray(B.coords.rows), cols=np.asarray(B.coords.cols), vals=np.asarray(B.values), shape=tuple(B.shape))
        return dict(a=views(a), at=views(at), b=b)

    def post(self, h, inp, out):
        D = dense_model(h, self.m, self.n, inp["rows"], inp["cols"], inp["vals"])
        for key, M in (("a", D), ("at", D.T), ("b", D)):
            o = out[key]
            if o["shape"] != M.shape:
                h.bad(f"{key}: shape {o['shape']} != {M.shape}")
                continue
            conv = rs if h.symbolic else (lambda a: np.asarray(a, dtype=object))
            G = dense_model(h, M.shape[0], M.shape[1], conv(o["rows"]), conv(o["cols"]), conv(o["vals"]))
            h.eq({"a": "to scipy", "at": "transpose to scipy", "b": "from scipy"}[key], G, M)


run, replay = make_runner(dict(views=Views, intvec=Views, scipy=Scipy))

"""C11: linear subproblem solvers solve the damped normal equations they are given."""
import contextlib

import jax
import jax.scipy.sparse.linalg
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from checks.solverlib import sumsq, vsum
from checks.stubs import patched_cholmod, patched_everywhere
from jaxfg import sparse
from jsmt import scal as S
from jsmt.harness import HarnessError, In, Problem
from jsmt.havoc import call
from jsmt.pyexec import PyProblem, rs


class Cg(Problem):
    functions = ("_ConjugateGradientSolver.solve_subproblem", "ConjugateGradientSolver._get_cg_tolerance",
                 "InexactStepConjugateGradientSolver._get_cg_tolerance", "SparseCooMatrix.T/__matmul__", "jax.scipy.sparse.linalg.cg")
    forking = True
    budget = 60.0

    def __init__(self, case):
        self.case = case
        self.m, self.n = case["m"], case["n"]
        self.pos = [tuple(p) for p in case.get("pos", ())] or [(i, j) for i in range(self.m) for j in range(self.n)]
        self.unwind = self.n
        self.inexact = case["solver"] == "inexact"
        self.bounds = f"{case['solver']}, {self.m}x{self.n}, entries {self.pos}"

    def inputs(self):
        d = dict(vals=In((len(self.pos),)), b=In((self.n,)), lam=In((), sample=lambda r: r.choice([0.0, 0.1, 1.5])),
                 tol=In((), sample=lambda r: r.choice([0.5, 0.1, 1e-3])))
        if self.inexact:
            d["iteration"] = In((), "int", lo=0, hi=3)
        return d

    def matrix(self, h, inp):
        A = np.empty((self.m, self.n), dtype=object)
        for i in np.ndindex(*A.shape):
            A[i] = h.const(0.0)
        for v, p in zip(inp["vals"], self.pos):
            A[p] = v
        M = np.empty((self.n, self.n), dtype=object)
        for i in range(self.n):
            for j in range(self.n):
                M[i, j] = vsum(h, [S.mul(A[k, i], A[k, j]) for k in range(self.m)])
        lam = inp["lam"].item()
        for i in range(self.n):
            M[i, i] = S.mul(M[i, i], S.add(h.const(1.0), lam))
        return A, M

    def assume(self, h, inp):
        A, M = self.matrix(h, inp)
        z = h.const(0.0)
        out = [S.le(z, inp["lam"].item()), S.lt(z, inp["tol"].item())]
        out += [S.lt(z, sumsq(h, A[:, j])) for j in range(self.n)]
        if self.n == 2:
            out.append(S.lt(z, S.sub(S.mul(M[0, 0], M[1, 1]), S.mul(M[0, 1], M[1, 0]))))
        return out

    def real(self, vals, b, lam, tol, iteration=0):
        rows, cols = np.array([p[0] for p in self.pos]), np.array([p[1] for p in self.pos])
        A = sparse.SparseCooMatrix(values=vals, coords=sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=(self.m, self.n))
        if self.inexact:
            solver = sparse.InexactStepConjugateGradientSolver(inexact_step_eta=tol)
        else:
            solver = sparse.ConjugateGradientSolver(tolerance=tol)
        return dict(x=solver.solve_subproblem(A=A, ATb=b, lambd=lam, iteration=iteration))

    def post(self, h, inp, out):
        A, M = self.matrix(h, inp)
        x = out["x"]
        if x.shape != (self.n,):
            h.bad(f"solution of shape {x.shape}")
            return
        tol = inp["tol"].item()
        if self.inexact:
            tol = S.div(tol, S.add(inp["iteration"].item(), h.const(1.0)))
        res = [S.sub(b, vsum(h, [S.mul(M[i, j], x[j]) for j in range(self.n)])) for i, b in enumerate(inp["b"])]
        if h.symbolic:
            for r in res:
                h.propose_zero(r)
        bound = S.mul(S.mul(tol, tol), sumsq(h, inp["b"]))
        h.le("residual", sumsq(h, res), bound)


class CgContract(Cg):
    """The call of jax.scipy.sparse.linalg.cg: operator, right-hand side, stopping rule, iteration limit, preconditioner.

    `cg` itself is a library function with the contract: for a positive definite operator and preconditioner it stops with
    |b - A x| <= max(tol |b|, atol) or after `maxiter` iterations, and n iterations give the exact solution."""

    forking = False

    def inputs(self):
        return dict(super().inputs(), y=In((self.n,)))

    def real(self, vals, b, lam, tol, y, iteration=0):
        seen = []

        def cg(A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None):
            x = call("cg", b.shape, b)
            op = (lambda v: jnp.asarray(A) @ v) if not callable(A) else A
            pre = (lambda v: v) if M is None else M if callable(M) else (lambda v: jnp.asarray(M) @ v)
            seen.append(dict(Ay=op(y), b=b, My=pre(y), tol=jnp.asarray(tol, dtype=float), atol=jnp.asarray(atol, dtype=float), x=x))
            self.maxiter = maxiter
            return x, None

        with patched_everywhere(jax.scipy.sparse.linalg, "cg", cg):
            x = super().real(vals, b, lam, tol, iteration)["x"]
        self.called = len(seen)
        return dict(x=x, calls=seen)

    def post(self, h, inp, out):
        if not self.called:
            raise HarnessError("the solver does not call jax.scipy.sparse.linalg.cg")
        A, M = self.matrix(h, inp)
        if self.called != 1:
            h.bad(f"cg called {self.called} times")
            return
        (c,) = out["calls"]
        n = self.n
        h.eq("operator", c["Ay"], np.array([vsum(h, [S.mul(M[i, j], inp["y"][j]) for j in range(n)]) for i in range(n)], dtype=object))
        h.eq("right-hand side", c["b"], inp["b"])
        h.eq("solution returned", out["x"], c["x"])
        tol = inp["tol"].item()
        if self.inexact:
            tol = S.div(tol, S.add(inp["iteration"].item(), h.const(1.0)))
        bb = sumsq(h, inp["b"])
        t, a = c["tol"].item(), c["atol"].item()
        h.eq("stopping threshold", S.maxv(S.mul(S.mul(t, t), bb), S.mul(a, a)), S.mul(S.mul(tol, tol), bb))
        if self.maxiter is not None and self.maxiter < n:
            h.bad(f"stops after {self.maxiter} iterations")
        if n <= 2:
            yy = vsum(h, [S.mul(p, q) for p, q in zip(inp["y"], c["My"])])
            h.holds("preconditioner positive", S.Or(S.feq(sumsq(h, inp["y"]), h.const(0.0)), S.lt(h.const(0.0), yy)))


class Cholmod(PyProblem):
    """One solver object solves one or two systems; CHOLMOD itself is a contract (see checks/stubs.py)."""

    functions = ("CholmodSolver.solve_subproblem", "SparseCooMatrix.T", "SparseCooMatrix.as_scipy_coo_matrix")

    def __init__(self, case):
        self.m, self.n = case["m"], case["n"]
        self.systems = [[tuple(p) for p in s] for s in case["systems"]]
        self.bounds = f"{self.m}x{self.n}, systems {self.systems}"

    def inputs(self):
        d = {}
        for k, pos in enumerate(self.systems):
            d[f"vals{k}"] = In((len(pos),))
            d[f"b{k}"] = In((self.n,))
            d[f"lam{k}"] = In((), sample=lambda r: r.choice([0.0, 0.1, 1.5]))
        return d

    def assume(self, h, inp):
        return [S.le(h.const(0.0), inp[f"lam{k}"].item()) for k in range(len(self.systems))]

    def host(self, inp, sym):
        solver = sparse.CholmodSolver()
        out = []
        with patched_cholmod() if sym else contextlib.nullcontext():
            for k, pos in enumerate(self.systems):
                rows, cols = np.array([p[0] for p in pos]), np.array([p[1] for p in pos])
                A = sparse.SparseCooMatrix(values=inp[f"vals{k}"], coords=sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=(self.m, self.n))
                b, lam = inp[f"b{k}"], inp[f"lam{k}"].item()
                if not sym:
                    b = jnp.asarray(b)
                out.append(np.asarray(solver.solve_subproblem(A=A, ATb=b, lambd=lam, iteration=k), dtype=object))
        return out

    def post(self, h, inp, out):
        h.rtol = 1e-4
        for k, (pos, x) in enumerate(zip(self.systems, out)):
            if x.shape != (self.n,):
                h.bad(f"system {k}: solution of shape {x.shape}")
                continue
            x = rs(x) if h.symbolic else np.array([np.float64(v) for v in x], dtype=object)
            A = np.empty((self.m, self.n), dtype=object)
            for i in np.ndindex(*A.shape):
                A[i] = h.const(0.0)
            for v, p in zip(inp[f"vals{k}"], pos):
                A[p] = S.add(A[p], v)
            Ax = [vsum(h, [S.mul(A[i, j], x[j]) for j in range(self.n)]) for i in range(self.m)]
            beta = S.add(inp[f"lam{k}"].item(), h.const(1e-5))
            for j in range(self.n):
                lhs = S.add(vsum(h, [S.mul(A[i, j], Ax[i]) for i in range(self.m)]), S.mul(beta, x[j]))
                h.eq(f"system {k}: equation {j}", lhs, inp[f"b{k}"][j])


run, replay = make_runner(dict(cg=Cg, contract=CgContract, cholmod=Cholmod))

"""Nonlinear solvers run on graphs with uninterpreted residuals and an uninterpreted linear solver, and the
reference algorithms they are compared with (written from the property statements)."""
import itertools

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jaxfg.sparse import LinearSubproblemSolverBase
from checks.graphs import LDIM, PDIM, Graph, fac, fill_unmatched, match_blocks, retract, whiten_jac_spec
from jsmt import scal as S
from jsmt.havoc import call
from jsmt.harness import In, Problem, arr


@jdc.pytree_dataclass
class HavocSolver(LinearSubproblemSolverBase):
    """Arbitrary function of the matrix, the right-hand side, the damping and the iteration number."""

    @overrides(check_signature=False)
    def solve_subproblem(self, A, ATb, lambd, iteration):
        D = jnp.zeros(A.shape).at[jnp.asarray(A.coords.rows), jnp.asarray(A.coords.cols)].add(A.values)
        return call("lin", ATb.shape, D, ATb, jnp.asarray(lambd, dtype=float), jnp.asarray(iteration, dtype=float))


GRAPHS = {
    # one scalar variable, one residual
    "tiny": dict(vars=["V1"], factors=[fac("F", [0], "unit", 1)]),
    # two variables of different types, binary factor plus unary one
    "pair": dict(vars=["A", "V1"], factors=[fac("F", [1, 0], "unit", 1), fac("F", [0], "unit", 1, tag="G")]),
    # two of a type: order matters
    "two": dict(vars=["V1", "V1"], factors=[fac("F", [1, 0], "unit", 1), fac("F", [0], "unit", 1, tag="G")]),
    "vec": dict(vars=["V2"], factors=[fac("F", [0], "unit", 2)]),
    "man": dict(vars=["B"], factors=[fac("F", [0], "unit", 1)]),
    "three": dict(vars=["V1", "A", "V1"], factors=[fac("F", [2, 1], "unit", 1), fac("F", [0, 2], "unit", 1, tag="G")]),
    "mixed": dict(vars=["A", "V2", "A"], factors=[fac("F", [2, 1], "unit", 1), fac("F", [0, 1], "unit", 1)]),
    "noisy": dict(vars=["V1"], factors=[fac("F", [0], "diag", 1), fac("F", [0], "diag", 1)]),
}

TERM = ("cost_tolerance", "gradient_tolerance", "parameter_tolerance")


def vsum(h, xs):
    t = h.const(0.0)
    for x in xs:
        t = S.add(t, x)
    return t


def sumsq(h, xs):
    return vsum(h, [S.mul(x, x) for x in xs])


def norm(h, xs):
    return S.sqrt(sumsq(h, xs))


def ites(c, a, b):
    return [S.ite(c, x, y) for x, y in zip(a, b)]


class Undefined(Exception):
    """A change of cost where none was predicted: their ratio has no value."""


class Model:
    """Reference pieces over the graph: estimates are lists of per-variable flat arrays."""

    def __init__(self, h, g, par, rows, cols, n):
        self.h, self.g, self.par, self.rows, self.cols, self.n = h, g, par, rows, cols, n
        self.m = sum(f["d"] for f in g.factors)

    def residual(self, x):
        r = [None] * self.m
        for k, f in enumerate(self.g.factors):
            b = self.g.residual(self.h, k, x, self.par)
            for i in range(f["d"]):
                r[self.rows[k] + i] = b[i]
        return r

    def jacobian(self, x):
        h, g = self.h, self.g
        A = np.empty((self.m, self.n), dtype=object)
        for i in np.ndindex(*A.shape):
            A[i] = h.const(0.0)
        for k, f in enumerate(g.factors):
            o, np_, oo, nn = g.slots[k]
            for v, J in zip(f["vs"], g.raw_jacobians(h, k, x, self.par)):
                W = J if f["noise"] == "unit" else whiten_jac_spec(h, f["noise"], f["d"], self.par[oo:oo + nn], J)
                for i in range(W.shape[0]):
                    for j in range(W.shape[1]):
                        q = self.rows[k] + i, self.cols[v] + j
                        A[q] = S.add(A[q], W[i, j])
        return A

    def matvec(self, A, x):
        return [vsum(self.h, [S.mul(A[i, j], x[j]) for j in range(self.n)]) for i in range(self.m)]

    def grad(self, A, r):
        """-A' r"""
        return [S.neg(vsum(self.h, [S.mul(A[i, j], r[i]) for i in range(self.m)])) for j in range(self.n)]

    def lin(self, A, g, lam, k):
        return list(self.h.uf("lin", [A.reshape(-1), arr(g), arr([lam]), arr([self.h.const(float(k))])], (self.n,)))

    def retract(self, x, d):
        out = []
        for v, t in enumerate(self.g.types):
            c = self.cols[v]
            out.append(retract(self.h, t, x[v], arr(d[c:c + LDIM[t]])))
        return out

    def flat(self, x):
        return [y for v in x for y in v]

    def ite(self, c, a, b):
        return [arr(ites(c, p, q)) for p, q in zip(a, b)]

    # -- termination, from the statement of C15
    def converged(self, hp, k, x, cost, new_cost, step, g):
        h = self.h
        cc = S.lt(S.div(S.absv(S.sub(new_cost, cost)), cost), hp["cost_tolerance"])
        y = self.retract(x, g)
        # infinity norm, not a number if any entry is
        big = None
        for a, b in zip(self.flat(x), self.flat(y)):
            d = S.absv(S.sub(a, b))
            big = d if big is None else S.maxv(big, d)
        gg = S.And(S.le(hp["gradient_tolerance_start_step"], h.const(float(k))), S.lt(big, hp["gradient_tolerance"]))
        pt = hp["parameter_tolerance"]
        pp = S.lt(norm(h, step), S.mul(S.add(norm(h, self.flat(x)), pt), pt))
        return S.Or(cc, gg, pp)

    def maxed(self, hp, k):
        return S.le(S.sub(hp["max_iterations"], self.h.const(1.0)), self.h.const(float(k)))

    def quality(self, A, r, cost, new_cost, step):
        pred = sumsq(self.h, [S.add(a, b) for a, b in zip(self.matvec(A, step), r)])
        if self.h.branch(S.And(S.feq(pred, cost), S.Not(S.feq(new_cost, cost)))):
            raise Undefined
        return S.div(S.sub(new_cost, cost), S.sub(pred, cost))

    # -- algorithms: at most K iterations; the path explorer looks at both outcomes of every branch
    def gn(self, x, hp, K, fixed=False):
        h = self.h
        for k in range(K):
            r = self.residual(x)
            A = self.jacobian(x)
            g = self.grad(A, r)
            d = self.lin(A, g, h.const(0.0), k)
            new = self.retract(x, d)
            if not fixed and h.branch(S.Or(self.maxed(hp, k), self.converged(
                    hp, k, x, sumsq(h, r), sumsq(h, self.residual(new)), d, g))):
                return new
            x = new
        return x

    def trust(self, x, hp, K, kind, trace=None):
        h = self.h
        p = hp["lambda_initial"] if kind == "lm" else hp["radius_initial"]
        for k in range(K):
            r = self.residual(x)
            cost = sumsq(h, r)
            A = self.jacobian(x)
            g = self.grad(A, r)
            gn = self.lin(A, g, p if kind == "lm" else h.const(0.0), k)
            how, d = ("gn", gn) if kind == "lm" else self.dogleg(A, g, gn, p)
            prop = self.retract(x, d)
            cp = sumsq(h, self.residual(prop))
            q = self.quality(A, r, cost, cp, d)
            acc = h.branch(S.le(hp["step_quality_min"], q))
            done = self.maxed(hp, k)
            if acc:
                done = S.Or(done, self.converged(hp, k, x, cost, cp, d, g))
            done = h.branch(done)
            if trace is not None:
                trace.append(dict(k=k, acc=acc, done=done, quality=q, step=d, how=how, radius=p, cost=cost, new_cost=cp, gn=gn))
            x = prop if acc else x
            if done or k == K - 1:
                break
            if kind == "lm":
                p = S.div(p, hp["lambda_factor"]) if acc else \
                    S.maxv(hp["lambda_min"], S.minv(S.mul(p, hp["lambda_factor"]), hp["lambda_max"]))
            elif h.branch(S.lt(q, h.const(0.25))):
                p = S.mul(p, h.const(0.5))
            elif h.branch(S.lt(h.const(0.75), q)):
                p = S.maxv(p, S.mul(h.const(3.0), norm(h, d)))
        return x

    def dogleg(self, A, g, gn, radius):
        h = self.h
        if h.branch(S.le(norm(h, gn), radius)):
            return "gn", gn
        alpha = S.div(sumsq(h, g), sumsq(h, self.matvec(A, g)))
        a = [S.mul(alpha, x) for x in g]
        nsd = norm(h, a)
        if h.branch(S.le(radius, nsd)):
            return "sd", [S.mul(S.div(radius, nsd), x) for x in a]
        # |a + beta (b - a)| = radius
        ba = [S.sub(y, x) for x, y in zip(a, gn)]
        c = vsum(h, [S.mul(x, y) for x, y in zip(a, ba)])
        bb, aa = sumsq(h, ba), sumsq(h, a)
        rest = S.sub(S.mul(radius, radius), aa)
        sq = S.sqrt(S.add(S.mul(c, c), S.mul(bb, rest)))
        if h.branch(S.le(c, h.const(0.0))):
            beta = S.div(S.sub(sq, c), bb)
        else:
            beta = S.div(rest, S.add(c, sq))
        return "seg", [S.add(x, S.mul(beta, y)) for x, y in zip(a, ba)]


def gradient_lemma(A, r):
    """|A A'r|^2 = 0 implies |A'r|^2 = 0."""
    m, n = len(A), len(A[0])
    g = [sum((A[i][j] * r[i] for i in range(m)), S.z3.RealVal(0)) for j in range(n)]
    Ag = [sum((A[i][j] * g[j] for j in range(n)), S.z3.RealVal(0)) for i in range(m)]
    return S.z3.Implies(sum(x * x for x in Ag) == 0, sum(x * x for x in g) == 0)


SOLVERS = dict(gn=jaxfg.solvers.GaussNewtonSolver, lm=jaxfg.solvers.LevenbergMarquardtSolver, dl=jaxfg.solvers.DoglegSolver,
               fixed=jaxfg.solvers.FixedIterationGaussNewtonSolver)
EXTRA = dict(gn=(), fixed=(), lm=("step_quality_min", "lambda_initial", "lambda_factor", "lambda_min", "lambda_max"),
             dl=("step_quality_min", "radius_initial"))
SAMPLE = dict(lambda_factor=lambda r: r.uniform(1.1, 3), lambda_min=lambda r: r.uniform(0.01, 0.5),
              lambda_max=lambda r: r.uniform(1, 3), lambda_initial=lambda r: r.uniform(0.05, 2),
              radius_initial=lambda r: r.uniform(0.05, 3), step_quality_min=lambda r: r.choice([-2, -0.5, 0.001, 0.3]),
              cost_tolerance=lambda r: r.choice([0.0, 0.01, 0.5, 2.0]), gradient_tolerance=lambda r: r.choice([0.0, 0.1, 2.0]),
              parameter_tolerance=lambda r: r.choice([0.0, 0.1, 1.0]))


class SolverProblem(Problem):
    """Runs `graph.solve` and compares every variable with the reference algorithm."""

    functions = ("StackedFactorGraph.solve",)
    budget = 60.0
    forking = True

    def __init__(self, case):
        self.solver = case["solver"]
        self.K = case.get("K", 2)
        self.tol = case.get("tol", True)  # symbolic tolerances (else: zero, so that only max_iterations ends the solve)
        self.g = Graph(GRAPHS[case["g"]], order=case.get("order"), use_onp=case.get("use_onp", True))
        self.case = case
        self.unwind = self.K
        self.maxit = case.get("maxit")  # constant number of iterations, else symbolic 1..K
        self.bounds = f"{self.solver}, graph {case['g']}, at most {self.K} iterations"
        self.cls = SOLVERS[self.solver]
        self.shard = case.get("shard")
        self.max_paths = case.get("max_paths", 600)
        self.nonfinite = tuple(case.get("nonfinite", ()))  # functions which may return nan or infinity

    def inputs(self):
        d = self.g.inputs()
        if self.solver != "fixed":
            if self.maxit is None:
                d["max_iterations"] = In((), "int", lo=self.case.get("minit", 1), hi=self.K)
            if self.tol:
                for t in TERM:
                    d[t] = In((), sample=SAMPLE[t])
                d["gradient_tolerance_start_step"] = In((), "int", lo=0, hi=self.K)
            for t in EXTRA[self.solver]:
                d[t] = In((), sample=SAMPLE[t])
        return d

    def hyper(self, inp, h):
        hp = {k: inp[k].item() for k in inp if k not in ("par",) and not k.startswith("x")}
        if not self.tol:
            for t in TERM:
                hp[t] = h.const(0.0)
            hp["gradient_tolerance_start_step"] = h.const(0.0)
        if self.maxit is not None:
            hp["max_iterations"] = h.const(float(self.maxit))
        return hp

    def assume(self, h, inp):
        hp = self.hyper(inp, h)
        z = h.const(0.0)
        out = []
        if self.solver == "lm":
            out += [S.lt(h.const(1.0), hp["lambda_factor"]), S.lt(z, hp["lambda_min"]), S.le(hp["lambda_min"], hp["lambda_max"]),
                    S.le(z, hp["lambda_initial"])]
        if self.solver == "dl":
            out += [S.lt(z, hp["radius_initial"])]
        if self.tol:
            out += [S.le(z, hp[t]) for t in TERM] if self.solver != "fixed" else []
        if self.case.get("regular"):  # nonzero gradient at the initial estimate (single-factor graphs)
            vals = self.g.values(inp)
            m = Model(h, self.g, inp["par"], [0], [0], sum(LDIM[t] for t in self.g.types))
            r, A = m.residual(vals), m.jacobian(vals)
            out += [S.Not(S.feq(x, z)) for x in (list(r) + list(A.reshape(-1)) if m.n == m.m == 1 else [sumsq(h, m.grad(A, r))])]
            if self.case.get("first"):  # which kind of dogleg step the first iteration takes
                gn = m.lin(A, m.grad(A, r), z, 0)
                inside = S.le(sumsq(h, gn), S.mul(hp["radius_initial"], hp["radius_initial"]))
                out.append(inside if self.case["first"] == "gn" else S.Not(inside))
        return out

    def axioms(self, ctx):
        """A'r is zero if A A'r is (facts the solver need not rediscover on every path; see `lemma_holds`)."""
        if self.case.get("small"):  # every linear solver response stays inside the trust region of any iteration
            def small(args, outs):
                r = S.z3.Real("radius_initial") / 2 ** (self.K - 1)
                bound = r if len(outs) == 1 else r / len(outs)
                for o in outs:
                    yield S.z3.Or(S.to_z3b(S.Not(o.fin())), S.z3.And(S.tz(o.v) <= bound, S.tz(o.v) >= -bound))

            ctx.uf_axioms["lin"] = small
        if self.solver != "dl" or len(self.g.factors) != 1 or self.g.factors[0]["noise"] != "unit" or self.g.types != ["V2"]:
            return
        m, n = self.g.factors[0]["d"], sum(LDIM[t] for t in self.g.types)

        def ax(args, outs):
            for pargs, pouts in ctx.apps.get("f_F", []):
                if len(pargs) == len(args) and all(S.tz(a.v).eq(S.tz(b.v)) for a, b in zip(pargs, args)):
                    w = len(outs) // m
                    yield gradient_lemma([[S.tz(outs[i * w + j].v) for j in range(n)] for i in range(m)], [S.tz(x.v) for x in pouts])

        ctx.uf_axioms["D:f_F"] = ax

    def make_solver(self, kw):
        if self.solver == "fixed":
            return self.cls(verbose=False, linear_solver=HavocSolver(), iterations=self.K, unroll=self.case["unroll"])
        kw = dict(kw)
        if not self.tol:
            kw.update({t: 0.0 for t in TERM}, gradient_tolerance_start_step=0)
        if self.maxit is not None:
            kw["max_iterations"] = self.maxit
        return self.cls(verbose=False, linear_solver=HavocSolver(), **kw)

    def split(self, kw):
        xs = {k: v for k, v in kw.items() if k.startswith("x")}
        par = kw["par"]
        rest = {k: v for k, v in kw.items() if not k.startswith("x") and k != "par"}
        return par, xs, rest

    def run_solver(self, par, xs, hyper, order=None):
        graph = self.g.make(par)
        a = self.g.assignments(xs, order)
        sol = graph.solve(a, solver=self.make_solver(hyper))
        return graph, a, sol

    def values_of(self, a):
        from checks.graphs import flat

        return {f"s{i}": flat(a.get_value(v)) for i, v in enumerate(self.g.variables)}

    def real(self, **kw):
        par, xs, rest = self.split(kw)
        graph, a, sol = self.run_solver(par, xs, rest)
        lay = graph.local_storage_layout
        self.cols = [int(lay.index_from_variable[v]) for v in self.g.variables]
        out = self.values_of(sol)
        out["r0"] = graph.compute_whitened_residual_vector(a)
        return out

    def model(self, h, inp, out):
        """Reference model; rows are lined up with the graph's residual vector."""
        g = self.g
        vals = g.values(inp)
        blocks = [g.residual(h, k, vals, inp["par"]) for k in range(len(g.factors))]
        pos, free = match_blocks(h, out["r0"], blocks)
        pos = fill_unmatched(pos, free, [len(b) for b in blocks])
        return Model(h, g, inp["par"], pos, self.cols, sum(LDIM[t] for t in g.types)), vals

    def reference(self, m, vals, hp, trace=None):
        if self.solver in ("fixed", "gn"):
            return m.gn(vals, hp, self.K, fixed=self.solver == "fixed")
        return m.trust(vals, hp, self.K, self.solver, trace)

    def post(self, h, inp, out):
        m, vals = self.model(h, inp, out)
        hp = self.hyper(inp, h)
        trace = []
        try:
            exp = self.reference(m, vals, hp, trace)
        except Undefined:
            return
        for i in range(self.g.n):
            h.eq(f"variable {i}", out[f"s{i}"], exp[i])
        if h.symbolic and trace:
            self.reaches(h, trace)

    def reaches(self, h, trace):
        h.reach("-".join("accept" if t["acc"] else "reject" for t in trace), True)

    @property
    def must_reach(self):
        if self.solver not in ("lm", "dl"):
            return ()
        return ["-".join(p) for p in itertools.product(("accept", "reject"), repeat=self.K)]

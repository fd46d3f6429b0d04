"""C20: trust-region solvers never adopt a worse or non-finite estimate."""
import jax_dataclasses as jdc
from jax import numpy as jnp
from overrides import overrides

from checks.common import make_runner
from checks.graphs import flat
from checks.solverlib import SolverProblem
from jaxfg.sparse import LinearSubproblemSolverBase
from jsmt import scal as S
from jsmt.havoc import call


@jdc.pytree_dataclass
class DescentSolver(LinearSubproblemSolverBase):
    """Arbitrary responses, except that finite ones are zero or decrease the linearized cost (all others are replaced by nan)."""

    @overrides(check_signature=False)
    def solve_subproblem(self, A, ATb, lambd, iteration):
        D = jnp.zeros(A.shape).at[jnp.asarray(A.coords.rows), jnp.asarray(A.coords.cols)].add(A.values)
        d = call("lin", ATb.shape, D, ATb, jnp.asarray(lambd, dtype=float), jnp.asarray(iteration, dtype=float))
        # |A d + r|^2 - |r|^2 = |A d|^2 - 2 d'ATb
        change = jnp.sum((D @ d) ** 2) - 2.0 * jnp.sum(d * ATb)
        ok = jnp.logical_or(change < 0.0, jnp.logical_not(jnp.all(jnp.isfinite(d))))
        ok = jnp.logical_or(ok, jnp.all(d == 0.0))
        return jnp.where(ok, d, jnp.nan)


class Safe(SolverProblem):
    functions = ("LevenbergMarquardtSolver.solve", "LevenbergMarquardtSolver._step", "DoglegSolver.solve", "DoglegSolver._step",
                 "_TrustRegionMixin.compute_step_quality", "VariableAssignments.manifold_retract", "StackedFactorGraph.compute_cost",
                 "StackedFactorGraph.compute_whitened_residual_jacobian")
    must_reach = ()

    def start(self, h, inp):
        return [x for k in range(len(self.g.factors)) for x in self.g.residual(h, k, self.g.values(inp), inp["par"])]

    def assume(self, h, inp):
        out = super().assume(h, inp)
        hp = self.hyper(inp, h)
        out.append(S.lt(h.const(0.0), hp["step_quality_min"]))
        out += [S.rr(x).fin() for x in self.start(h, inp)]
        return out

    def make_solver(self, kw):
        return jdc.replace(super().make_solver(kw), linear_solver=DescentSolver())

    def real(self, **kw):
        par, xs, rest = self.split(kw)
        out = {}
        graph = self.g.make(par)
        a = self.g.assignments(xs)
        out["c0"] = graph.compute_cost(a)[0]
        if self.maxit is None:
            runs = [self.make_solver(rest)]
        else:
            s = self.make_solver(rest)
            runs = [jdc.replace(s, max_iterations=k + 1) for k in range(self.maxit)]
        for k, s in enumerate(runs):
            sol = graph.solve(a, solver=s)
            for i, v in enumerate(self.g.variables):
                out[f"s{k}_{i}"] = flat(sol.get_value(v))
            out[f"c{k + 1}"] = graph.compute_cost(sol)[0]
        return out

    def post(self, h, inp, out):
        k = 1
        while f"c{k}" in out:
            prev, new = out[f"c{k - 1}"].item(), out[f"c{k}"].item()
            for i in range(self.g.n):
                for j, x in enumerate(out[f"s{k - 1}_{i}"]):
                    h.holds(f"variable {i}[{j}] finite after {k}", S.rr(x).fin())
            h.holds(f"cost finite after {k}", S.rr(new).fin())
            h.le(f"cost after {k}", new, prev)
            if h.symbolic:
                h.reach(f"decreases {k}", S.lt(new, prev))
                h.reach(f"stays {k}", S.feq(new, prev))
            k += 1

    @property
    def must_reach(self):
        return [f"{w} {k}" for w in ("decreases", "stays") for k in range(1, (self.maxit or 1) + 1)]


run, replay = make_runner(dict(solver=Safe))

"""C21: evaluation under vmap equals evaluation one element at a time."""
import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg
from checks.common import make_runner
from checks.graphs import LDIM, PDIM, STRUCTS, VT, Graph, flat, unflat
from checks.solverlib import GRAPHS, SAMPLE, SOLVERS, TERM, HavocSolver
from jaxfg.core import StorageLayout, VariableAssignments
from jsmt.harness import In, Problem


def nth(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i], tree)


def stack(trees):
    return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *trees)


def leaves(tree):
    return {str(i): x for i, x in enumerate(jax.tree_util.tree_leaves(tree))}


class Batched(Problem):
    """Compares vmap(f)(batch) with f of every element; subclasses define f on one element's inputs."""

    def __init__(self, case):
        self.case = case
        self.B = case.get("B", 2)
        self.how = case.get("how", "both")
        self.g = Graph(case["struct"] if "struct" in case else GRAPHS[case["g"]], case.get("order"), case.get("use_onp", True))
        self.bounds = f"graph {case.get('struct', case.get('g'))}, batch of {self.B}, {self.how} batched"

    def one(self):
        """Inputs of one element."""
        return self.g.inputs()

    def shared(self):
        return [] if self.how == "both" else [k for k in self.one() if (k == "par") == (self.how == "values") and (k == "par" or k.startswith("x"))]

    def inputs(self):
        sh = self.shared()
        return {k: v if k in sh else In((self.B,) + tuple(v.shape), v.kind, v.lo, v.hi, sample=v.sample) for k, v in self.one().items()}

    def element(self, kw, i):
        sh = self.shared()
        return {k: v if k in sh else v[i] for k, v in kw.items()}

    def real(self, **kw):
        single = [self.f(**self.element(kw, i)) for i in range(self.B)]
        axes = {k: None if k in self.shared() else 0 for k in kw}
        if self.case.get("nested"):  # a batch of batches of one
            kw1 = {k: v if axes[k] is None else v[:, None] for k, v in kw.items()}
            f1 = jax.vmap(lambda d: self.f(**d), in_axes=(axes,))
            batch = jax.tree_util.tree_map(lambda x: x[:, 0], jax.vmap(f1, in_axes=(axes,))(kw1))
        elif self.case.get("stacked"):  # objects are built element by element and stacked, then mapped over
            parts = [self.build(**self.element(kw, i)) for i in range(self.B)]
            batch = jax.vmap(self.use)(stack(parts))
        else:
            batch = jax.vmap(lambda d: self.f(**d), in_axes=(axes,))(kw)
        return dict(single=[leaves(s) for s in single], batch=leaves(batch))

    def f(self, **kw):
        return self.use(self.build(**kw))

    def post(self, h, inp, out):
        for i in range(self.B):
            if len(out["single"][i]) != len(out["batch"]):
                h.bad("different results under vmap")
                return
            for k, s in out["single"][i].items():
                b = out["batch"][k]
                if b.shape != (self.B,) + s.shape:
                    h.bad(f"result {k} has shape {b.shape} for a batch of {s.shape}")
                    continue
                h.eq(f"element {i}, result {k}", b[i], s)


class Evaluate(Batched):
    functions = ("StackedFactorGraph.compute_whitened_residual_vector", "StackedFactorGraph.compute_cost",
                 "StackedFactorGraph.compute_whitened_residual_jacobian", "FactorStack.compute_residual_vector",
                 "FactorStack.compute_residual_jacobian", "SparseCooMatrix.__matmul__", "SparseCooMatrix.as_dense")

    def build(self, par, **xs):
        return self.g.make(par), self.g.assignments(xs)

    def use(self, ga):
        graph, a = ga
        r = graph.compute_whitened_residual_vector(a)
        cost, r2 = graph.compute_cost(a)
        A = graph.compute_whitened_residual_jacobian(a, residual_vector=r)
        return [r, cost, r2, A.as_dense(), A.T @ r]


class Nll(Evaluate):
    functions = ("StackedFactorGraph.compute_joint_nll",)

    def use(self, ga):
        return [ga[0].compute_joint_nll(ga[1])]


class Values(Batched):
    functions = ("VariableAssignments.manifold_retract", "VariableAssignments.update_storage_layout", "VariableAssignments.get_value",
                 "VariableAssignments.get_stacked_value", "VariableAssignments.set_value", "VariableAssignments.make_from_dict",
                 "VariableAssignments.make_from_partial_dict", "VariableAssignments.as_dict")

    def one(self):
        d = {f"x{i}": In((PDIM[t],)) for i, t in enumerate(self.g.types)}
        d.update({f"d{i}": In((LDIM[t],)) for i, t in enumerate(self.g.types)}, new=In((PDIM[self.g.types[0]],)))
        return d

    def build(self, new, **kw):
        g = self.g
        a = g.assignments(kw)
        lay = StorageLayout.make(list(reversed(g.variables)), local=True)
        d = jnp.zeros(lay.dim)
        for i, t in enumerate(g.types):
            p = int(lay.index_from_variable[g.variables[i]])
            d = d.at[p:p + LDIM[t]].set(kw[f"d{i}"])
        return a, VariableAssignments(storage=d, storage_layout=lay), new

    def use(self, x):
        a, d, new = x
        g = self.g
        vs, ts = g.variables, g.types
        other = StorageLayout.make(list(reversed(vs)), local=False)
        re = a.update_storage_layout(other)
        ret, ret2 = a.manifold_retract(d), re.manifold_retract(d)
        st = a.set_value(vs[0], unflat(ts[0], new))
        part = VariableAssignments.make_from_partial_dict(vs, {vs[-1]: re.get_value(vs[-1])})
        out = [re.storage]
        for b in (a, re, ret, ret2, st, part):
            out += [b.get_value(v) for v in vs] + [b.as_dict()[v] for v in vs]
            out += [b.get_stacked_value(VT[t]) for t in sorted(set(ts))]
        return out


class Solve(Batched):
    """Whole solves: elements may end at different iterations."""

    functions = ("StackedFactorGraph.solve", "NonlinearSolverBase.solve", "GaussNewtonSolver._step", "LevenbergMarquardtSolver._step",
                 "DoglegSolver._step", "FixedIterationGaussNewtonSolver.solve")
    forking = True
    prune = True
    budget = 60.0

    def __init__(self, case):
        super().__init__(case)
        self.K = case["K"]
        self.unwind = self.K
        self.solver = case["solver"]
        self.max_paths = 2000
        self.bounds += f", {self.solver}, {self.K} iterations"

    def one(self):
        d = self.g.inputs()
        if self.solver != "fixed":
            for t in self.case["tol"]:
                d[t] = In((), sample=SAMPLE[t])
        return d

    def shared(self):
        return super().shared() + list(self.case["tol"])

    def build(self, par, **kw):
        xs = {k: v for k, v in kw.items() if k.startswith("x")}
        hp = {k: v for k, v in kw.items() if not k.startswith("x")}
        cls = SOLVERS[self.solver]
        if self.solver == "fixed":
            s = cls(verbose=self.case.get("verbose", False), linear_solver=HavocSolver(), iterations=self.K, unroll=self.case["unroll"])
        else:
            hp = {**{t: 0.0 for t in TERM}, "max_iterations": self.K, "gradient_tolerance_start_step": 0, **hp}
            s = cls(verbose=self.case.get("verbose", False), linear_solver=HavocSolver(), **hp)
        return self.g.make(par), self.g.assignments(xs), s

    def use(self, x):
        graph, a, s = x
        sol = graph.solve(a, solver=s)
        return [flat(sol.get_value(v)) for v in self.g.variables]


class Linear(Batched):
    """Conjugate gradient solves."""

    functions = ("ConjugateGradientSolver.solve_subproblem", "InexactStepConjugateGradientSolver.solve_subproblem")
    forking = True
    prune = True

    def __init__(self, case):
        super().__init__(dict(case, g="tiny"))
        self.rows, self.cols, self.shape = case["rows"], case["cols"], case["shape"]
        self.unwind = self.shape[1]
        self.bounds = f"pattern {self.rows}, {self.cols}, batch of {self.B}"

    def one(self):
        return dict(a=In((len(self.rows),)), b=In((self.shape[1],)), lam=In((), sample=lambda r: r.uniform(0, 1)))

    def assume(self, h, inp):
        from jsmt import scal as S
        z = h.const(0.0)
        return [S.Not(S.feq(x, z)) for x in inp["a"].reshape(-1)] + [S.le(z, x) for x in inp["lam"].reshape(-1)]

    def build(self, a, b, lam):
        A = jaxfg.sparse.SparseCooMatrix(values=a, coords=jaxfg.sparse.SparseCooCoordinates(
            rows=jnp.array(self.rows), cols=jnp.array(self.cols)), shape=tuple(self.shape))
        return A, b, lam

    def use(self, x):
        A, b, lam = x
        return [s.solve_subproblem(A, b, lam, 0) for s in
                (jaxfg.sparse.ConjugateGradientSolver(), jaxfg.sparse.InexactStepConjugateGradientSolver())]


run, replay = make_runner(dict(evaluate=Evaluate, nll=Nll, values=Values, solve=Solve, linear=Linear))

"""C16: solving does not depend on how the caller stored the variables."""
from checks.common import make_runner
from checks.solverlib import SolverProblem
from checks.graphs import flat


class Layout(SolverProblem):
    functions = ("StackedFactorGraph.solve", "NonlinearSolverBase.solve", "FixedIterationGaussNewtonSolver.solve",
                 "VariableAssignments.update_storage_layout", "VariableAssignments.manifold_retract", "VariableAssignments.get_value",
                 "GaussNewtonSolver._step", "LevenbergMarquardtSolver._step", "DoglegSolver._step")
    must_reach = ()

    def real(self, **kw):
        par, xs, rest = self.split(kw)
        out = {}
        self.problems = []
        for name, order in (("a", self.case["orders"][0]), ("b", self.case["orders"][1])):
            graph = self.g.make(par)
            before = list(graph.storage_layout.get_variables())
            a = self.g.assignments(xs, order)
            want = list(a.storage_layout.get_variables())
            index = dict(a.storage_layout.index_from_variable)
            sol = graph.solve(a, solver=self.make_solver(rest))
            if list(sol.storage_layout.get_variables()) != want or dict(sol.storage_layout.index_from_variable) != index:
                self.problems.append(f"{name}: the solution's storage order differs from the caller's")
            if set(sol.get_variables()) != set(self.g.variables):
                self.problems.append(f"{name}: the solution is not over the caller's variables")
            if list(a.storage_layout.get_variables()) != want or list(graph.storage_layout.get_variables()) != before:
                self.problems.append(f"{name}: the layout of an input changed")
            for i, v in enumerate(self.g.variables):
                out[f"{name}{i}"] = flat(sol.get_value(v))
                out[f"{name}{i}_in"] = flat(a.get_value(v))
            out[f"{name}_par"] = graph.compute_whitened_residual_vector(a)
            out[f"{name}_par0"] = self.g.make(par).compute_whitened_residual_vector(a)
        return out

    def post(self, h, inp, out):
        for p in self.problems:
            h.bad(p)
        g = self.g
        for i in range(g.n):
            h.eq(f"variable {i}", out[f"a{i}"], out[f"b{i}"])
            for n in "ab":
                h.eq(f"initial value {i} ({n})", out[f"{n}{i}_in"], inp[f"x{i}"])
        for n in "ab":
            h.eq(f"graph unchanged ({n})", out[f"{n}_par"], out[f"{n}_par0"])
        if h.symbolic:
            h.reach("moves", True)


run, replay = make_runner(dict(solver=Layout))

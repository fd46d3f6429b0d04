"""C12: Gauss-Newton takes exactly the steps its definition prescribes."""
from checks.common import make_runner
from checks.solverlib import SolverProblem


class GaussNewton(SolverProblem):
    functions = ("GaussNewtonSolver.solve", "GaussNewtonSolver._step", "FixedIterationGaussNewtonSolver.solve",
                 "FixedIterationGaussNewtonSolver._step", "_TerminationCriteriaMixin.check_convergence",
                 "_TerminationCriteriaMixin.check_exceeded_max_iterations", "VariableAssignments.manifold_retract",
                 "StackedFactorGraph.compute_cost", "StackedFactorGraph.compute_whitened_residual_jacobian", "SparseCooMatrix.T/__matmul__")


run, replay = make_runner(dict(solver=GaussNewton))

"""C13: Levenberg-Marquardt accepts, rejects and damps as defined, with a coherent state."""
from checks.common import make_runner
from checks.solverlib import SolverProblem


class Lm(SolverProblem):
    functions = ("LevenbergMarquardtSolver.solve", "LevenbergMarquardtSolver._step", "_TrustRegionMixin.compute_step_quality",
                 "_TerminationCriteriaMixin.check_convergence", "_TerminationCriteriaMixin.check_exceeded_max_iterations",
                 "VariableAssignments.manifold_retract", "StackedFactorGraph.compute_cost",
                 "StackedFactorGraph.compute_whitened_residual_jacobian", "SparseCooMatrix.T/__matmul__")


run, replay = make_runner(dict(solver=Lm))

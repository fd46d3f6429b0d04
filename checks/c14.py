"""C14: dogleg steps stay in the trust region and follow the dogleg path."""
from checks.common import make_runner
from checks.solverlib import SolverProblem, sumsq
from jsmt import scal as S


class Dl(SolverProblem):
    functions = ("DoglegSolver.solve", "DoglegSolver._step", "_TrustRegionMixin.compute_step_quality",
                 "_TerminationCriteriaMixin.check_convergence", "_TerminationCriteriaMixin.check_exceeded_max_iterations",
                 "VariableAssignments.manifold_retract", "StackedFactorGraph.compute_cost",
                 "StackedFactorGraph.compute_whitened_residual_jacobian", "SparseCooMatrix.T/__matmul__")


run, replay = make_runner(dict(solver=Dl))

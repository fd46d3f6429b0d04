"""C15: solvers stop exactly on their documented termination criteria."""
from checks.common import make_runner
from checks.solverlib import SolverProblem


class Stop(SolverProblem):
    functions = ("_TerminationCriteriaMixin.check_convergence", "_TerminationCriteriaMixin.check_exceeded_max_iterations",
                 "NonlinearSolverBase.solve", "GaussNewtonSolver._step", "LevenbergMarquardtSolver._step", "DoglegSolver._step")
    must_reach = ()


run, replay = make_runner(dict(solver=Stop))

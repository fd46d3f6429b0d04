"""Helpers shared by the checks."""
from jsmt.harness import Problem, run_problem, replay as replay_problem
from jsmt.pyexec import PyProblem, run_pyproblem, replay_py


def make_runner(kinds):
    def build(case):
        return kinds[case["kind"]](case)

    def run(case, seed, deadline):
        p = build(case)
        if isinstance(p, PyProblem):
            return run_pyproblem(p, seed, deadline)
        return run_problem(p, seed, deadline)

    def replay(case, v):
        p = build(case)
        if isinstance(p, PyProblem):
            return replay_py(p, v)
        return replay_problem(p, v)

    return run, replay

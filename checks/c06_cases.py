from checks.c05_cases import cases as _c

BOUNDS = "catalogue of graph structures (checks/graphs.py STRUCTS), <=5 variables of <=4 types, <=5 factors, several orders of the assignments, residual dim <=3"
ASSUMPTIONS = ["residual and retraction functions are differentiable functions of their arguments; derivatives are arbitrary"]
STUBS = ["user residual / retraction functions and their derivatives: uninterpreted functions"]
NAMES = ["single", "chain", "interleaved", "mixed", "twice", "twice_man", "static", "shapes", "named", "analytic", "noise", "fat", "ternary",
         "swapped"]


def cases(tier):
    return _c(tier, "jacobian", NAMES)

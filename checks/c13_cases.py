BOUNDS = "at most 4 (thorough: 5) iterations, all patterns of accepted and rejected steps; maximum iterations, tolerances, step-quality threshold and damping parameters symbolic; graphs of checks/solverlib.py (<=2 variables, <=2 residuals)"
ASSUMPTIONS = ["tolerances >= 0", "lambda_factor > 1, 0 < lambda_min <= lambda_max, lambda_initial >= 0", "exact real arithmetic"]
STUBS = ["linear solver: uninterpreted function of (A, ATb, damping, iteration)", "residual, Jacobian and retraction functions: uninterpreted"]

# graph -> iterations: "full" has symbolic tolerances, "steps" has them at zero and a fixed number of iterations
QUICK = dict(full=dict(tiny=4, pair=2, vec=2, noisy=3, man=3), steps=dict(tiny=4, pair=3, vec=3, noisy=3, man=3))
THOROUGH = dict(full=dict(tiny=5, pair=3, vec=3, noisy=4, man=4), steps=dict(tiny=5, pair=3, vec=4, noisy=5, man=4))


def cases(tier):
    out = []
    t = THOROUGH if tier == "thorough" else QUICK
    for g, n in t["full"].items():
        for K in range(1, n + 1):
            out.append(dict(id=f"lm-{g}-{K}", kind="solver", solver="lm", g=g, K=K, weight=K * 3))
    for g, n in t["steps"].items():
        for K in range(1, n + 1):
            out.append(dict(id=f"lm-{g}-{K}-steps", kind="solver", solver="lm", g=g, K=K, tol=False, maxit=K, weight=K * 3))
    return out

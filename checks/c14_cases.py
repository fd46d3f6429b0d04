BOUNDS = "at most 2 iterations (quick tier: two iterations only from points with nonzero residual and Jacobian), all patterns of accepted and rejected steps and of the three dogleg steps; maximum iterations, tolerances, step-quality threshold and initial radius symbolic; graphs of checks/solverlib.py (<=2 variables, <=2 residuals)"
ASSUMPTIONS = ["tolerances >= 0", "radius_initial > 0", "exact real arithmetic"]
STUBS = ["linear solver: uninterpreted function of (A, ATb, damping, iteration)", "residual, Jacobian and retraction functions: uninterpreted"]

# graph -> (iterations, parts the paths of the largest number of iterations are divided into)
QUICK = dict(full=dict(tiny=(1, 1), vec=(1, 1), noisy=(1, 1)), steps=dict(tiny=(1, 1), vec=(1, 1), noisy=(1, 1), man=(1, 1)))
THOROUGH = dict(full=dict(tiny=(2, 32), vec=(1, 1), noisy=(1, 1)), steps=dict(tiny=(2, 32), vec=(1, 1), noisy=(1, 1), man=(1, 1)))


def case(kind, g, K):
    c = dict(id=f"dl-{g}-{K}" + ("-steps" if kind == "steps" else ""), kind="solver", solver="dl", g=g, K=K, weight=K * 3)
    if kind == "steps":
        c.update(tol=False, maxit=K)
    return c


def parts(c, shards):
    return [c] if shards == 1 else [dict(c, id=f"{c['id']}-part{i}", shard=(i, shards)) for i in range(shards)]


def cases(tier):
    out = []
    t = THOROUGH if tier == "thorough" else QUICK
    for kind in ("full", "steps"):
        for g, (n, shards) in t[kind].items():
            for K in range(1, n + 1):
                out += parts(case(kind, g, K), shards if K == n else 1)
    if tier != "thorough":
        c = case("steps", "tiny", 2)
        out += parts(dict(c, id=c["id"] + "-inside", regular=True, first="gn"), 8)
    return out

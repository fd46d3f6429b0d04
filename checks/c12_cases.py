BOUNDS = "at most 3 (thorough: 5) iterations (maximum iterations, tolerances and start step symbolic); graphs of checks/solverlib.py (<=3 variables, <=2 residuals)"
ASSUMPTIONS = ["tolerances >= 0", "exact real arithmetic"]
STUBS = ["linear solver: uninterpreted function of (A, ATb, damping, iteration)", "residual, Jacobian and retraction functions: uninterpreted"]


def cases(tier):
    out = []
    for g in ("tiny", "pair", "vec", "noisy", "man", "three"):
        for K in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
            out.append(dict(id=f"gn-{g}-{K}", kind="solver", solver="gn", g=g, K=K, weight=K * 3))
    for g in ("tiny", "pair", "two"):
        for K in (1, 2, 3):
            for u in (True, False):
                out.append(dict(id=f"fixed-{g}-{K}-{'unrolled' if u else 'loop'}", kind="solver", solver="fixed", g=g, K=K, unroll=u, weight=K))
    return out

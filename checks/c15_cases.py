BOUNDS = "at most 3 (thorough: 4) iterations; iteration limit (from -1 on), tolerances and start step symbolic; graphs of checks/solverlib.py (<=2 variables, <=2 residuals); dogleg: 2 iterations with linear solver responses inside the trust region"
ASSUMPTIONS = ["tolerances >= 0", "exact real arithmetic extended with nan and the infinities"]
STUBS = ["linear solver: uninterpreted function of (A, ATb, damping, iteration)", "residual, Jacobian and retraction functions: uninterpreted; residuals and linear solver responses may be nan or infinite where stated"]


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(solver, g, K, **kw):
        nf = kw.get("nonfinite", ())
        out.append(dict(id=f"{solver}-{g}-{K}" + "".join("-nonfinite_" + n for n in nf), kind="solver", solver=solver, g=g, K=K,
                        minit=-1, weight=K * 3 + 3 * len(nf), **kw))

    for g in ("tiny", "pair", "vec", "noisy", "man"):
        for K in (2, 3) + ((4,) if deep else ()):
            add("gn", g, K)
    for g, n in dict(tiny=3, noisy=2, vec=2, man=2).items():
        for K in range(2, n + 1 + deep):
            add("lm", g, K)
    for g, n in dict(tiny=3, noisy=2, **(dict(man=2) if deep else {})).items():
        for K in range(2, n + 1):
            add("dl", g, K, small=True)
    if deep:
        for solver in ("gn", "lm"):
            for i in range(12):
                add(solver, "tiny", 2, nonfinite=("f_F", "lin"), shard=(i, 12))
                out[-1]["id"] += f"-part{i}"
    for nf in (("f_F",), ("lin",)):
        add("gn", "tiny", 2, nonfinite=nf)
        add("lm", "tiny", 2, nonfinite=nf)
        if deep:
            add("gn", "vec", 2, nonfinite=nf)
    return out

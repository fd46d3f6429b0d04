BOUNDS = "at most 2 iterations; Euclidean variables, one residual of dimension 1 or 2; iteration limits, step-quality threshold, damping parameters, initial radius and (where stated) tolerances symbolic"
ASSUMPTIONS = ["step_quality_min > 0", "tolerances >= 0", "initial cost finite", "exact real arithmetic extended with nan and the infinities"]
STUBS = ["linear solver: uninterpreted function whose finite responses are zero or decrease the linearized cost, all others replaced by nan",
         "residual functions: uninterpreted; they may return nan or infinity where stated; Jacobians finite"]


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(solver, g, K, steps, **kw):
        nf = kw.get("nonfinite", ())
        c = dict(id=f"{solver}-{g}-{K}" + ("-steps" if steps else "") + "".join("-nonfinite_" + n for n in nf) + ("-inside" if kw.get("small") else ""),
                 kind="solver", solver=solver, g=g, K=K, weight=K * 3 + 3 * len(nf), **kw)
        if steps:
            c.update(tol=False, maxit=K)
        out.append(c)

    for nf in ((), ("f_F",), ("lin",), ("f_F", "lin")):
        for solver in ("lm", "dl"):
            add(solver, "tiny", 1, True, nonfinite=nf)
    for nf in ((), ("f_F",)):
        add("lm", "tiny", 2, True, nonfinite=nf)
        add("lm", "tiny", 2, False, nonfinite=nf)
        add("lm", "vec", 1, True, nonfinite=nf)
    add("lm", "tiny", 3, True)
    add("lm", "noisy", 2, True)
    add("dl", "noisy", 1, True)
    add("dl", "tiny", 2, True, small=True)
    if deep:
        add("lm", "tiny", 3, False)
        add("lm", "vec", 2, True)
        for i in range(12):
            add("dl", "tiny", 2, True, small=True, nonfinite=("f_F",), shard=(i, 12))
            out[-1]["id"] += f"-part{i}"
    return out

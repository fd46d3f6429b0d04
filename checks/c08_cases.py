BOUNDS = "residual dimension up to 3 (model) / 2 (graph), wrapped diagonal, full and arbitrary linear Gaussian models, graphs mixing Huber and plain factors; all thresholds delta > 0, all residuals and Jacobians (uninterpreted)"
ASSUMPTIONS = ["delta > 0", "whitened residual norm not zero unless below the threshold (implied by delta > 0)"]
STUBS = ["user residual functions and derivatives: uninterpreted functions"]


def cases(tier):
    out = []
    for w in ("diag", "full"):
        for d in (1, 2, 3):
            out.append(dict(id=f"model-{w}-{d}", kind="model", wrapped=w, d=d, weight=d))
    gs = ["one1", "one2", "two", "mix", "full2"]
    if tier == "thorough":
        gs += ["one3", "man"]
    for g in gs:
        out.append(dict(id=f"graph-{g}", kind="graph", g=g, weight=10))
    return out

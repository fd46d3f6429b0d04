BOUNDS = "graphs with up to 4 factors in up to 4 groups, residual dimension up to 3, diagonal and full noise models with arbitrary non-singular square-root precision matrices (any sign; up to 2x2 also not triangular, 3x3 lower triangular); residuals uninterpreted"
ASSUMPTIONS = ["every square-root precision matrix is non-singular"]
STUBS = ["log: uninterpreted with log(xy) = log x + log y for positive arguments", "exp: uninterpreted with exp(log x) = x, log(exp x) = x",
         "user residual functions: uninterpreted functions"]
GRAPHS = {
    "diag1": [("diag", 1)],
    "diag3": [("diag", 3)],
    "full1": [("full", 1)],
    "full2": [("full", 2)],
    "tri3": [("tri", 3)],
    "tri-tri": [("tri", 2), ("tri", 2)],
    "diag-diag": [("diag", 2), ("diag", 2)],
    "full-full": [("full", 2), ("full", 2)],
    "mixed": [("diag", 2), ("full", 2), ("diag", 1)],
    "interleaved": [("full", 2), ("diag", 2), ("full", 2), ("diag", 2)],
}


def cases(tier):
    gs = dict(GRAPHS)
    if tier == "thorough":
        gs.update({"full3": [("full", 3)], "tri4": [("tri", 4)], "big": [("full", 2), ("diag", 3), ("tri", 3), ("full", 2), ("full", 1)]})
    out = [dict(id="nll-" + k, kind="nll", noises=[list(x) for x in v], weight=len(v)) for k, v in gs.items()]
    for k in ("havoc", "huber"):
        for mix in (False, True):
            out.append(dict(id=f"refuse-{k}" + ("-mixed" if mix else ""), kind="refuse", noise=k, mix=mix, weight=1))
    return out

BOUNDS = "full covariances up to 3x3 (4x4 thorough) of the form C C' with any lower-triangular C with positive diagonal (every SPD matrix) and directly symbolic SPD matrices up to 2x2; diagonal up to 4; Jacobians with 2 columns"
ASSUMPTIONS = ["covariance symmetric positive definite / variances positive"]
STUBS = ["cholesky, LU, triangular solve: textbook algorithms over reals (LU without pivoting, exact here)"]


def cases(tier):
    out = [dict(id=f"full-{n}", kind="full", n=n, weight=4 ** n) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    out += [dict(id=f"spd-{n}", kind="spd", n=n, weight=4 ** n) for n in (1, 2)]
    out += [dict(id=f"diag-{n}", kind="diag", n=n) for n in (1, 2, 4)]
    out += [dict(id=f"diaglist-{n}", kind="diag", n=n, aslist=True) for n in (2,)]
    return out

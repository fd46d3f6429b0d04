BOUNDS = "conjugate gradients: whole solve for 1 unknown, call of the library routine for up to 3 unknowns and 4 rows; CHOLMOD: up to 3 unknowns and 4 rows, one or two systems of the same shape solved by one solver object, patterns listed in checks/c11_cases.py; all values, right-hand sides, dampings >= 0, tolerances > 0, iteration numbers 0..3"
ASSUMPTIONS = ["no zero column", "no repeated coordinates (conjugate gradients)", "A'A + L diag(A'A) positive definite (whole conjugate gradient solve)", "exact real arithmetic"]
STUBS = ["jax.scipy.sparse.linalg.cg (in the call cases): stops with |b - A x| <= max(tol |b|, atol) or after maxiter iterations, n iterations give the exact solution for positive definite operators and preconditioners",
         "sksparse.cholmod factors: after (in-place) factorization of A with beta, solve_A(b) is the x with (A A' + beta I) x = b",
         "host_callback.call / pure_callback: run the function", "scipy.sparse.coo_matrix: container of triplets"]


def full(m, n):
    return [(i, j) for i in range(m) for j in range(n)]


def cases(tier):
    out = []
    for s in ("plain", "inexact"):
        for m, n in ((1, 1), (2, 1)) + (((3, 1), (4, 1)) if tier == "thorough" else ()):
            out.append(dict(id=f"cg-{s}-{m}x{n}", kind="cg", solver=s, m=m, n=n))
        for m, n in ((1, 1), (2, 2), (3, 2), (3, 3)) + (((4, 3), (5, 4)) if tier == "thorough" else ()):
            out.append(dict(id=f"call-{s}-{m}x{n}", kind="contract", solver=s, m=m, n=n))
        out.append(dict(id=f"call-{s}-3x3-sparse", kind="contract", solver=s, m=3, n=3, pos=[(0, 0), (2, 0), (1, 1), (0, 2), (1, 2)]))
        out.append(dict(id=f"call-{s}-4x2-unsorted", kind="contract", solver=s, m=4, n=2, pos=[(3, 1), (0, 0), (2, 0), (1, 1)]))
    for m, n in ((1, 1), (2, 1), (2, 2), (1, 2), (3, 2), (4, 3)) + (((5, 4),) if tier == "thorough" else ()):
        out.append(dict(id=f"cholmod-{m}x{n}", kind="cholmod", m=m, n=n, systems=[full(m, n)]))
        out.append(dict(id=f"cholmod-{m}x{n}-twice", kind="cholmod", m=m, n=n, systems=[full(m, n), full(m, n)]))
    out.append(dict(id="cholmod-3x2-sparse", kind="cholmod", m=3, n=2, systems=[[(2, 1), (0, 0), (1, 1)], [(2, 1), (0, 0), (1, 1)]]))
    out.append(dict(id="cholmod-3x2-patterns", kind="cholmod", m=3, n=2, systems=[[(0, 0), (1, 1), (2, 1)], full(3, 2), [(0, 1), (1, 0)]]))
    out.append(dict(id="cholmod-2x2-repeated", kind="cholmod", m=2, n=2, systems=[[(0, 0), (0, 0), (1, 1)]]))
    return out

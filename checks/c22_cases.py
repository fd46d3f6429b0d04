BOUNDS = "2D and 3D files with up to 4 vertices and 4 edges; edges forwards, backwards, repeated and interleaved with vertices; all numeric field values (information matrices positive definite)"
ASSUMPTIONS = ["vertices are numbered from zero in file order", "information matrices are positive definite",
               "numeric fields are read exactly (no rounding in the text)"]
STUBS = ["float() and numpy in the parser module accept traced numbers in place of text", "Cholesky factorization: any lower triangular factor with positive diagonal",
         "sin and cos: uninterpreted functions"]
FILES = dict(
    one=["v", "v", (0, 1)], back=["v", "v", "v", (2, 0), (0, 1)], twice=["v", "v", (0, 1), (1, 0), (0, 1)],
    inter=["v", "v", (0, 1), "v", (1, 2), (2, 0)], chain=["v"] * 4 + [(0, 1), (1, 2), (2, 3), (3, 1)], alone=["v"],
)


def cases(tier):
    out = []
    for g in ("SE2", "SE3"):
        for n, ls in FILES.items():
            lines = [["v"] if l == "v" else ["e", *l] for l in ls]
            out.append(dict(id=f"{g}-{n}", kind="parse", group=g, lines=lines))
        out.append(dict(id=f"{g}-spaces", kind="parse", group=g, lines=[["v"], ["v"], ["e", 0, 1]], sep="  "))
    return out

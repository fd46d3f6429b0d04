BOUNDS = "up to 4 unknowns (thorough: 5) in up to 3 variables, all information matrices (upper triangular whitened Jacobians with positive diagonal), structural zeros and query sequences listed in checks/c17_cases.py"
ASSUMPTIONS = ["information matrix invertible", "exact real arithmetic"]
STUBS = ["sksparse.cholmod.cholesky_AAt: L lower triangular with positive diagonal, L L' = P A A' P' for an arbitrary permutation P unless the natural order is requested",
         "numpy.linalg.inv: the inverse", "scipy sparse matrices: containers", "graph: whitened Jacobian given directly (C06 decides that the graph computes it)"]


def cases(tier):
    A = []

    def add(name, types, queries, **kw):
        A.append(dict(id=name, kind="cov", types=types, queries=queries, **kw))

    add("one", ["V1"], [[0], "dense", "entries"])
    add("pair", ["V1", "V1"], [[0], [1], [0, 1], [1, 0], "dense", "entries"])
    add("pair-backwards", ["V1", "V1"], [[1, 0], [1], [0, 1], [0]])
    add("vector", ["V2"], [[0], "dense", "entries"])
    add("mixed", ["V1", "V2"], [[1], [0], [1, 0], [0, 1], "dense", "entries"])
    add("mixed-types", ["V2", "A", "V2"] if tier == "thorough" else ["A", "V2"], [[1, 0], [0], "entries", "dense"])
    add("interleaved", ["V1", "A", "V1"], [[2, 0], [1], [0, 2, 1], "dense"])
    add("three", ["V1", "V1", "V1"], [[2], [0], [2, 0], [0, 1, 2], [1], "dense", "entries"])
    add("three-backwards", ["V1", "V1", "V1"], [[2, 1, 0], [0, 2]], reverse=True)
    add("star-first", ["V1", "V1", "V1"], [[0], [1, 2], [2, 0, 1], "dense", "entries"], zeros=[[1, 2]])
    add("star-last", ["V1", "V1", "V1"], [[0, 1], [2, 0], "dense", "entries"], zeros=[[0, 1]])
    add("chain", ["V1", "V1", "V1"], [[2, 0], [1], "dense", "entries"], zeros=[[0, 2]])
    add("vectors", ["V2", "V2"], [[1], [1, 0], [0], "dense"])
    add("manifold", ["B", "V1"], [[0], [1], [1, 0], "dense", "entries"])
    add("repeated", ["V1", "V1"], [[0, 0], [1, 0, 1]])
    if tier == "thorough":
        add("star-4", ["V1", "V1", "V1", "V1"], [[0], [1, 3], [3, 0], "entries"], zeros=[[1, 2], [1, 3], [2, 3]])
        add("four", ["V1", "V1", "V1", "V1"], [[3, 0, 2], [1], "entries", "dense"])
    return A

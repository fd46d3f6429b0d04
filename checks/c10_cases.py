LEVEL = "other"
BOUNDS = "shapes up to 3x3, up to 4 stored entries (5 thorough), coordinates symbolic in range, repeated coordinates included"
ASSUMPTIONS = ["coordinates are in range of the shape"]
STUBS = ["scipy.sparse.coo_matrix: container of (data,(row,col)),shape; toarray sums duplicates"]


def cases(tier):
    out = []
    shapes = [(1, 1, 2), (2, 3, 3), (3, 2, 3), (3, 3, 4), (1, 3, 3), (2, 2, 0)]
    if tier == "thorough":
        shapes += [(3, 3, 5), (2, 4, 4), (4, 2, 4), (4, 4, 4), (1, 4, 5), (4, 1, 5)]
    for m, n, k in shapes:
        out.append(dict(id=f"views-{m}x{n}-nnz{k}", kind="views", m=m, n=n, nnz=k, weight=m * n * k))
    for m, n, k in shapes:
        if k:
            out.append(dict(id=f"scipy-{m}x{n}-nnz{k}", kind="scipy", m=m, n=n, nnz=k))
    for m, n, k in [(2, 3, 3), (3, 2, 4)]:
        out.append(dict(id=f"intvec-{m}x{n}-nnz{k}", kind="intvec", m=m, n=n, nnz=k))
    return out

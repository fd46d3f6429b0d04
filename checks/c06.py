"""C06: the sparse Jacobian is the derivative of the residual, in the right place."""
import numpy as np

from checks.common import make_runner
from checks.graphs import Graph, LDIM, fill_unmatched, match_blocks, whiten_jac_spec
from jsmt import scal as S
from jsmt.harness import Problem


def dense(h, rows, cols, vals, shape):
    """Sum of the triplets (rows and columns are constants)."""
    D = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        D[i] = h.const(0.0)
    ok = True
    for r, c, v in zip(rows, cols, vals):
        r, c = int(r), int(c)
        if not (0 <= r < shape[0] and 0 <= c < shape[1]):
            ok = False
            continue
        D[r, c] = S.add(D[r, c], v)
    return D, ok


def ints(a):
    """Constant integer array out of an object array."""
    out = []
    for x in np.asarray(a, dtype=object).reshape(-1):
        if isinstance(x, S.R):
            if not S.isF(x.v):
                raise ValueError("coordinates depend on values")
            x = x.v
        out.append(int(x))
    return out


class Jacobian(Problem):
    functions = ("StackedFactorGraph.compute_whitened_residual_jacobian", "FactorStack.compute_residual_jacobian",
                 "FactorStack.compute_jacobian_coords", "FactorBase.compute_residual_jacobians",
                 "VariableBase.manifold_retract_jacobian", "StackedFactorGraph.make", "FactorStack.make")

    def __init__(self, case):
        self.g = Graph(case["struct"], case["order"], case["use_onp"])
        self.bounds = f"graph {case['struct']}"

    def inputs(self):
        return self.g.inputs()

    def real(self, par, **xs):
        graph = self.g.make(par)
        a = self.g.assignments(xs)
        r = graph.compute_whitened_residual_vector(a)
        A = graph.compute_whitened_residual_jacobian(assignments=a, residual_vector=r)
        lay = graph.local_storage_layout
        self.cols = [int(lay.index_from_variable[v]) for v in self.g.variables]
        self.shape = tuple(int(x) for x in A.shape)
        self.local_dim = int(lay.dim)
        return dict(r=r, rows=A.coords.rows, cols=A.coords.cols, vals=A.values)

    def post(self, h, inp, out):
        g = self.g
        vals, par = g.values(inp), inp["par"]
        blocks = [g.residual(h, k, vals, par) for k in range(len(g.factors))]
        m, n = sum(len(b) for b in blocks), sum(LDIM[t] for t in g.types)
        if self.shape != (m, n):
            h.bad(f"shape {self.shape}, expected {(m, n)}")
            return
        if sorted(self.cols) != sorted(self.cols) or self.local_dim != n:
            h.bad("local layout dimension")
        pos, free = match_blocks(h, out["r"], blocks)
        pos = fill_unmatched(pos, free, [len(b) for b in blocks])
        got, ok = dense(h, ints(out["rows"]), ints(out["cols"]), np.asarray(out["vals"], dtype=object).reshape(-1), (m, n))
        if not ok:
            h.bad("coordinate out of range")
        exp = np.empty((m, n), dtype=object)
        for i in np.ndindex(m, n):
            exp[i] = h.const(0.0)
        for k, f in enumerate(g.factors):
            o, np_, oo, nn = g.slots[k]
            for v, J in zip(f["vs"], g.raw_jacobians(h, k, vals, par)):
                W = whiten_jac_spec(h, f["noise"], f["d"], par[oo:oo + nn], J)
                for i in range(W.shape[0]):
                    for j in range(W.shape[1]):
                        q = pos[k] + i, self.cols[v] + j
                        exp[q] = S.add(exp[q], W[i, j])
            h.eq(f"residual of factor {k}", out["r"][pos[k]:pos[k] + f["d"]], blocks[k])
        h.eq("jacobian", got, exp)


run, replay = make_runner(dict(jacobian=Jacobian))

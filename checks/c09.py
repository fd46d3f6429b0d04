"""C09: joint NLL is Mahalanobis terms plus log-determinants of all factors."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from checks.graphs import Graph, fac, tri_index
from jsmt import scal as S
from jsmt.harness import In, Problem, arr


def det(h, M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    t = h.const(0.0)
    for j in range(n):
        minor = np.delete(np.delete(M, 0, 0), j, 1)
        p = S.mul(M[0, j], det(h, minor))
        t = S.add(t, p) if j % 2 == 0 else S.sub(t, p)
    return t


class Nll(Problem):
    functions = ("StackedFactorGraph.compute_joint_nll", "StackedFactorGraph.compute_whitened_residual_vector",
                 "Gaussian.whiten_residual_vector", "DiagonalGaussian.whiten_residual_vector")
    prune = True

    def __init__(self, case):
        fs = [fac("F", [i % 2], n, d, tag=f"t{d}") for i, (n, d) in enumerate(case["noises"])]
        nv = min(2, len(fs))
        self.g = Graph(dict(vars=["V1"] * nv, factors=fs))
        self.bounds = f"noise models {case['noises']}"

    def inputs(self):
        return self.g.inputs()

    def dets(self, h, par):
        out = []
        for f, (o, n, oo, nn) in zip(self.g.factors, self.g.slots):
            q = np.asarray(par[oo:oo + nn], dtype=object)
            if f["noise"] in ("diag", "tri"):
                t = h.const(1.0)
                for x in q if f["noise"] == "diag" else [q[tri_index(i, i)] for i in range(f["d"])]:
                    t = S.mul(t, x)
            else:
                t = det(h, q.reshape((f["d"], f["d"])))
            out.append(t)
        return out

    def assume(self, h, inp):
        out = [S.Not(S.feq(d, h.const(0.0))) for d in self.dets(h, inp["par"])]
        for f, (o, n, oo, nn) in zip(self.g.factors, self.g.slots):
            q = inp["par"][oo:oo + nn]
            for x in q if f["noise"] == "diag" else [q[tri_index(i, i)] for i in range(f["d"])] if f["noise"] == "tri" else []:
                out.append(S.Not(S.feq(x, h.const(0.0))))
        return out

    def real(self, par, **xs):
        return dict(nll=self.g.make(par).compute_joint_nll(self.g.assignments(xs)))

    def post(self, h, inp, out):
        g = self.g
        vals, par = g.values(inp), inp["par"]
        t = h.const(0.0)
        for k in range(len(g.factors)):
            for x in g.residual(h, k, vals, par):
                t = S.add(t, S.mul(x, x))
        for d in self.dets(h, par):
            # log det(covariance) = -log(det(square-root precision)^2)
            t = S.sub(t, S.mul(h.const(2.0), S.math_uf("log", S.absv(d))))
        h.eq("nll", out["nll"], t)


class Refuse(Problem):
    """Non-Gaussian noise: an exception, not a number."""

    functions = ("StackedFactorGraph.compute_joint_nll",)

    def __init__(self, case):
        fs = [fac("F", [0], case["noise"], 1)]
        if case["mix"]:
            fs = [fac("F", [0], "diag", 1)] + fs
        self.g = Graph(dict(vars=["V1"], factors=fs))
        self.bounds = str(case)

    def inputs(self):
        return self.g.inputs()

    def real(self, par, **xs):
        graph, a = self.g.make(par), self.g.assignments(xs)
        try:
            graph.compute_joint_nll(a)
        except Exception:
            return dict(refused=jnp.asarray(1.0))
        return dict(refused=jnp.asarray(0.0))

    def post(self, h, inp, out):
        h.eq("refused", out["refused"].item(), h.const(1.0))


run, replay = make_runner(dict(nll=Nll, refuse=Refuse))

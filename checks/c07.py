"""C07: Gaussian whitening realises the Mahalanobis distance."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from jsmt import scal as S
from jsmt.harness import In, Problem, arr
from jaxfg.noises import DiagonalGaussian, Gaussian


def dot(h, a, b):
    t = h.const(0.0)
    for x, y in zip(a, b):
        t = S.add(t, S.mul(x, y))
    return t


def matmul(h, A, B):
    return arr([[dot(h, A[i], B[:, j]) for j in range(B.shape[1])] for i in range(A.shape[0])])


class Full(Problem):
    prune = True
    functions = ("Gaussian.make_from_covariance", "Gaussian.whiten_residual_vector", "Gaussian.whiten_jacobian",
                 "Gaussian.get_residual_dim")
    budget = 120.0

    def __init__(self, case):
        self.n = case["n"]
        self.bounds = f"{self.n}x{self.n}"

    def inputs(self):
        n = self.n
        return dict(diag=In((n,), sample=lambda r: r.uniform(0.3, 2)), low=In((n * (n - 1) // 2,)), r=In((n,)), J=In((n, 2)))

    def assume(self, h, inp):
        return [S.lt(h.const(0.0), x) for x in inp["diag"]]

    def C(self, inp, zero):
        n = self.n
        C = np.full((n, n), zero, dtype=object)
        k = 0
        for i in range(n):
            C[i, i] = inp["diag"][i]
            for j in range(i):
                C[i, j] = inp["low"][k]
                k += 1
        return C

    def hints(self, inp):
        return list(inp["diag"]) + list(inp["low"])

    def cov(self, **kw):
        C = jnp.array(self.C(kw, 0.0).tolist())
        return C @ C.T

    def model(self, **kw):
        return Gaussian.make_from_covariance(self.cov(**kw))

    def real(self, r, J, **kw):
        m = self.model(**kw)
        n = self.n
        assert m.get_residual_dim() == n
        w = m.whiten_residual_vector(r)
        assert w.shape == (n,)
        return dict(w=w, basis=[m.whiten_residual_vector(jnp.eye(n)[i]) for i in range(n)],
                    J=m.whiten_jacobian(J, residual_vector=r))

    def cov_spec(self, h, inp):
        C = self.C(inp, h.const(0.0))
        return matmul(h, C, C.T)

    def post(self, h, inp, out):
        n = self.n
        W = arr([[out["basis"][j][i] for j in range(n)] for i in range(n)])  # column j = whitened unit vector
        h.eq("whitening is linear", out["w"], arr([dot(h, W[i], inp["r"]) for i in range(n)]))
        h.eq("Jacobian whitened by the same map", out["J"], matmul(h, W, inp["J"]))
        # W' W is the inverse of the covariance  <=>  W S W' = I   (W square)
        Sg = self.cov_spec(h, inp)
        one = arr([[h.const(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
        h.eq("W S W' = I", matmul(h, matmul(h, W, Sg), W.T), one)


class Spd(Full):
    """Covariance entries themselves are the symbols."""

    def inputs(self):
        n = self.n
        d = dict(diag=In((n,), sample=lambda r: r.uniform(0.6, 0.9)), r=In((n,)), J=In((n, 2)))
        if n == 2:
            d["off"] = In((), sample=lambda r: r.uniform(0.2, 0.4))
        return d

    def hints(self, inp):
        return []

    def entries(self, inp):
        d = inp["diag"]
        return [[d[0]]] if self.n == 1 else [[d[0], inp["off"]], [inp["off"], d[1]]]

    def assume(self, h, inp):
        z, d = h.const(0.0), inp["diag"]
        c = [S.lt(z, d[0])]
        if self.n == 2:
            o = self.entries(inp)[0][1]
            o = o.item() if isinstance(o, np.ndarray) else o
            c += [S.lt(z, S.sub(S.mul(d[0], d[1]), S.mul(o, o)))]
        return c

    def cov(self, **kw):
        return jnp.array(self.entries(kw))

    def cov_spec(self, h, inp):
        return arr([[x.item() if isinstance(x, np.ndarray) else x for x in row] for row in self.entries(inp)])


class Diag(Full):
    functions = ("DiagonalGaussian.make_from_covariance", "DiagonalGaussian.whiten_residual_vector",
                 "DiagonalGaussian.whiten_jacobian", "DiagonalGaussian.get_residual_dim")

    def __init__(self, case):
        super().__init__(case)
        self.aslist = case.get("aslist")

    def inputs(self):
        n = self.n
        return dict(diag=In((n,), sample=lambda r: r.uniform(0.3, 2)), r=In((n,)), J=In((n, 2)))

    def hints(self, inp):
        return []

    def model(self, diag):
        return DiagonalGaussian.make_from_covariance([diag[i] for i in range(self.n)] if self.aslist else diag)

    def cov_spec(self, h, inp):
        return arr([[inp["diag"][i] if i == j else h.const(0.0) for j in range(self.n)] for i in range(self.n)])


run, replay = make_runner(dict(full=Full, spd=Spd, diag=Diag))

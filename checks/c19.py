"""C19: prior and between factors measure the documented relative transform."""
from fractions import Fraction

import jax
import jaxlie
import numpy as np
from jax import numpy as jnp

from checks import lie
from checks.common import make_runner
from jaxfg import core, geometry, noises
from jsmt import scal as S
from jsmt.harness import In, Problem


def noise(g, w=None):
    n = lie.TAN[g]
    return noises.DiagonalGaussian(jnp.ones(n) if w is None else w)


def prior(g, mu, w=None):
    return geometry.PriorFactor.make(lie.VARS[g](), mu, noise(g, w))


def between(g, Tab, w=None):
    return geometry.BetweenFactor.make(lie.VARS[g](), lie.VARS[g](), Tab, noise(g, w))


def far(h, x):
    return x >= (Fraction(1, 10 ** 4) if h.symbolic else 1e-4)


class Base(Problem):
    canonical = True
    functions = ("PriorFactor.make", "PriorFactor.compute_residual_vector", "PriorFactor.compute_residual_jacobians",
                 "BetweenFactor.make", "BetweenFactor.compute_residual_vector", "BetweenFactor.compute_residual_jacobians")

    def __init__(self, case):
        self.g, self.f = case["group"], case["factor"]
        self.setup(case)
        self.bounds = f"{self.g} {self.f} factor, all group elements"

    def setup(self, case):
        pass

    def inputs(self):
        d = lie.ins(self.g, "a")
        d.update(lie.ins(self.g, "m"))
        if self.f == "between":
            d.update(lie.ins(self.g, "b"))
        return d

    def hints(self, inp):
        return [1]

    def elements(self, kw):
        return [lie.element(self.g, n, kw) for n in ("a", "b", "m") if n + "_r" in kw]


class Residual(Base):
    """The residual is the logarithm of the documented product (of jaxlie's own operations), for all elements."""

    def real(self, **kw):
        T = self.elements(kw)
        if self.f == "prior":
            a, m = T
            r = prior(self.g, m)
            r = r.compute_residual_vector(r.build_variable_value_tuple((a,)))
            spec = (a.inverse() @ m).log()
        else:
            a, b, m = T
            r = between(self.g, m)
            r = r.compute_residual_vector(r.build_variable_value_tuple((a, b)))
            spec = ((a.inverse() @ b).inverse() @ m).log()
        return dict(r=r, spec=spec)

    def post(self, h, inp, out):
        h.eq("residual", out["r"], out["spec"])


class Closed(Base):
    """The same against a logarithm in closed form written here, away from angle zero and half turns."""

    forking = True
    prune = True

    def setup(self, case):
        self.ident = case["ident"]  # the variables sit at the identity (then only the logarithm is left to compare)

    def inputs(self):
        d = super().inputs()
        return {k: v for k, v in d.items() if k.startswith("m")} if self.ident else d

    def elements(self, kw):
        if self.ident:
            return [lie.GROUPS[self.g].identity()] * (1 if self.f == "prior" else 2) + super().elements(kw)
        return super().elements(kw)

    def relative(self, inp):
        if self.ident:
            return list(lie.params(self.g, "m", inp))
        p = {n: list(lie.params(self.g, n, inp)) for n in ("a", "b", "m") if n + "_r" in inp}
        a = lie.inverse(self.g, p["a"])
        if self.f == "between":
            a = lie.inverse(self.g, lie.multiply(self.g, a, p["b"]))
        return lie.multiply(self.g, a, p["m"])

    def assume(self, h, inp):
        r = self.relative(inp)
        out = [far(h, lie.total(x * x for x in r[1:lie.ROT[self.g]]))] if self.g != "SO2" else []
        if lie.ROT[self.g] == 4:
            out.append(far(h, r[0]))
        if self.g == "SE2":
            out.append(far(h, r[0]))
        return out

    real = Residual.real

    def post(self, h, inp, out):
        want = lie.log(self.g, self.relative(inp))
        if h.symbolic:
            for a, b in zip(out["r"], want):
                h.propose_zero(a - b)
        h.eq("residual in closed form", out["r"], np.array(want, dtype=object))


class Agree(Base):
    """Where variables and measurement agree, the residual is zero and the analytical Jacobians are its derivative."""

    def setup(self, case):
        self.flip = case["flip"]  # the other quaternion of the same rotation

    def inputs(self):
        d = super().inputs()
        if self.f == "prior":
            d = {k: v for k, v in d.items() if not k.startswith("m")}
        else:
            d = {k: v for k, v in d.items() if not k.startswith("b")}
        return d

    def real(self, **kw):
        n, G = lie.TAN[self.g], lie.GROUPS[self.g]
        a = lie.element(self.g, "a", kw)
        m = a if self.f == "prior" else lie.element(self.g, "m", kw)
        vals = (a,) if self.f == "prior" else (a, a @ m)
        if self.flip:
            k = lie.ROT[self.g]
            p = m.parameters()
            m = G(jnp.concatenate([-p[:k], p[k:]]))
        f = prior(self.g, m) if self.f == "prior" else between(self.g, m)
        wrap = lambda *v: f.build_variable_value_tuple(tuple(v))
        J = f.compute_residual_jacobians(wrap(*vals))
        D = jax.jacfwd(lambda d: f.compute_residual_vector(wrap(*[v @ G.exp(x) for v, x in zip(vals, d)])))(
            tuple(jnp.zeros(n) for _ in vals))
        assert len(J) == len(vals)
        return dict(r=f.compute_residual_vector(wrap(*vals)), J=list(J), D=list(D))

    def post(self, h, inp, out):
        n = lie.TAN[self.g]
        h.eq("residual is zero", out["r"], np.array([0.0] * n, dtype=object))
        for k, (J, D) in enumerate(zip(out["J"], out["D"])):
            h.eq(f"Jacobian of variable {k}", J, D)


class Everywhere(Base):
    """SO(2): the analytical Jacobians are the derivative for all elements."""

    def real(self, **kw):
        T = self.elements(kw)
        n, G = lie.TAN[self.g], lie.GROUPS[self.g]
        vals, m = T[:-1], T[-1]
        f = prior(self.g, m) if self.f == "prior" else between(self.g, m)
        wrap = lambda *v: f.build_variable_value_tuple(tuple(v))
        J = f.compute_residual_jacobians(wrap(*vals))
        D = jax.jacfwd(lambda d: f.compute_residual_vector(wrap(*[v @ G.exp(x) for v, x in zip(vals, d)])))(
            tuple(jnp.zeros(n) for _ in vals))
        return dict(J=list(J), D=list(D))

    def post(self, h, inp, out):
        for k, (J, D) in enumerate(zip(out["J"], out["D"])):
            h.eq(f"Jacobian of variable {k}", J, D)


class Reject(Base):
    """The between constructor refuses mismatched groups, whatever the measurement, and accepts matching ones."""

    def inputs(self):
        return {k: v for g in lie.GROUPS for k, v in lie.ins(g, "m" + g).items()}

    def real(self, **kw):
        ok = []
        for g1 in lie.GROUPS:
            for g2 in lie.GROUPS:
                for g3 in lie.GROUPS:
                    try:
                        f = geometry.BetweenFactor.make(lie.VARS[g1](), lie.VARS[g2](), lie.element(g3, "m" + g3, kw), noise(g3))
                        made = True
                    except Exception:
                        made = False
                    ok.append(made == (g1 == g2 == g3))
        return jnp.array(ok)

    def post(self, h, inp, out):
        h.eq("constructor accepts exactly matching groups", out, np.array([True] * 64, dtype=object))


run, replay = make_runner(dict(residual=Residual, closed=Closed, agree=Agree, everywhere=Everywhere, reject=Reject))

"""C08: Huber wrapping reweights residual and Jacobian consistently."""
import numpy as np
from jax import numpy as jnp

from checks.common import make_runner
from checks.graphs import Graph, LDIM, fac, make_noise, noise_params, whiten_jac_spec, whiten_spec
from checks.c06 import dense, ints
from jsmt import scal as S
from jsmt.harness import In, Problem, arr


def sumsq(h, w):
    t = h.const(0.0)
    for x in w:
        t = S.add(t, S.mul(x, x))
    return t


class Model(Problem):
    functions = ("HuberWrapper.whiten_residual_vector", "HuberWrapper.get_residual_dim")
    prune = True

    def __init__(self, case):
        self.w, self.d = case["wrapped"], case["d"]
        self.kind = {"diag": "huber", "full": "huberfull"}[self.w]
        self.bounds = f"{self.w} {self.d}"

    def inputs(self):
        return dict(p=In((noise_params(self.kind, self.d) - 1,)), delta=In((), sample=lambda r: r.uniform(0.1, 2)), r=In((self.d,)))

    def assume(self, h, inp):
        return [S.lt(h.const(0.0), inp["delta"].item())]

    def real(self, p, delta, r):
        m = make_noise(self.kind, self.d, jnp.concatenate([delta[None], p]))
        assert m.get_residual_dim() == self.d
        return dict(w=m.whiten_residual_vector(r))

    def post(self, h, inp, out):
        d, delta = self.d, inp["delta"].item()
        w = whiten_spec(h, self.w, d, inp["p"], inp["r"])
        n = S.sqrt(sumsq(h, w))
        inside = S.lt(n, delta)
        o = out["w"]
        if o.shape != (d,):
            h.bad("shape")
            return
        for i in range(d):
            h.holds(f"inside: unchanged [{i}]", S.Or(S.Not(inside), S.same(o[i], w[i])) if h.symbolic else (
                not inside or abs(o[i] - w[i]) <= 1e-6 * (1 + abs(w[i]))))
        out2 = sumsq(h, o)
        tgt = S.ite(inside, sumsq(h, w), S.mul(delta, n)) if h.symbolic else (sumsq(h, w) if inside else delta * n)
        h.eq("squared norm", out2, tgt)
        # same direction: parallel and not opposite
        for i in range(d):
            for j in range(i):
                h.eq(f"parallel [{i},{j}]", S.mul(o[i], w[j]), S.mul(o[j], w[i]))
        ip = h.const(0.0)
        for i in range(d):
            ip = S.add(ip, S.mul(o[i], w[i]))
        h.le("not opposite", h.const(0.0), ip)
        if h.symbolic:
            h.reach("outside", S.Not(inside))
            h.reach("inside", inside)


GR = dict(
    one1=dict(vars=["V1"], factors=[fac("F", [0], "huber", 1)]),
    one2=dict(vars=["V1"], factors=[fac("F", [0], "huber", 2)]),
    one3=dict(vars=["V1"], factors=[fac("F", [0], "huber", 3)]),
    two=dict(vars=["V1", "V1"], factors=[fac("F", [0], "huber", 1), fac("F", [1], "huber", 1)]),
    mix=dict(vars=["V1", "V1"], factors=[fac("F", [1], "diag", 1, tag="G"), fac("F", [0, 1], "huber", 1), fac("F", [0], "diag", 1, tag="G")]),
    full2=dict(vars=["V1"], factors=[fac("F", [0], "huberfull", 2)]),
    full3=dict(vars=["V1"], factors=[fac("F", [0], "huberfull", 3)]),
    man=dict(vars=["A", "B"], factors=[fac("F", [0, 1], "huber", 2)]),
)


class InGraph(Problem):
    functions = ("HuberWrapper.whiten_residual_vector", "HuberWrapper.whiten_jacobian",
                 "StackedFactorGraph.compute_whitened_residual_jacobian", "StackedFactorGraph.compute_whitened_residual_vector")
    prune = True
    budget = 120.0

    def __init__(self, case):
        self.g = Graph(GR[case["g"]])
        self.bounds = f"graph {case['g']}"

    def inputs(self):
        return self.g.inputs()

    def deltas(self, inp):
        return [inp["par"][oo] for f, (o, n, oo, nn) in zip(self.g.factors, self.g.slots) if f["noise"].startswith("huber")]

    def assume(self, h, inp):
        return [S.lt(h.const(0.0), d) for d in self.deltas(inp)]

    def real(self, par, **xs):
        graph = self.g.make(par)
        a = self.g.assignments(xs)
        r = graph.compute_whitened_residual_vector(a)
        A = graph.compute_whitened_residual_jacobian(assignments=a, residual_vector=r)
        lay = graph.local_storage_layout
        self.cols = [int(lay.index_from_variable[v]) for v in self.g.variables]
        self.shape = tuple(int(x) for x in A.shape)
        # row order: groups in order of first appearance (C05/C06 decide that rows line up with residuals)
        return dict(r=r, rows=A.coords.rows, cols=A.coords.cols, vals=A.values)

    def post(self, h, inp, out):
        g = self.g
        vals, par = g.values(inp), inp["par"]
        blocks = [g.residual(h, k, vals, par) for k in range(len(g.factors))]
        m, n = sum(len(b) for b in blocks), sum(LDIM[t] for t in g.types)
        if self.shape != (m, n):
            h.bad("shape")
            return
        from checks.graphs import fill_unmatched, match_blocks

        pos, free = match_blocks(h, out["r"], blocks)
        pos = fill_unmatched(pos, free, [len(b) for b in blocks])
        got, ok = dense(h, ints(out["rows"]), ints(out["cols"]), np.asarray(out["vals"], dtype=object).reshape(-1), (m, n))
        for k, f in enumerate(g.factors):
            o, np_, oo, nn = g.slots[k]
            q = par[oo:oo + nn]
            hub = f["noise"].startswith("huber")
            inner = dict(huber="diag", huberfull="full").get(f["noise"], f["noise"])
            if hub:
                delta = q[0]
                q = q[1:]
                w = whiten_spec(h, inner, f["d"], q, g.raw_residual(h, k, vals, par))
                nn_ = S.sqrt(sumsq(h, w))
                inside = S.lt(nn_, delta)
            h.eq(f"residual of factor {k}", out["r"][pos[k]:pos[k] + f["d"]], blocks[k])
            for v, J in zip(f["vs"], g.raw_jacobians(h, k, vals, par)):
                W = whiten_jac_spec(h, inner, f["d"], q, J)
                for i in range(W.shape[0]):
                    for j in range(W.shape[1]):
                        x = got[pos[k] + i, self.cols[v] + j]
                        lab = f"factor {k} jacobian [{i},{j}]"
                        if not hub:
                            h.eq(lab, x, W[i, j])
                        elif h.symbolic:
                            sc = S.sqrt(S.div(delta, nn_))
                            h.eq(lab, x, S.ite(inside, W[i, j], S.mul(W[i, j], sc)))
                        else:
                            h.eq(lab, x, W[i, j] if inside else W[i, j] * np.sqrt(delta / nn_))
            if hub and h.symbolic:
                h.reach(f"factor {k} outside", S.Not(inside))
                h.reach(f"factor {k} inside", inside)


run, replay = make_runner(dict(model=Model, graph=InGraph))

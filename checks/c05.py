"""C05: graph residuals and cost equal the per-factor ones."""
import numpy as np

from checks.common import make_runner
from checks.graphs import Graph, fill_unmatched, match_blocks
from jsmt import scal as S
from jsmt.harness import Problem


class Residual(Problem):
    functions = ("StackedFactorGraph.make", "StackedFactorGraph.compute_whitened_residual_vector",
                 "StackedFactorGraph.compute_cost", "FactorStack.make", "FactorStack.compute_residual_vector",
                 "FactorBase.build_variable_value_tuple", "FactorBase.anonymize_variables", "VariableAssignments.make_from_dict",
                 "VariableAssignments.update_storage_layout")

    def __init__(self, case):
        self.g = Graph(case["struct"], case["order"], case["use_onp"])
        self.bounds = f"graph {case['struct']}"

    def inputs(self):
        return self.g.inputs()

    def real(self, par, **xs):
        graph = self.g.make(par)
        a = self.g.assignments(xs)
        cost, r = graph.compute_cost(a)
        return dict(r=graph.compute_whitened_residual_vector(a), cost=cost, r2=r)

    def post(self, h, inp, out):
        g = self.g
        vals, par = g.values(inp), inp["par"]
        blocks = [g.residual(h, k, vals, par) for k in range(len(g.factors))]
        total = sum(len(b) for b in blocks)
        r = out["r"]
        if r.shape != (total,):
            h.bad(f"residual vector has shape {r.shape}, expected {(total,)}")
            return
        pos, free = match_blocks(h, r, blocks)
        pos = fill_unmatched(pos, free, [len(b) for b in blocks])
        for k, (p, b) in enumerate(zip(pos, blocks)):
            if p is None:
                h.bad(f"residual of factor {k} does not appear in the graph residual")
                continue
            h.eq(f"factor {k}", r[p:p + len(b)], b)
        h.eq("residual returned with cost", out["r2"], r)
        c = h.const(0.0)
        for b in blocks:
            for x in b:
                c = S.add(c, S.mul(x, x))
        h.eq("cost", out["cost"], c)


run, replay = make_runner(dict(residual=Residual))

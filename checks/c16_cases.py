BOUNDS = "Gauss-Newton, fixed-iteration Gauss-Newton, Levenberg-Marquardt: at most 2 iterations (thorough: 3), dogleg: 1 iteration with arbitrary and 2 with short linear solver responses; every pair (default order, other order) of graphs with 2 or 3 variables; tolerances and hyperparameters symbolic"
ASSUMPTIONS = ["tolerances >= 0", "exact real arithmetic"]
STUBS = ["linear solver: uninterpreted function of (A, ATb, damping, iteration)", "residual, Jacobian and retraction functions: uninterpreted"]

import itertools


def cases(tier):
    deep = tier == "thorough"
    out = []
    for g, n in (("two", 2), ("pair", 2), ("three", 3), ("mixed", 3)):
        orders = list(itertools.permutations(range(n)))[1:]
        for o in orders:
            name = "".join(map(str, o))
            base = dict(kind="solver", g=g, orders=[list(range(n)), list(o)])

            def add(solver, K, **kw):
                tag = "".join(f"-{k}" for k in kw.pop("tags", ()))
                out.append(dict(base, id=f"{solver}-{g}-{name}-{K}{tag}", solver=solver, K=K, weight=K * 2, **kw))

            for u in (True, False):
                add("fixed", 2, unroll=u, tags=["unrolled" if u else "loop"])
            for K in (2,) + ((3,) if deep else ()):
                add("gn", K)
            if n == 2 or deep or o == orders[-1]:
                add("lm", 2)
                if g != "mixed" or deep:
                    add("dl", 1, tags=["steps"], tol=False, maxit=1, **({} if g == "two" or deep else dict(small=True)))
            if n == 2 and deep:
                add("lm", 3)
                add("dl", 2, small=True)
    return out

BOUNDS = "batches of 2 or 3 elements (and nested batches) over the graph catalogue of C05; whole solves of up to 3 iterations in which elements end at different iterations"
ASSUMPTIONS = ["solves use linear solvers that support vmap (CholmodSolver documents that it does not)"]
STUBS = ["residual, retraction and noise functions: uninterpreted", "linear solver of whole solves: uninterpreted function of the system"]
STRUCT = ["single", "chain", "interleaved", "mixed", "twice", "static", "shapes", "named", "analytic", "noise", "havocnoise", "huber", "fat", "ternary", "swapped"]


def cases(tier):
    out = []
    for s in STRUCT:
        out.append(dict(id=f"evaluate-{s}", kind="evaluate", struct=s))
        out.append(dict(id=f"stacked-{s}", kind="evaluate", struct=s, stacked=True, B=3 if s in ("single", "named") else 2))
        out.append(dict(id=f"values-{s}", kind="values", struct=s))
    for s in ("single", "interleaved", "analytic", "noise"):
        for how in ("values", "params"):
            out.append(dict(id=f"only-{how}-{s}", kind="evaluate", struct=s, how=how))
        out.append(dict(id=f"nested-{s}", kind="evaluate", struct=s, nested=True))
        out.append(dict(id=f"values-stacked-{s}", kind="values", struct=s, stacked=True))
        out.append(dict(id=f"jnp-{s}", kind="evaluate", struct=s, use_onp=False))
    for s in ("single", "noise", "interleaved"):
        out.append(dict(id=f"nll-{s}", kind="nll", struct=s))
        out.append(dict(id=f"nll-stacked-{s}", kind="nll", struct=s, stacked=True))
    for unroll in (True, False):
        out.append(dict(id=f"solve-fixed-{unroll}", kind="solve", solver="fixed", g="two", K=2, unroll=unroll, tol=[]))
    out.append(dict(id="solve-gn", kind="solve", solver="gn", g="tiny", K=3, tol=["cost_tolerance"]))
    out.append(dict(id="solve-gn-stacked", kind="solve", solver="gn", g="tiny", K=2, tol=["parameter_tolerance"], stacked=True))
    out.append(dict(id="solve-gn-two", kind="solve", solver="gn", g="two", K=2, tol=["gradient_tolerance"]))
    out.append(dict(id="solve-lm", kind="solve", solver="lm", g="tiny", K=2, tol=["cost_tolerance"]))
    out.append(dict(id="solve-lm-stacked", kind="solve", solver="lm", g="two" if tier == "thorough" else "tiny", K=2, tol=[], stacked=True))
    out.append(dict(id="solve-dl", kind="solve", solver="dl", g="tiny", K=1, tol=["cost_tolerance"]))
    out.append(dict(id="solve-gn-verbose", kind="solve", solver="gn", g="tiny", K=2, tol=["cost_tolerance"], verbose=True))
    if tier == "thorough":
        out.append(dict(id="solve-dl-2", kind="solve", solver="dl", g="tiny", K=2, tol=[]))
        out.append(dict(id="solve-gn-3", kind="solve", solver="gn", g="pair", K=3, tol=["cost_tolerance", "parameter_tolerance"]))
        out.append(dict(id="solve-lm-3", kind="solve", solver="lm", g="tiny", K=3, tol=["cost_tolerance"]))
        out.append(dict(id="cg-3", kind="linear", rows=[0, 1, 1], cols=[0, 0, 1], shape=[2, 2]))
    out.append(dict(id="cg-1", kind="linear", rows=[0], cols=[0], shape=[1, 1]))
    out.append(dict(id="cg-2", kind="linear", rows=[0, 1], cols=[0, 0], shape=[2, 1]))
    return out

import itertools

BOUNDS = "catalogue of graph structures (checks/graphs.py STRUCTS), <=5 variables of <=4 types, <=5 factors, all permutations of <=3-variable assignments (a selection for larger), residual dim <=3"
ASSUMPTIONS = ["residual, whitening and retraction functions are deterministic functions of their arguments"]
STUBS = ["user residual / whitening / retraction: uninterpreted functions"]
NAMES = ["single", "chain", "interleaved", "mixed", "twice", "twice_man", "static", "shapes", "named", "analytic", "noise",
         "havocnoise", "huber", "fat", "ternary", "swapped"]
NVARS = dict(single=1, chain=3, interleaved=3, mixed=5, twice=2, twice_man=2, static=2, shapes=2, named=3, analytic=3, noise=2,
             havocnoise=2, huber=2, fat=3, ternary=3, swapped=4)


def cases(tier, kind="residual", names=NAMES):
    out = []
    for nm in names:
        n = NVARS[nm]
        orders = list(itertools.permutations(range(n)))
        if tier == "quick":
            pick = [orders[0], orders[-1]] + orders[len(orders) // 2:len(orders) // 2 + 1]
        else:
            pick = orders if n <= 4 else orders[::7]
        for o in dict.fromkeys(pick):
            for onp in (True, False):
                if tier == "quick" and onp is False and o != orders[-1]:
                    continue
                out.append(dict(id=f"{kind}-{nm}-{''.join(map(str, o))}-{'onp' if onp else 'jnp'}", kind=kind, struct=nm,
                                order=list(o), use_onp=onp))
    return out

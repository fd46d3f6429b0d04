import itertools

BOUNDS = "up to 5 variables of up to 4 types; ordered pairs of layouts over them (all permutations for <=3 variables, a selection above), global and local, all values"
ASSUMPTIONS = []
STUBS = []
SETS = dict(same=["V1", "V1", "V1"], uneq=["V1", "V2", "A"], mixed=["B", "V2", "A", "B"], fat=["C", "A", "C"], inter=["V1", "A", "V1", "C", "A"])


def cases(tier):
    out = []
    for nm, ts in SETS.items():
        n = len(ts)
        perms = [list(p) for p in itertools.permutations(range(n))]
        step = 1 if n <= 3 else (5 if n == 4 else 29)
        if tier == "thorough":
            step = 1 if n <= 4 else 5
        for local in (False, True):
            for p in perms[::step]:
                out.append(dict(id=f"re-{nm}-{'loc' if local else 'glob'}-{''.join(map(str, p))}", kind="relayout", types=ts,
                                order=p, order2=perms[(7 * perms.index(p) + 3) % len(perms)], local=local))
    for nm in ("other", "subset", "superset", "localglobal", "globallocal", "otherlocal"):
        out.append(dict(id=f"refuse-{nm}", kind="refuse", what=nm))
    return out

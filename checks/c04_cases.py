import itertools

BOUNDS = "up to 5 variables of up to 4 types with differing parameter and tangent dimensions, every (<=3 variables) or selected pairs of storage orders, arbitrary retraction functions, all values and deltas"
ASSUMPTIONS = ["retractions are deterministic functions of value and delta"]
STUBS = ["retraction of the non-Euclidean test variables: uninterpreted functions"]
SETS = dict(one=["A"], vec=["V2", "V2", "V2"], uneq=["V1", "B", "A"], man=["A", "A", "A"], fat=["C", "A", "C"], mixed=["B", "V2", "A", "B"],
            inter=["V1", "A", "V1", "C", "A"])


def cases(tier):
    out = []
    for nm, ts in SETS.items():
        n = len(ts)
        perms = [list(p) for p in itertools.permutations(range(n))]
        pairs = [(p, p) for p in (perms[:1] + perms[-1:])] + [(perms[0], p) for p in perms[1:]] + [(p, perms[0]) for p in perms[1:]]
        if n > 3:
            pairs = pairs[:2] + pairs[2::13 if tier == "quick" else 3]
        if tier == "thorough" and n <= 3:
            pairs = [(p, q) for p in perms for q in perms]
        seen = set()
        for p, q in pairs:
            i = f"retract-{nm}-{''.join(map(str, p))}-{''.join(map(str, q))}"
            if i not in seen:
                seen.add(i)
                out.append(dict(id=i, kind="retract", types=ts, order=p, order2=q))
    return out

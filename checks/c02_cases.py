import itertools

BOUNDS = "variable sets of up to 6 variables of up to 4 types (vectors, structured values), all values; histories: build (3 ways), up to 2 replacements, all reads after each"
ASSUMPTIONS = []
STUBS = []
SETS = dict(one=["V2"], same=["V1", "V1", "V1"], mixed=["B", "V2", "A", "B"], inter=["V1", "A", "V1", "C", "A", "V1"], struct=["B", "B", "V3"],
            pair=["V2", "A"])


def cases(tier):
    out = []
    for nm, ts in SETS.items():
        n = len(ts)
        orders = [list(range(n)), list(range(n))[::-1]]
        if tier == "thorough":
            orders = [list(p) for p in itertools.permutations(range(n))][:: (1 if n <= 4 else 31)]
        for o in {tuple(o): o for o in orders}.values():
            t = "".join(map(str, o))
            out.append(dict(id=f"dict-{nm}-{t}", kind="map", how="dict", types=ts, order=o))
            out.append(dict(id=f"partial-{nm}-{t}", kind="map", how="partial", types=ts, order=o))
            out.append(dict(id=f"default-{nm}-{t}", kind="map", how="default", types=ts, order=o))
            out.append(dict(id=f"set-{nm}-{t}", kind="set", types=ts, order=o, weight=2))
    return out

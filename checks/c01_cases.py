BOUNDS = "sequences of up to 5 (quick) / 6 (thorough) distinct variables over up to 3 types (every assignment of types), all parameter and tangent dimensions >= 1 (unbounded, symbolic), global and local"
ASSUMPTIONS = ["dimensions are integers >= 1 (relaxed to reals)"]
STUBS = ["get_parameter_dim / get_local_parameter_dim of the variable classes: symbolic"]


def cases(tier):
    out = []
    for n in range(1, 6 if tier == "quick" else 7):
        for how in ("list", "gen"):
            if how == "gen" and n not in (1, 3):
                continue
            out.append(dict(id=f"layout-{n}-{how}", kind="layout", n=n, how=how, weight=4 ** n))
    return out

BOUNDS = "SO(2), SE(2), SO(3), SE(3); all unit rotations and translations; all deltas"
ASSUMPTIONS = ["values lie on the manifold", "jaxlie's group operations are as documented (their closed forms are checked where the rotation angle is at least 3e-5)"]
STUBS = ["sin and cos: uninterpreted functions with sin^2 + cos^2 = 1"]


def cases(tier):
    out = [dict(id=f"{g}-{w}", kind="group", group=g, what=w) for g in ("SO2", "SE2", "SO3", "SE3")
           for w in ("dimensions", "flatten", "zero", "jacobian", "multiplication", "closed-form", "exponential", "stays")]
    out += [dict(id=f"vector-{n}", kind="plain", name=n) for n in (range(1, 6) if tier == "quick" else range(1, 13))]
    out += [dict(id=f"struct-{n}", kind="plain", name=n) for n in ("scalar", "matrix", "dict", "named", "nested", "group", "empty")]
    out += [dict(id=f"custom-{t}", kind="custom", type=t) for t in "ABC"]
    return out

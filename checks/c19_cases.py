BOUNDS = "SO(2), SE(2), SO(3), SE(3); prior and between factors; all unit rotations and translations"
ASSUMPTIONS = ["values and measurements lie on the manifold", "jaxlie's group operations are as documented (their closed forms are checked away from angle zero and half turns)"]
STUBS = ["sin, cos, atan2: uninterpreted functions with sin^2 + cos^2 = 1"]


FULL = [("SO2", "prior"), ("SO2", "between"), ("SO3", "prior"), ("SO3", "between")]


def cases(tier):
    out = [dict(id="mismatched", kind="reject", group="SO2", factor="between")]
    for g in ("SO2", "SE2", "SO3", "SE3"):
        for f in ("prior", "between"):
            out.append(dict(id=f"residual-{g}-{f}", kind="residual", group=g, factor=f))
            if (g, f) in FULL or (g, f) == ("SE2", "prior") and tier == "thorough":
                out.append(dict(id=f"closed-{g}-{f}", kind="closed", group=g, factor=f, ident=False))
            out.append(dict(id=f"log-{g}-{f}", kind="closed", group=g, factor=f, ident=True))
            out.append(dict(id=f"agree-{g}-{f}", kind="agree", group=g, factor=f, flip=False))
            if g in ("SO3", "SE3"):
                out.append(dict(id=f"antipode-{g}-{f}", kind="agree", group=g, factor=f, flip=True))
            if g == "SO2":
                out.append(dict(id=f"everywhere-{g}-{f}", kind="everywhere", group=g, factor=f))
    return out

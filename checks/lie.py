"""The four Lie groups in terms of plain reals: reference models written from the definitions."""
import jaxlie
import numpy as np
from jax import numpy as jnp

from jaxfg import geometry
from jsmt import scal as S
from jsmt.harness import In

GROUPS = dict(SO2=jaxlie.SO2, SE2=jaxlie.SE2, SO3=jaxlie.SO3, SE3=jaxlie.SE3)
VARS = dict(SO2=geometry.SO2Variable, SE2=geometry.SE2Variable, SO3=geometry.SO3Variable, SE3=geometry.SE3Variable)
ROT = dict(SO2=2, SE2=2, SO3=4, SE3=4)  # numbers of the rotation (unit complex number or quaternion)
TR = dict(SO2=0, SE2=2, SO3=0, SE3=3)  # numbers of the translation
TAN = dict(SO2=1, SE2=3, SO3=3, SE3=6)


def ins(g, name):
    d = {f"{name}_r": In((ROT[g],), unit=True)}
    if TR[g]:
        d[f"{name}_t"] = In((TR[g],))
    return d


def element(g, name, kw):
    """jaxlie object from the inputs of `ins`."""
    r = kw[f"{name}_r"]
    return GROUPS[g](jnp.concatenate([r, kw[f"{name}_t"]]) if TR[g] else r)


def params(g, name, inp):
    """The same as an array of scalars."""
    r = list(inp[f"{name}_r"])
    return np.array(r + (list(inp[f"{name}_t"]) if TR[g] else []), dtype=object)


def rotmul(a, b):
    if len(a) == 2:
        return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    (w, x, y, z), (p, q, r, s) = a, b
    return [w * p - x * q - y * r - z * s, w * q + x * p + y * s - z * r,
            w * r - x * s + y * p + z * q, w * s + x * r - y * q + z * p]


def rotinv(a):
    return [a[0]] + [-x for x in a[1:]]


def matrix(r):
    """Rotation matrix of a unit complex number or unit quaternion."""
    if len(r) == 2:
        c, s = r
        return [[c, -s], [s, c]]
    w, x, y, z = r
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def total(xs):
    xs = list(xs)
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def apply(r, t):
    return [total(m * x for m, x in zip(row, t)) for row in matrix(r)]


def multiply(g, a, b):
    n = ROT[g]
    r = rotmul(a[:n], b[:n])
    if not TR[g]:
        return r
    return r + [x + y for x, y in zip(apply(a[:n], b[n:]), a[n:])]


def inverse(g, a):
    n = ROT[g]
    r = rotinv(a[:n])
    return r if not TR[g] else r + [-x for x in apply(r, a[n:])]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def exp(g, d):
    """Exponential in closed form (rotation angle not zero)."""
    sin, cos = (lambda x: S.math_uf("sin", x)), (lambda x: S.math_uf("cos", x))
    d = list(d)
    if g in ("SO2", "SE2"):
        th = d[-1]
        s, c = sin(th), cos(th)
        if g == "SO2":
            return [c, s]
        x, y = d[:2]
        return [c, s, (s * x - (1 - c) * y) / th, ((1 - c) * x + s * y) / th]
    w = d[-3:]
    sq = total(x * x for x in w)
    th = S.sqrt(sq)
    half = th * 0.5
    s2 = sin(half) / th
    r = [cos(half)] + [s2 * x for x in w]
    if g == "SO3":
        return r
    v = d[:3]
    wv = cross(w, v)
    wwv = cross(w, wv)
    a, b = (1 - cos(th)) / sq, (th - sin(th)) / (sq * th)
    return r + [x + a * y + b * z for x, y, z in zip(v, wv, wwv)]


def angle2(g, d):
    """Square of the rotation angle of a tangent vector."""
    k = 1 if g in ("SO2", "SE2") else 3
    return total(x * x for x in list(d)[-k:])


def log(g, a):
    """Logarithm in closed form (rotation angle neither zero nor a half turn, real part positive for quaternions)."""
    atan2 = lambda y, x: S.math_uf("atan2", y, x)
    if ROT[g] == 2:
        th = atan2(a[1], a[0])
        if g == "SO2":
            return [th]
        half = th * 0.5
        x, y = a[2:]
        c, s = S.math_uf("cos", th), S.math_uf("sin", th)
        k = half * s / (1 - c)  # (theta/2) / tan(theta/2)
        return [k * x + half * y, -half * x + k * y, th]
    w, v = a[0], a[1:4]
    n = S.sqrt(total(x * x for x in v))
    f = 2 * atan2(n, w) / n
    om = [f * x for x in v]
    if g == "SO3":
        return om
    sq = total(x * x for x in om)
    th = S.sqrt(sq)
    half = th * 0.5
    c, s = S.math_uf("cos", half), S.math_uf("sin", half)
    k = (1 - half * c / s) / sq
    t = a[4:]
    wt = cross(om, t)
    wwt = cross(om, wt)
    return [x - 0.5 * y + k * z for x, y, z in zip(t, wt, wwt)] + om

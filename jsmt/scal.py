"""Scalars of the symbolic semantics.

Reals are "extended reals": an exact real value plus the flags nan / +inf / -inf, folded
away whenever they are statically false.  Rounding and the sign of zero are not modelled
(x/0 is taken as x/+0).  Symbolic integers are integer-valued reals (the harness constrains
them to a finite set), booleans are Python bools or z3 BoolRefs.

All functions also accept concrete numpy float64 / int / bool operands, so reference models
written against this module can be executed on numbers as well.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from . import _Z3  # noqa: F401  (extends sys.path)
import z3

# --------------------------------------------------------------------------- context


class Ctx:
    """One verification context: definitions of introduced symbols, UF applications."""

    def __init__(self):
        self.defs = []  # (frozenset of defined symbol names, formula)
        self.assumptions = []
        self.n = 0
        self.sqrt_memo = {}
        self.cholesky_contract = False  # Cholesky factors are any factors, not computed ones
        self.canon = None  # Canon: keep polynomials in normal form modulo relations
        self.relations = {}  # name -> (term equal to its square, condition | None), beyond square roots and cosines
        self.div_memo = {}
        self.unary_memo = {}
        self.apps = {}  # name -> list of (args [R], outs [R])
        self.app_memo = {}
        self.uf_nonfinite = set()  # names whose outputs may be nan/inf
        self.uf_axioms = {}  # name -> fn(args, outs) -> list of formulas
        self.prune = False
        self.noted = {}
        self.maxima = {}  # id of a maximum -> its operands
        self.positive = {}  # terms known to be positive
        self.push_mul = False  # distribute multiplication over if-then-else
        self.prune_ms = 300
        self.prune_queries = 0
        self.prune_memo = {}
        self.inputs = {}  # name -> symbol(s)
        self.hints = []  # terms which results of sqrt/div may turn out to be equal to
        self.obligations = []  # side obligations raised while interpreting
        self.fork = None  # Fork: explore scalar branches path by path

    def fresh(self, prefix):
        self.n += 1
        return z3.Real(f"{prefix}!{self.n}")

    def fresh_bool(self, prefix):
        self.n += 1
        return z3.Bool(f"{prefix}!{self.n}")

    def define(self, syms, formula):
        if formula is True:
            return
        self.defs.append((frozenset(str(s) for s in syms), formula))

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.assumptions.append(cond)

    def infeasible(self, cond):
        """True only if the solver proves `cond` impossible under the assumptions."""
        if cond is False:
            return True
        if cond is True or not self.prune:
            return False
        cond = z3.simplify(cond)
        key = cond.get_id()
        if key in self.prune_memo:
            return self.prune_memo[key][1]
        from . import query

        self.prune_queries += 1
        s = z3.Solver()
        s.set("timeout", self.prune_ms)
        for f in query.cone(self, self.assumptions + [cond]):
            s.add(f)
        r = s.check() == z3.unsat
        self.prune_memo[key] = (cond, r)
        return r


class PathLimit(Exception):
    pass


class Fork:
    """One path of a path-by-path exploration: replays `prefix`, then takes new decisions."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []  # (outcome, both sides possible)
        self.memo = {}
        self.split_memo = {}
        self.lazy, self.parts, self.thunks, self.nbool = {}, {}, [], 0
        self.lazy_memo, self.resolved = {}, {}

    def next_prefixes(self):
        """Paths still to explore which differ from this one after its prefix."""
        out = []
        for i in range(len(self.prefix), len(self.taken)):
            if self.taken[i][1]:
                out.append([t[0] for t in self.taken[:i]] + [not self.taken[i][0]])
        return out

    def known(self, e):
        """e, or its value if that has been decided."""
        s = z3.simplify(e, som=True, sort_sums=True)
        neg = False
        while z3.is_not(s):
            s, neg = s.arg(0), not neg
        hit = self.memo.get(s.get_id())
        return e if hit is None and not (z3.is_true(s) or z3.is_false(s)) else z3.BoolVal((hit[0] if hit else z3.is_true(s)) != neg)

    def possible(self, c, cond):
        """False only if the condition is impossible on this path (replayed like a decision)."""
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            from . import query

            r = query.feasible(c, [cond])
        self.taken.append((r, False))
        return r

    def decide(self, c, cond):
        s = z3.simplify(cond, som=True, sort_sums=True)
        if z3.is_true(s) or z3.is_false(s):
            return z3.is_true(s)
        neg = False
        while z3.is_not(s):
            s, neg = s.arg(0), not neg
        hit = self.memo.get(s.get_id())
        if hit is not None:
            return hit[0] != neg
        if s.num_args() and (z3.is_and(s) or z3.is_or(s) or z3.is_eq(s) and z3.is_bool(s.arg(0))):
            # put in what has been decided already
            t = z3.simplify(z3.substitute(s, *[(a, z3.BoolVal(v)) for v, a in self.memo.values()])) if self.memo else s
            if not t.eq(s):
                return self.decide(c, z3.Not(t) if neg else t)
        i = len(self.taken)
        if i < len(self.prefix):
            r, both = self.prefix[i], False
            self.taken.append((r, both))
        else:
            from . import query

            t_ok = query.feasible(c, [cond])
            f_ok = query.feasible(c, [z3.Not(cond)])
            r = t_ok or not f_ok
            self.taken.append((r, t_ok and f_ok))
        c.assume(cond if r else z3.Not(cond))
        self.memo[s.get_id()] = (r != neg, s)
        return r


# Path by path exploration is lazy: a select, or an operation on a value whose special-value flags or selects are
# not decided yet, only becomes a decision when a branch, an uninterpreted function or an obligation needs it.


def lazy_ite(cond, a, b):
    """If-then-else to be decided when needed."""
    if is_pb(cond):
        return a if cond else b
    if is_b(a) and is_b(b):
        return bite(cond, a, b)
    a, b = rr(a), rr(b)

    def flag(x, y):  # kept as if-then-else, so that the condition is decided before either side
        return bool(x) if is_pb(x) and is_pb(y) and bool(x) == bool(y) else z3.If(cond, to_z3b(x), to_z3b(y))

    out = R(vite(cond, a.v, b.v), flag(a.nan, b.nan), flag(a.pinf, b.pinf), flag(a.ninf, b.ninf))
    if not isF(out.v) and z3.is_app_of(out.v, z3.Z3_OP_ITE):
        _ctx.fork.lazy[out.v.get_id()] = out.v
    return out


def _forced(k):
    f = _ctx.fork
    v = f.thunks[k]
    if callable(v):
        v = f.thunks[k] = rr(v())
    return v


def lazy_value(thunk):
    """Value to be computed when needed."""
    f = _ctx.fork
    k = len(f.thunks)
    f.thunks.append(thunk)
    v = z3.Real(f"lazy!{k}")
    fl = [z3.Bool(f"lazy!{k}.{t}") for t in ("nan", "pinf", "ninf")]
    f.parts[v.get_id()] = (v, lambda: tz(_forced(k).v))
    f.parts[fl[0].get_id()] = (fl[0], lambda: to_z3b(_forced(k).nan))
    f.parts[fl[1].get_id()] = (fl[1], lambda: to_z3b(_forced(k).pinf))
    f.parts[fl[2].get_id()] = (fl[2], lambda: to_z3b(_forced(k).ninf))
    return R(v, *fl)


def lazy_bool(thunk):
    f = _ctx.fork
    f.nbool += 1
    b = z3.Bool(f"lazyb!{f.nbool}")
    done = []

    def force():
        if not done:
            done.append(to_z3b(thunk()))
        return done[0]

    f.parts[b.get_id()] = (b, force)
    return b


def has_lazy(e):
    f = _ctx.fork
    hit = f.lazy_memo.get(e.get_id())
    if hit is None:
        i = e.get_id()
        r = i in f.parts or i in f.lazy or any(has_lazy(x) for x in e.children())
        hit = f.lazy_memo[i] = (r, e)
    return hit[0]


def undecided(*xs):
    """Path by path: does a value depend on a decision not taken yet?"""
    if _ctx is None or _ctx.fork is None:
        return False
    return any(not isF(x.v) and has_lazy(x.v) or not all(is_pb(y) for y in (x.nan, x.pinf, x.ninf)) for x in xs)


def resolve(e):
    """The term with everything lazy in it decided."""
    if is_pb(e) or isF(e) or _ctx is None or _ctx.fork is None or not has_lazy(e):
        return e
    f = _ctx.fork
    i = e.get_id()
    hit = f.resolved.get(i)
    if hit is None:
        hit = f.resolved[i] = (_resolve(e, f), e)
    return hit[0]


def _resolve(e, f):
    i = e.get_id()
    if i in f.parts:
        return resolve(f.parts[i][1]())
    if i in f.lazy or z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bool(e):
        return resolve(e.arg(1 if branch(e.arg(0)) else 2))
    if z3.is_and(e) or z3.is_or(e):
        ch, out = e.children(), []
        stop = z3.is_or(e)
        for x in ch:
            x = f.known(resolve(x))
            if z3.is_true(x) and stop or z3.is_false(x) and not stop:
                return x
            out.append(x)
        return z3.Or(*out) if stop else z3.And(*out)
    ch = [resolve(x) for x in e.children()]
    if z3.is_add(e):
        return z3.Sum(*ch)
    if z3.is_mul(e):
        return z3.Product(*ch)
    return e.decl()(*ch)


def split(cond):
    """Truth value of a condition, deciding its atoms one by one."""
    cond = resolve(cond)
    if is_pb(cond):
        return bool(cond)
    f = ctx().fork
    s = f.known(cond)
    if z3.is_true(s) or z3.is_false(s):
        return z3.is_true(s)
    hit = f.split_memo.get(cond.get_id())
    return hit[0] if hit else f.possible(ctx(), cond) and _split(cond, f.split_memo)


def _split(s, memo):
    hit = memo.get(s.get_id())
    if hit is None:
        hit = memo[s.get_id()] = (_split1(s, memo), s)
    return hit[0]


def _split1(s, memo):
    if z3.is_true(s) or z3.is_false(s):
        return z3.is_true(s)
    if z3.is_not(s):
        return not _split(s.arg(0), memo)
    if z3.is_and(s):
        return all(_split(x, memo) for x in s.children())
    if z3.is_or(s):
        return any(_split(x, memo) for x in s.children())
    if z3.is_app_of(s, z3.Z3_OP_ITE):
        return _split(s.arg(1 if _split(s.arg(0), memo) else 2), memo)
    if z3.is_eq(s) and z3.is_bool(s.arg(0)):
        return _split(s.arg(0), memo) == _split(s.arg(1), memo)
    t = resolve(s)
    if not t.eq(s):
        return _split(t, memo)
    if z3.is_eq(s):
        s = z3.simplify(s, som=True, sort_sums=True)
        if not z3.is_eq(s):
            return _split(s, memo)
        a, b = s.children()
        if z3.is_rational_value(b):
            a, b = b, a
        if z3.is_rational_value(a) and a.numerator_as_long() == 0 and z3.is_mul(b):
            # a product is zero if a factor is
            fs = {x.get_id(): x for x in b.children() if not z3.is_rational_value(x)}
            return any(branch(x == 0) for x in fs.values())
    return branch(s)


def settle(a):
    """Path by path: the value with its special-value flags decided and nothing lazy in it."""
    if not undecided(a):
        return a
    if split(a.nan):
        return NAN
    if split(a.pinf):
        return PINF
    if split(a.ninf):
        return NINF
    return R(resolve(a.v))


def _bool_size(e, seen):
    if is_pb(e) or e.get_id() in seen:
        return 0
    seen.add(e.get_id())
    return 1 + sum(_bool_size(x, seen) for x in e.children() if z3.is_bool(x))


def soften(a):
    """Like settle, but keeps simple conditions for special values in the formula."""
    if not undecided(a):
        return a
    seen = set()
    a = R(a.v, resolve(a.nan), resolve(a.pinf), resolve(a.ninf))
    if sum(_bool_size(x, seen) for x in (a.nan, a.pinf, a.ninf)) > 30:
        return settle(a)
    return R(resolve(a.v), a.nan, a.pinf, a.ninf)


def branch(cond):
    """Python truth value of a condition: decided, implied, or explored path by path."""
    if is_pb(cond):
        return bool(cond)
    cond = resolve(cond)
    return bool(cond) if is_pb(cond) else ctx().fork.decide(ctx(), cond)


_ctx: Ctx = None


def set_ctx(c):
    global _ctx
    _ctx = c


def ctx() -> Ctx:
    return _ctx


# --------------------------------------------------------------------------- booleans

PB = (bool, np.bool_)


def is_pb(x):
    return isinstance(x, PB)


def Not(a):
    return (not a) if is_pb(a) else z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if is_pb(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if is_pb(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_pb(a) and is_pb(b):
        return bool(a) == bool(b)
    if is_pb(a):
        return b if a else Not(b)
    if is_pb(b):
        return a if b else Not(a)
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


def bite(c, a, b):
    if is_pb(c):
        return a if c else b
    if is_pb(a) and is_pb(b):
        if bool(a) == bool(b):
            return bool(a)
        return c if a else Not(c)
    if is_pb(a):
        return Or(c, b) if a else And(Not(c), b)
    if is_pb(b):
        return Or(Not(c), a) if b else And(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def to_z3b(x):
    return z3.BoolVal(bool(x)) if is_pb(x) else x


# --------------------------------------------------------------------------- values

_rv = {}


def tz(v):
    """Fraction | z3 -> z3 Real."""
    if isinstance(v, Fraction):
        r = _rv.get(v)
        if r is None:
            r = z3.RealVal(str(v.numerator)) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
            _rv[v] = r
        return r
    return v


F0, F1, FM1 = Fraction(0), Fraction(1), Fraction(-1)


def isF(v):
    return isinstance(v, Fraction)


def vadd(a, b):
    if isF(a):
        if isF(b):
            return a + b
        if a == 0:
            return b
    elif isF(b) and b == 0:
        return a
    if _ctx is not None and _ctx.canon is not None:
        return _ctx.canon.add(a, b)
    return tz(a) + tz(b)


def vneg(a):
    if _ctx is not None and _ctx.canon is not None and not isF(a):
        return _ctx.canon.neg(a)
    return -a if isF(a) else tz(a) * -1


def vsub(a, b):
    if isF(a):
        if isF(b):
            return a - b
        if a == 0:
            return vneg(b)
    elif isF(b) and b == 0:
        return a
    elif not isF(b) and a.eq(b):
        return F0
    if _ctx is not None and _ctx.canon is not None:
        return _ctx.canon.sub(a, b)
    return tz(a) - tz(b)


def vmul(a, b):
    if isF(a):
        if isF(b):
            return a * b
        if a == 0:
            return F0
        if a == 1:
            return b
    elif isF(b):
        if b == 0:
            return F0
        if b == 1:
            return a
    if not isF(a) and not isF(b) and a.eq(b):
        t = _abs_of(a)
        if t is not None:  # |t|^2 = t^2
            return vmul(t, t) if _ctx is not None and _ctx.canon is not None else t * t
    if _ctx is not None and _ctx.canon is not None:
        t = _ctx.canon.mul(a, b)
        if t is not None:
            return t
    if _ctx is not None and _ctx.push_mul:
        if z3.is_app_of(tz(a), z3.Z3_OP_ITE) and z3.is_const(tz(b)):
            c_, x, y = a.children()
            return z3.If(c_, tz(vmul(x, b)), tz(vmul(y, b)))
        if z3.is_app_of(tz(b), z3.Z3_OP_ITE) and z3.is_const(tz(a)):
            return vmul(b, a)
    return tz(a) * tz(b)


def _abs_of(e):
    """t if e is the term built for |t|."""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, x, y = e.children()
        if (z3.is_lt(c) and c.arg(0).eq(y) or z3.is_gt(c) and c.arg(1).eq(y)) and z3.is_mul(x) and x.num_args() == 2 and x.arg(0).eq(y):
            k = x.arg(1)
            if z3.is_rational_value(k) and k.as_fraction() == -1:
                return y
    return None


def vite(c, a, b):
    if is_pb(c):
        return a if c else b
    if isF(a) and isF(b):
        if a == b:
            return a
    elif not isF(a) and not isF(b) and a.eq(b):
        return a
    return z3.If(c, tz(a), tz(b))


def vlt(a, b):
    if isF(a) and isF(b):
        return a < b
    if _ctx is not None and _ctx.canon is not None:
        d = _ctx.canon.settle(tz(vsub(a, b)))
        if isF(d):
            return d < 0
    return tz(a) < tz(b)


def vle(a, b):
    if isF(a) and isF(b):
        return a <= b
    if _ctx is not None and _ctx.canon is not None:
        d = _ctx.canon.settle(tz(vsub(a, b)))
        if isF(d):
            return d <= 0
    return tz(a) <= tz(b)


def veq(a, b):
    if isF(a) and isF(b):
        return a == b
    if not isF(a) and not isF(b) and a.eq(b):
        return True
    if _ctx is not None and _ctx.canon is not None:
        d = _ctx.canon.settle(tz(vsub(a, b)))
        if isF(d):
            return d == 0
    return tz(a) == tz(b)


class R:
    """Extended real."""

    __slots__ = ("v", "nan", "pinf", "ninf")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf

    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def fin(self):
        return Not(Or(self.nan, self.pinf, self.ninf))

    def inf(self):
        return Or(self.pinf, self.ninf)

    def __repr__(self):
        f = "" if self.plain() else f" nan={self.nan} +inf={self.pinf} -inf={self.ninf}"
        return f"R({self.v}{f})"

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absv(s)
    def __pow__(s, n): return ipow(s, n)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __eq__(s, o): return feq(s, o)
    def __ne__(s, o): return Not(feq(s, o))
    __hash__ = None

    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)


NAN = R(F0, nan=True)
PINF = R(F0, pinf=True)
NINF = R(F0, ninf=True)


def is_conc(x):
    return isinstance(x, (float, np.floating))


def rr(x):
    """Coerce to R."""
    if isinstance(x, R):
        return x
    if isinstance(x, Fraction):
        return R(x)
    if isinstance(x, (bool, np.bool_)):
        return R(F1 if x else F0)
    if isinstance(x, (int, np.integer)):
        return R(Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return R(Fraction(x))
    if isinstance(x, z3.BoolRef):
        return R(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, z3.ArithRef):
        return R(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return rr(x.item())
    if hasattr(x, "__array__") and getattr(x, "shape", None) == ():
        return rr(np.asarray(x).item())
    raise TypeError(type(x))


def _conc(a, b):
    """Concrete evaluation if a float is involved and no symbol is."""
    if is_conc(a) or is_conc(b):
        if not isinstance(a, R) and not isinstance(b, R):
            return True
    return False


def _f(x):
    return np.float64(float(x))


def add(a, b):
    if _conc(a, b):
        with np.errstate(all="ignore"):
            return _f(a) + _f(b)
    a, b = rr(a), rr(b)
    if a.plain() and b.plain():
        return R(vadd(a.v, b.v))
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    nn = Not(nan)
    return R(vadd(a.v, b.v), nan, And(nn, Or(a.pinf, b.pinf)), And(nn, Or(a.ninf, b.ninf)))


def neg(a):
    if is_conc(a):
        return -_f(a)
    a = rr(a)
    return R(vneg(a.v), a.nan, a.ninf, a.pinf)


def sub(a, b):
    if _conc(a, b):
        with np.errstate(all="ignore"):
            return _f(a) - _f(b)
    a, b = rr(a), rr(b)
    if a.plain() and b.plain():
        return R(vsub(a.v, b.v))
    return add(a, neg(b))


def _isneg(a):
    return bite(a.inf(), a.ninf, vlt(a.v, F0))


def mul(a, b):
    if _conc(a, b):
        with np.errstate(all="ignore"):
            return _f(a) * _f(b)
    a, b = rr(a), rr(b)
    if a.plain() and b.plain():
        return R(vmul(a.v, b.v))
    az = And(a.fin(), veq(a.v, F0))
    bz = And(b.fin(), veq(b.v, F0))
    nan = Or(a.nan, b.nan, And(a.inf(), bz), And(b.inf(), az))
    inf = And(Not(nan), Or(a.inf(), b.inf()))
    sg = False if inf is False else Xor(_isneg(a), _isneg(b))
    return R(vmul(a.v, b.v), nan, And(inf, Not(sg)), And(inf, sg))


def _is_zero(e):
    e = z3.simplify(e, som=True, sort_sums=True)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def div(a, b):
    if _conc(a, b):
        with np.errstate(all="ignore"):
            return _f(a) / _f(b)
    a, b = rr(a), rr(b)
    if undecided(a, b) and not (isF(b.v) and b.plain()):
        return lazy_value(lambda: div(settle(a), settle(b)))
    c = ctx()
    if c.canon is not None:
        a, b = _canonical(c, a), _canonical(c, b)
        k = c.canon.leading(b.v)
        if k not in (0, 1):  # divisors have leading coefficient one
            a, b = mul(a, R(1 / k)), mul(b, R(1 / k))
    if isF(b.v) and b.plain() and b.v != 0:
        if a.plain():
            return R(vmul(a.v, 1 / b.v))
        return mul(a, R(1 / b.v))
    if b.plain() and isF(b.v):  # /0
        bz = True
        q = F0
    else:
        bz = And(b.fin(), veq(b.v, F0))
        if bz is not False and (_positive(c, b.v) or c.infeasible(bz)):
            bz = False
        if isF(a.v) and a.v == 0 and bz is False:
            q = F0
        else:
            sa = z3.simplify(tz(a.v), som=True, sort_sums=True)
            sb = z3.simplify(tz(b.v), som=True, sort_sums=True)
            key = (sa.get_id(), sb.get_id())
            _note_nonneg(a.v)
            _note_nonneg(b.v)
            hit = c.div_memo.get(key)
            if hit is None:  # the same quotient with other signs
                na, nb = (z3.simplify(-x, som=True, sort_sums=True) for x in (sa, sb))
                for k, flip in (((na.get_id(), nb.get_id()), False), ((na.get_id(), sb.get_id()), True), ((sa.get_id(), nb.get_id()), True)):
                    if k in c.div_memo:
                        q = c.div_memo[k][0]
                        hit = c.div_memo[key] = (-q if flip else q, sa, sb)
                        break
            if hit is None and bz is False:
                for h in c.hints:  # (h*b)/b = h
                    if _is_zero(sa - h * sb):
                        hit = c.div_memo[key] = (h, sa, sb)
                        break
            if hit is None:
                q = c.fresh("q")
                c.div_memo[key] = (q, sa, sb)
                form = q * tz(b.v) == tz(a.v)
                if bz is not False or not b.plain():
                    form = z3.Implies(tz(b.v) != 0, form)
                c.define([q], form)
                if _positive(c, a.v) and _positive(c, b.v):
                    c.positive[q.get_id()] = q
                if c.canon is not None and bz is False and b.plain():
                    c.canon.quotient(q, tz(a.v), tz(b.v))
            else:
                q = hit[0]
    nan = Or(a.nan, b.nan, And(a.inf(), b.inf()), And(a.fin(), veq(a.v, F0), bz))
    inf = And(Not(nan), Or(a.inf(), bz))
    sg = False
    if inf is not False:
        sg = Xor(_isneg(a), And(Not(bz), _isneg(b)))
    v = q if b.inf() is False else vite(b.inf(), F0, q)
    return R(v, nan, And(inf, Not(sg)), And(inf, sg))


def _nonneg(e):
    """True for a visible sum of squares with nonnegative coefficients."""
    if z3.is_add(e):
        return all(_nonneg(x) for x in e.children())
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    if z3.is_mul(e):
        cnt = {}
        for x in e.children():
            if z3.is_rational_value(x):
                if x.as_fraction() < 0:
                    return False
            else:
                cnt[x.get_id()] = cnt.get(x.get_id(), 0) + (not _nonneg(x))
        return all(k % 2 == 0 for k in cnt.values())
    return False


def _positive(c, e):
    """True for visible products and sums of positive numbers and roots of such."""
    if isF(e):
        return e > 0
    if z3.is_rational_value(e):
        return e.as_fraction() > 0
    if e.get_id() in c.positive:
        return True
    if z3.is_mul(e):
        return all(_positive(c, x) for x in e.children())
    if z3.is_add(e):
        return any(_positive(c, x) for x in e.children()) and all(_positive(c, x) or _nonneg(x) for x in e.children())
    return False


def _squares(t):
    """[x, y, ..] if t is visibly x*x + y*y + ..."""
    if z3.is_add(t):
        out = [_squares(x) for x in t.children()]
        return None if any(x is None for x in out) else sum(out, [])
    if z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
        return [t.arg(0)]
    return None


def _note_nonneg(t):
    """Keeps the fact that a sum of squares is nonnegative, which its normal form hides."""
    c = ctx()
    if c.fork is None or isF(t) or not _nonneg(t):
        return
    e = z3.simplify(t, som=True, sort_sums=True)
    if z3.is_add(e) and e.get_id() not in c.noted:
        from . import query

        c.noted[e.get_id()] = e
        sq = _squares(t)
        zero = True if sq is None else (e == 0) == z3.And(*[x == 0 for x in sq])
        c.defs.append((("nonneg", *[frozenset([x]) for x in sorted(query.consts_of(e))]), z3.And(e >= 0, zero)))


def _canonical(c, a):
    return R(c.canon.settle(tz(a.v)), a.nan, a.pinf, a.ninf)


def _hint_abs(c, h):
    if z3.is_rational_value(h):
        return R(abs(h.as_fraction()))
    return R(h) if c.infeasible(h < 0) else absv(R(h))


def _feasible(c, f):
    from . import query

    return query.feasible(c, [f], 1000)


def sqrt(a):
    if is_conc(a):
        with np.errstate(all="ignore"):
            return np.sqrt(_f(a))
    a = rr(a)
    if undecided(a):
        return lazy_value(lambda: sqrt(settle(a)))
    c = ctx()
    if c.canon is not None:
        a = _canonical(c, a)
    if isF(a.v):
        if a.v < 0:
            return R(F0, True)
        n, d = math.isqrt(a.v.numerator), math.isqrt(a.v.denominator)
        if n * n == a.v.numerator and d * d == a.v.denominator:
            return R(Fraction(n, d), Or(a.nan, a.ninf), a.pinf, False)
        neg_ = False
    else:
        if c.canon is not None and a.plain():
            h = c.canon.square_root(a.v)
            if h is not None:
                return settle(absv(R(h)))
        neg_ = And(a.fin(), vlt(a.v, F0))
    sa = z3.simplify(tz(a.v), som=True, sort_sums=True)
    if neg_ is not False and (_nonneg(sa) or _nonneg(tz(a.v)) or c.infeasible(neg_)):
        neg_ = False
    if neg_ is False and c.hints:
        for h in c.hints:  # sqrt(h^2) = |h|, a polynomial identity
            if _is_zero(tz(a.v) - h * h):
                r = _hint_abs(c, h)
                return R(r.v, Or(a.nan, a.ninf), a.pinf, False)
            if c.relations:  # the same up to the relations
                from . import rational

                d = rational.numerator_zero(c, tz(a.v) - h * h)
                if d is not None and all(not _feasible(c, z3.Not(x)) for x in d):
                    r = _hint_abs(c, h)
                    return R(r.v, Or(a.nan, a.ninf), a.pinf, False)
    hit = c.sqrt_memo.get(sa.get_id())
    if hit is None:
        s = c.fresh("sqrt")
        c.sqrt_memo[sa.get_id()] = (s, sa)
        _note_nonneg(a.v)
        form = s * s == tz(a.v)
        if neg_ is not False or not a.plain():
            form = z3.Implies(tz(a.v) >= 0, form)
        c.define([s], z3.And(s >= 0, form))
        if _positive(c, a.v):
            c.positive[s.get_id()] = s
        if c.canon is not None and neg_ is False and a.plain():
            c.canon.root(s, tz(a.v))
    else:
        s = hit[0]
    return R(s, Or(a.nan, a.ninf, neg_), a.pinf, False)


def ipow(a, n):
    n = int(n)
    if is_conc(a):
        with np.errstate(all="ignore"):
            return _f(a) ** n
    if n < 0:
        return div(R(F1), ipow(a, -n))
    if n == 0:
        return R(F1)
    out = None
    for _ in range(n):
        out = rr(a) if out is None else mul(out, a)
    return out


def absv(a):
    if is_conc(a):
        return abs(_f(a))
    if isinstance(a, (int, np.integer)):
        return abs(a)
    a = rr(a)
    if _ctx is not None and _ctx.canon is not None and _ctx.fork is not None and a.plain() and not has_lazy(tz(a.v)):
        return R(vneg(a.v)) if branch(vlt(a.v, F0)) else a
    return R(vite(vlt(a.v, F0), vneg(a.v), a.v), a.nan, a.inf(), False)


def ite(c, a, b):
    if is_pb(c):
        return a if c else b
    if is_b(a) and is_b(b):
        return bite(c, a, b)
    a, b = rr(a), rr(b)
    return R(vite(c, a.v, b.v), bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))


def is_b(x):
    return is_pb(x) or isinstance(x, z3.BoolRef)


def lt(a, b):
    if _conc(a, b):
        return bool(_f(a) < _f(b))
    a, b = rr(a), rr(b)
    if undecided(a, b):
        return lazy_bool(lambda: _lt(soften(a), soften(b)))
    return _lt(a, b)


def _lt(a, b):
    if a.plain() and b.plain():
        return vlt(a.v, b.v)
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)), And(a.fin(), b.fin(), vlt(a.v, b.v))))


def le(a, b):
    if _conc(a, b):
        return bool(_f(a) <= _f(b))
    a, b = rr(a), rr(b)
    if undecided(a, b):
        return lazy_bool(lambda: _le(soften(a), soften(b)))
    return _le(a, b)


def _le(a, b):
    if a.plain() and b.plain():
        return vle(a.v, b.v)
    return And(Not(a.nan), Not(b.nan), Or(a.ninf, b.pinf, And(a.fin(), b.fin(), vle(a.v, b.v))))


def feq(a, b):
    """IEEE ==."""
    if is_b(a) and is_b(b):
        return Iff(a, b)
    if _conc(a, b):
        return bool(_f(a) == _f(b))
    a, b = rr(a), rr(b)
    if undecided(a, b):
        return lazy_bool(lambda: _feq(soften(a), soften(b)))
    return _feq(a, b)


def _feq(a, b):
    if a.plain() and b.plain():
        return veq(a.v, b.v)
    return Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf), And(a.fin(), b.fin(), veq(a.v, b.v)))


def same(a, b):
    """Identity of results: equal values, or both the same special value."""
    if is_b(a) and is_b(b):
        return Iff(a, b)
    a, b = rr(a), rr(b)
    return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Or(Not(a.fin()), veq(a.v, b.v)))


def differs_by(a, b, margin):
    a, b = rr(a), rr(b)
    m = tz(Fraction(margin))
    flag = Or(Xor(a.nan, b.nan), Xor(a.pinf, b.pinf), Xor(a.ninf, b.ninf))
    d = tz(vsub(a.v, b.v))
    return Or(flag, And(a.fin(), b.fin(), z3.Or(d > m, d < -m)))


def _extreme(kind, a, b):
    """Maximum or minimum of finite values in one order of operands; min(max(x, lo), hi) with lo <= hi as max(min(x, hi), lo)."""
    c = ctx()
    if isF(a.v) and isF(b.v):
        return R(max(a.v, b.v) if kind == "max" else min(a.v, b.v))
    if (isF(b.v), tz(b.v).get_id()) < (isF(a.v), tz(a.v).get_id()):
        a, b = b, a
    if kind == "min":
        for x, hi in ((a, b), (b, a)):
            inner = None if isF(x.v) else c.maxima.get(x.v.get_id())
            if inner is not None:
                for y, lo in (inner[:2], inner[1::-1]):
                    gap = vlt(hi.v, lo.v)
                    if gap is False or gap is not True and not _feasible(c, gap):
                        return _extreme("max", _extreme("min", y, hi), lo)
    m = ite(le(b, a), a, b) if kind == "max" else ite(le(a, b), a, b)
    if kind == "max" and not isF(m.v):
        c.maxima[m.v.get_id()] = (a, b, m.v)
    return R(m.v)


def maxv(a, b):
    if _conc(a, b):
        return np.maximum(_f(a), _f(b))
    a, b = rr(a), rr(b)
    if undecided(a, b):
        return lazy_value(lambda: maxv(settle(a), settle(b)))
    if a.plain() and b.plain():
        return _extreme("max", a, b)
    m = ite(le(b, a), a, b)
    return R(m.v, Or(a.nan, b.nan), And(Not(Or(a.nan, b.nan)), m.pinf), And(Not(Or(a.nan, b.nan)), m.ninf))


def minv(a, b):
    if _conc(a, b):
        return np.minimum(_f(a), _f(b))
    a, b = rr(a), rr(b)
    if undecided(a, b):
        return lazy_value(lambda: minv(settle(a), settle(b)))
    if a.plain() and b.plain():
        return _extreme("min", a, b)
    m = ite(le(a, b), a, b)
    return R(m.v, Or(a.nan, b.nan), And(Not(Or(a.nan, b.nan)), m.pinf), And(Not(Or(a.nan, b.nan)), m.ninf))


def sign(a):
    if is_conc(a):
        return np.sign(_f(a))
    a = rr(a)
    v = vite(vlt(a.v, F0), FM1, vite(vlt(F0, a.v), F1, F0))
    v = vite(a.pinf, F1, vite(a.ninf, FM1, v))
    return R(v, a.nan)


# --------------------------------------------------------------------------- UFs

_NPF = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "log": np.log, "exp": np.exp, "atan2": np.arctan2,
        "asin": np.arcsin, "acos": np.arccos, "log1p": np.log1p, "expm1": np.expm1, "tanh": np.tanh,
        "atan": np.arctan}


def math_uf(name, *args):
    """Transcendental function: uninterpreted; nan on non-finite arguments."""
    if all(is_conc(a) or isinstance(a, (int, np.integer)) for a in args):
        with np.errstate(all="ignore"):
            return np.float64(_NPF[name](*[_f(a) for a in args]))
    args = [settle(rr(a)) for a in args]
    if ctx().canon is not None:
        args = [_canonical(ctx(), a) for a in args]
    if name in ("sin", "cos") and ctx().canon is not None and args[0].plain() and not isF(args[0].v):
        hit = ctx().canon.angles.get(args[0].v.get_id())  # the angle of a point on the unit circle
        if hit is not None:
            return R(hit[name == "cos"])
    if name == "exp" and isF(args[0].v) and args[0].plain() and args[0].v == 0:
        return R(F1)
    if name == "sin" and isF(args[0].v) and args[0].plain() and args[0].v == 0:
        return R(F0)
    if name == "cos" and isF(args[0].v) and args[0].plain() and args[0].v == 0:
        return R(F1)
    if name == "log" and isF(args[0].v) and args[0].plain() and args[0].v == 1:
        return R(F0)
    if name == "atan2" and all(isF(a.v) and a.plain() for a in args) and args[0].v == 0 and args[1].v > 0:
        return R(F0)
    if name == "log" and not isF(args[0].v):
        out = R(_log(args[0].v))
    else:
        out = uf("math." + name, [R(a.v) for a in args], 1)[0]
    nan = Or(*[Not(a.fin()) for a in args])
    if name == "log":
        z = veq(args[0].v, F0)
        n_ = vlt(args[0].v, F0)
        if ctx().infeasible(Or(z, n_)):
            z = n_ = False
        nan = Or(nan, n_)
        return R(out.v, nan, False, And(Not(nan), z))
    return R(out.v, nan)


def _factors(e):
    """Factors of |e| up to sign, as far as they are visible in the term."""
    if z3.is_mul(e):
        return [f for x in e.children() for f in _factors(x)]
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return _factors(e.children()[0])
    if z3.is_app_of(e, z3.Z3_OP_ITE):  # |x| = if x < 0 then -x else x
        _, a, b = e.children()
        if _is_zero(a + b):
            return _factors(b)
    if z3.is_rational_value(e) and abs(e.as_fraction()) == 1:
        return []
    return [e]


def _log(v):
    """log of a positive real: the sum of the logs of its factors' absolute values."""
    fs = _factors(v)
    if fs == [v]:
        fs = _factors(z3.simplify(v))
    t = F0
    for f in fs:
        if z3.is_rational_value(f):
            t = vadd(t, uf("math.log", [R(abs(f.as_fraction()))], 1)[0].v)
        else:
            t = vadd(t, uf("math.log", [absv(R(f))], 1)[0].v)
    return t


def uf(name, args, nout):
    """Apply uninterpreted function `name` to extended reals; returns nout extended reals."""
    c = ctx()
    args = [settle(rr(a)) for a in args]
    if c.canon is not None:
        args = [_canonical(c, a) for a in args]

    def key(a):
        k = z3.simplify(tz(a.v), som=True, sort_sums=True)
        fl = [x if is_pb(x) else z3.simplify(x, som=True, sort_sums=True) for x in (a.nan, a.pinf, a.ninf)]
        return (k.get_id(), tuple(x if is_pb(x) else x.get_id() for x in fl)), (k, fl)

    ks = [key(a) for a in args]
    mk = (name, nout, tuple(k[0] for k in ks))
    hit = c.app_memo.get(mk)
    if hit is not None:
        return hit[0]
    outs = []
    for i in range(nout):
        v = c.fresh(f"{name}.{i}")
        if name in c.uf_nonfinite:
            nan, pinf, ninf = (c.fresh_bool(f"{name}.{i}.{t}") for t in ("nan", "pinf", "ninf"))
            c.define([nan, pinf, ninf], z3.AtMost(nan, pinf, ninf, 1))
            outs.append(R(v, nan, pinf, ninf))
        else:
            outs.append(R(v))
    # note: keep the simplified terms alive, ids are only unique for live ASTs
    c.app_memo[mk] = (outs, [k[1] for k in ks], args)
    syms = _syms(outs)
    for pargs, pouts in c.apps.setdefault(name, []):
        if len(pargs) != len(args) or len(pouts) != nout:
            continue
        pre = And(*[same(x, y) for x, y in zip(args, pargs)])
        if pre is False:
            continue
        post = And(*[same(x, y) for x, y in zip(outs, pouts)])
        c.defs.append((("cong", frozenset(syms), frozenset(_syms(pouts))), to_z3b(Implies(pre, post))))
    c.apps[name].append((args, outs))
    ax = c.uf_axioms.get(name)
    if ax is not None:
        for f in ax(args, outs):
            c.define(syms, to_z3b(f))
    return outs


def _syms(rs):
    out = []
    for r in rs:
        out.append(str(r.v))
        for fl in (r.nan, r.pinf, r.ninf):
            if not is_pb(fl):
                out.append(str(fl))
    return out


PI_HI = z3.Q(31415926536, 10 ** 10)


def default_axioms(c: Ctx):
    """Ground axioms for transcendental functions (sound facts about the real functions)."""

    def pair(other):
        def ax(args, outs):
            # sin^2 + cos^2 = 1 for the same argument
            for pargs, pouts in c.apps.get(other, []):
                if tz(pargs[0].v).eq(tz(args[0].v)):
                    if c.canon is not None:
                        c.canon.circle(*((outs[0].v, pouts[0].v) if other == "math.sin" else (pouts[0].v, outs[0].v)))
                    yield tz(outs[0].v) * tz(outs[0].v) + tz(pouts[0].v) * tz(pouts[0].v) == 1
            yield z3.And(tz(outs[0].v) <= 1, tz(outs[0].v) >= -1)

        return ax

    c.uf_axioms["math.sin"] = pair("math.cos")
    c.uf_axioms["math.cos"] = pair("math.sin")

    def atan2(args, outs):
        (y, x), o = [tz(a.v) for a in args], tz(outs[0].v)
        if c.canon is not None:
            n = c.canon.settle(tz(vadd(vmul(y, y), vmul(x, x))))
            if isF(n) and n == 1:
                c.canon.angles[o.get_id()] = (y, x, o)
                yield z3.And(z3.Implies(y >= 0, o >= y), z3.Implies(y <= 0, o <= y))  # |angle| >= |sin|
        yield z3.Implies(z3.And(y == 0, x > 0), o == 0)
        yield z3.Implies(y > 0, o > 0)
        yield z3.Implies(y < 0, o < 0)
        yield z3.And(o <= PI_HI, o >= -PI_HI)

    c.uf_axioms["math.atan2"] = atan2

    def logs(args, outs):
        """log(xy) = log x + log y, log(1/x) = -log x on positive arguments; log(exp y) = y."""
        a = c.apps["math.log"]
        new = (args, outs)
        val = lambda t: (tz(t[0][0].v), tz(t[1][0].v), frozenset(_syms(t[1])))
        z, lz, sz = val(new)
        yield z3.Implies(z == 1, lz == 0)
        old = a[:-1][:8]
        for x in old:
            x, lx, sx = val(x)
            c.defs.append((("log", sx, sz), z3.Implies(z3.And(x > 0, z > 0, x * z == 1), lx + lz == 0)))
            c.defs.append((("log", sx, sz), z3.Implies(z3.And(x > 0, z > 0, x == z * z), lx == 2 * lz)))
            c.defs.append((("log", sx, sz), z3.Implies(z3.And(x > 0, z > 0, z == x * x), lz == 2 * lx)))
        for i, x in enumerate(old):
            for y in old[:i]:
                for p, q, r in ((x, y, new), (x, new, y), (y, new, x)):
                    (p, lp, sp), (q, lq, sq), (r, lr, sr) = val(p), val(q), val(r)
                    c.defs.append((("log", sp, sq, sr), z3.Implies(z3.And(p > 0, q > 0, r > 0, r == p * q), lr == lp + lq)))
        for e in c.apps.get("math.exp", []):
            e, ee, se = val(e)
            c.defs.append((("log", sz, se), z3.Implies(z == ee, lz == e)))

    def exps(args, outs):
        val = lambda t: (tz(t[0][0].v), tz(t[1][0].v), frozenset(_syms(t[1])))
        e, ee, se = val((args, outs))
        yield ee > 0
        for x in c.apps.get("math.log", []):
            x, lx, sx = val(x)
            c.defs.append((("exp", sx, se), z3.Implies(z3.And(x > 0, e == lx), ee == x)))

    c.uf_axioms["math.log"] = logs
    c.uf_axioms["math.exp"] = exps

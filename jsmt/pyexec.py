"""Symbolic execution of host Python code by proxies and forking.

Numbers are `Sym` proxies around extended reals; a Python branch on a symbolic condition
(`SymBool.__bool__`) consults the solver and explores every feasible side by re-execution.
"""
from __future__ import annotations

import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import query
from . import scal as S
from .harness import H, In, Obl, confirm_batch, dec, enc, mval
from .scal import z3


class PathAbort(BaseException):
    """Ends the current path (infeasible or out of bounds)."""


class Unsupported(Exception):
    pass


class Explorer:
    def __init__(self, ctx, max_paths=4000, ms=4000):
        self.ctx, self.max_paths, self.ms = ctx, max_paths, ms
        self.stack = [[]]
        self.forks = 0
        self.feas = 0

    def feasible(self, cond):
        self.feas += 1
        s = z3.Solver()
        s.set("timeout", self.ms)
        for f in query.cone(self.ctx, self.ctx.assumptions + self.path + [cond]):
            s.add(f)
        return s.check() != z3.unsat  # unknown counts as feasible

    def fork(self, cond):
        if S.is_pb(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise PathAbort()
            d = t
            if t and f:
                self.forks += 1
                self.stack.append(self.taken + [False])
        self.taken.append(d)
        self.path.append(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """Nondeterministic choice of an integer below n (structural enumeration)."""
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.stack.append(self.taken + [k])
        self.taken.append(d)
        return d

    def paths(self, fn):
        """Yields (path condition, result | exception) for every feasible path."""
        n = 0
        while self.stack:
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            self.prefix = self.stack.pop()
            self.taken, self.path, self.pos = [], [], 0
            global CUR
            CUR = self
            try:
                r = ("ok", fn())
            except PathAbort:
                continue
            except Exception as e:  # behaviour of the code under test on this path
                r = ("raise", e, traceback.format_exc())
            finally:
                CUR = None
            yield list(self.path), r


CUR = None


def cur():
    return CUR


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if CUR is None:
            raise Unsupported("branch on a symbol outside the explorer")
        return CUR.fork(self.e)

    def __and__(self, o): return mkb(S.And(self.e, unb(o)))
    __rand__ = __and__
    def __or__(self, o): return mkb(S.Or(self.e, unb(o)))
    __ror__ = __or__
    def __invert__(self): return mkb(S.Not(self.e))
    def __eq__(self, o): return mkb(S.Iff(self.e, unb(o)))
    def __ne__(self, o): return mkb(S.Xor(self.e, unb(o)))
    def __hash__(self): return hash(bool(self))


def unb(x):
    return x.e if isinstance(x, SymBool) else x


def mkb(e):
    return bool(e) if S.is_pb(e) else SymBool(e)


def un(x):
    return x.r if isinstance(x, Sym) else x


class Sym:
    """Symbolic number (kind 'int' or 'real')."""

    __slots__ = ("r", "kind", "lo", "hi")
    __array_priority__ = 1000

    def __init__(self, r, kind="real", lo=None, hi=None):
        self.r, self.kind, self.lo, self.hi = S.rr(r), kind, lo, hi

    def _k(self, o):
        if isinstance(o, Sym):
            return "int" if self.kind == o.kind == "int" else "real"
        return "int" if self.kind == "int" and isinstance(o, (int, np.integer)) else "real"

    def _b(self, f, o, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, (Sym, int, float, np.integer, np.floating, Fraction, S.R)):
            return NotImplemented
        a, b = (un(o), self.r) if rev else (self.r, un(o))
        return mk(f(a, b), self._k(o))

    def __add__(s, o): return s._b(S.add, o)
    def __radd__(s, o): return s._b(S.add, o, True)
    def __sub__(s, o): return s._b(S.sub, o)
    def __rsub__(s, o): return s._b(S.sub, o, True)
    def __mul__(s, o): return s._b(S.mul, o)
    def __rmul__(s, o): return s._b(S.mul, o, True)

    def __truediv__(s, o):
        r = s._b(S.div, o)
        return r if r is NotImplemented else mk(un(r), "real")

    def __rtruediv__(s, o):
        r = s._b(S.div, o, True)
        return r if r is NotImplemented else mk(un(r), "real")

    def __neg__(s): return mk(S.neg(s.r), s.kind)
    def __pos__(s): return s
    def __abs__(s): return mk(S.absv(s.r), s.kind)
    def __pow__(s, n): return mk(S.ipow(s.r, n), s.kind)
    def __lt__(s, o): return NotImplemented if isinstance(o, np.ndarray) else mkb(S.lt(s.r, un(o)))
    def __le__(s, o): return NotImplemented if isinstance(o, np.ndarray) else mkb(S.le(s.r, un(o)))
    def __gt__(s, o): return NotImplemented if isinstance(o, np.ndarray) else mkb(S.lt(un(o), s.r))
    def __ge__(s, o): return NotImplemented if isinstance(o, np.ndarray) else mkb(S.le(un(o), s.r))

    def __eq__(s, o):
        if isinstance(o, (Sym, int, float, np.integer, np.floating, Fraction)):
            return mkb(S.feq(s.r, un(o)))
        return NotImplemented

    def __ne__(s, o):
        if isinstance(o, (Sym, int, float, np.integer, np.floating, Fraction)):
            return mkb(S.Not(S.feq(s.r, un(o))))
        return NotImplemented

    def __bool__(s):
        return bool(mkb(S.Not(S.feq(s.r, 0))))

    def __index__(s):
        if s.kind != "int":
            raise TypeError("symbolic real used as an integer")
        if S.isF(s.r.v):
            return int(s.r.v)
        if s.lo is None and s.hi is None:
            lo, hi = 0, 8
        else:
            lo, hi = s.lo, s.hi
        for v in range(lo, hi + 1):
            if CUR.fork(S.feq(s.r, v)):
                return v
        raise Unsupported("symbolic index outside the concretization range")

    __int__ = __index__

    def __hash__(s):
        return hash(int(s)) if s.kind == "int" else id(s)

    def sqrt(s): return mk(S.sqrt(s.r), "real")
    def conjugate(s): return s
    def item(s): return s

    def __float__(s):
        if S.isF(s.r.v) and s.r.plain():
            return float(s.r.v)
        raise Unsupported("symbolic number used as a concrete float")

    def __repr__(s):
        return f"Sym({s.r})"


def mk(r, kind):
    if isinstance(r, S.R) and kind == "int" and S.isF(r.v) and r.plain():
        return int(r.v)
    return Sym(r, kind) if isinstance(r, S.R) else r


def syms(a, kind="real"):
    """Object array of R -> object array of Sym."""
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = Sym(a[i], kind)
    return out


def rs(a):
    """Array of Sym/number -> object array of R."""
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = un(x) if isinstance(x, (Sym, S.R)) else (unb(x) if isinstance(x, SymBool) else S.rr(x))
    return out


class PyProblem:
    """One host-Python case.

    inputs(): like Problem.  host(inp, sym): runs the real code; `inp` holds Sym proxies (sym=True)
    or floats (sym=False).  post(h, inp, out): obligations, where inp/out hold R (or floats).
    """

    budget = 60.0
    max_paths = 4000
    prune = True
    bounds = ""
    functions = ()
    search_samples = 40
    expected = ()  # exception types which are a legitimate outcome, given to post as the output

    def inputs(self):
        return {}

    def structure(self, choose):
        """Structural choices (bounded exhaustive); stored by the subclass on self."""

    def host(self, inp, sym):
        raise NotImplementedError

    def assume(self, h, inp):
        return []

    def post(self, h, inp, out):
        raise NotImplementedError


def run_pyproblem(prob, seed=0, deadline=None):
    rng = random.Random(seed * 7919 + 17)
    t0 = time.time()
    query.STATS.update(queries=0, solver_s=0.0, trivial=0, by={})
    res = dict(status="held", obligations=0, discharged=0, inconclusive=[], violations=[], errors=[], reach=0,
               validated=0, functions=list(prob.functions), bounds=prob.bounds, paths=0)

    def left():
        return 1e9 if deadline is None else deadline - time.time()

    def finish(status=None):
        if status:
            res["status"] = status
        res["queries"] = query.STATS["queries"]
        res["solver_s"] = round(query.STATS["solver_s"], 3)
        res["trivial"] = query.STATS["trivial"]
        res["by"] = dict(query.STATS["by"])
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    ctx = S.Ctx()
    ctx.prune = prob.prune
    S.default_axioms(ctx)
    S.set_ctx(ctx)
    h0 = H(True)
    ins = prob.inputs()
    inp = {k: d.symbol(k) for k, d in ins.items()}
    for k, d in ins.items():
        for c in d.constraints(inp[k]):
            ctx.assume(c)
    for c in prob.assume(h0, inp) or []:
        ctx.assume(c)
    r, _ = query.decide(ctx, [], budget_s=20, want_model=True)
    if r == "unsat":
        res["errors"].append("vacuous: assumptions unsatisfiable")
        return finish("error")
    res["reach"] += r == "sat"

    def go():
        prob.structure(CUR.choose)
        proxies = {k: syms_in(ins[k], inp[k]) for k in ins}
        return prob.host(proxies, True)

    ex = Explorer(ctx, prob.max_paths)
    try:
        for path, r in ex.paths(go):
            res["paths"] += 1
            struct = list(ex.taken)
            base = len(ctx.assumptions)
            ctx.assumptions.extend(path)
            if r[0] == "raise" and isinstance(r[1], Unsupported):
                res["errors"].append("unsupported: " + str(r[1]) + "\n" + r[2][-1500:])
                if _pysearch(prob, struct, rng, seed, res, left, prob.search_samples):
                    return finish("violation")
                return finish("error")
            h = H(True)
            try:
                if r[0] == "raise":
                    if isinstance(r[1], prob.expected):
                        prob.post(h, inp, r[1])
                    else:
                        h.bad(f"real code raised {type(r[1]).__name__}: {str(r[1])[:200]}")
                        res.setdefault("trace", r[2][-1500:])
                else:
                    prob.post(h, inp, r[1])
            except Exception as e:
                res["errors"].append(f"post: {type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}")
                if _pysearch(prob, struct, rng, seed, res, left, prob.search_samples):
                    return finish("violation")
                return finish("error")
            for lab, c in h.reaches:
                rr_, _ = query.decide(ctx, [S.to_z3b(c)], budget_s=15, want_model=True)
                if rr_ == "unsat":
                    res["errors"].append(f"vacuous: {lab}")
                    return finish("error")
                res["reach"] += rr_ == "sat"
            res["obligations"] += len(h.obls)
            confirm_batch(ctx, h, res)
            for ob in h.obls:
                if left() < 3:
                    res["inconclusive"].append(ob.label + " (time)")
                    continue
                if ob.holds is True:
                    res["discharged"] += 1
                    query.STATS["queries"] += 1
                    query.STATS["trivial"] += 1
                    continue
                bad = S.to_z3b(S.Not(ob.holds))
                q, m = query.decide(ctx, [bad], budget_s=min(prob.budget, max(5, left() - 20)))
                if q == "unsat":
                    res["discharged"] += 1
                    continue
                found = False
                if q == "sat":
                    cands = [m]
                    if ob.strong is not None:
                        q2, m2 = query.decide(ctx, [bad, S.to_z3b(ob.strong(Fraction(1, 10)))], budget_s=10, want_model=True)
                        if q2 == "sat":
                            cands.insert(0, m2)
                    for mm in cands:
                        conc = {}
                        for k, d in ins.items():
                            a = np.empty(d.shape, dtype=float)
                            for i in np.ndindex(*d.shape):
                                a[i] = float(mval(mm, inp[k][i]))
                            conc[k] = d.cast(a)
                        f = judge_py(prob, struct, conc)
                        if f:
                            res["violations"].append(dict(label=ob.label, fails=f[:8], inputs=enc(conc), struct=struct,
                                                          found_by="solver model"))
                            found = True
                            break
                if not found:
                    found = _pysearch(prob, struct, rng, seed, res, left, prob.search_samples)
                if found:
                    return finish("violation")
                if q == "sat":
                    res["errors"].append(f"{ob.label}: counterexample does not reproduce on the real code "
                                         f"{res.get('trace', '')}")
                else:
                    res["inconclusive"].append(ob.label)
                if len(res["errors"]) + len(res["inconclusive"]) > 6:
                    return finish("error" if res["errors"] else "inconclusive")
            del ctx.assumptions[base:]
    except Unsupported as e:
        res["errors"].append(f"unsupported: {e}\n{traceback.format_exc()[-1500:]}")
        return finish("error")
    res["forks"] = ex.forks
    if res["errors"]:
        return finish("error")
    if res["inconclusive"]:
        return finish("inconclusive")
    if res["paths"] == 0:
        res["errors"].append("no feasible path")
        return finish("error")
    return finish()


def syms_in(d, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = Sym(a[i], "int" if d.kind == "int" else "real",
                     d.lo if d.kind == "int" else None, d.hi if d.kind == "int" else None)
    return out


def judge_py(prob, struct, conc):
    """Runs the real code on concrete inputs, along the same structural choices."""
    it = iter(struct)
    kinds = [x for x in struct if not isinstance(x, bool)]
    ki = iter(kinds)
    prob.structure(lambda n: next(ki))
    h = H(False)
    inp = {k: np.asarray(v, dtype=object) for k, v in conc.items()}
    for k, d in prob.inputs().items():
        if d.kind != "int":
            o = np.empty(inp[k].shape, dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = np.float64(inp[k][i])
            inp[k] = o
    for c in prob.assume(h, inp) or []:
        if not bool(c):
            return None
    try:
        out = prob.host({k: v for k, v in conc.items()}, False)
    except Exception as e:
        if prob.expected and isinstance(e, prob.expected):
            out = e
        else:
            return [f"real code raised {type(e).__name__}: {str(e)[:300]}"]
    prob.post(h, inp, out)
    return h.fails


def _pysearch(prob, struct, rng, seed, res, left, n):
    for s in range(n):
        if left() < 5:
            return False
        conc = {k: d.draw(rng) for k, d in prob.inputs().items()}
        try:
            f = judge_py(prob, struct, conc)
        except StopIteration:
            return False
        if f:
            res["violations"].append(dict(label=f[0], fails=f[:8], inputs=enc(conc), struct=struct, found_by="concrete search"))
            return True
    return False


def replay_py(prob, v):
    return judge_py(prob, v["struct"], dec(prob, v["inputs"]))

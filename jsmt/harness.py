"""Runs one case: trace the real code, execute it symbolically, decide, replay."""
from __future__ import annotations

import json
import math
import random
import time
import traceback
from fractions import Fraction

import jax
import numpy as np
from jax import numpy as jnp

from . import canon, havoc, interp, query, rational
from . import scal as S
from .scal import z3

RTOL = 1e-5


class HarnessError(Exception):
    """A problem of the harness itself, never of the code under test."""


class In:
    """Description of one input array."""

    def __init__(self, shape=(), kind="real", domain=None, lo=None, hi=None, sample=None, unit=False):
        self.shape = tuple(shape) if not isinstance(shape, int) else (shape,)
        self.kind, self.domain, self.lo, self.hi, self.sample = kind, domain, lo, hi, sample
        self.unit = unit  # the entries along the last axis form unit vectors

    def symbol(self, name):
        a = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            nm = name + ("" if not self.shape else "_" + "_".join(map(str, i)))
            a[i] = z3.Bool(nm) if self.kind == "bool" else S.R(z3.Real(nm))
        return a

    def constraints(self, a):
        if self.unit:
            for i in np.ndindex(*self.shape[:-1]):
                yield z3.Sum(*[x.v * x.v for x in a[i]]) == 1
        for x in a.flat:
            if self.kind == "bool":
                continue
            if self.domain is not None:
                yield z3.Or(*[x.v == d for d in self.domain])
            elif self.kind == "int":
                yield z3.Or(*[x.v == d for d in range(self.lo, self.hi + 1)])
            else:
                if self.lo is not None:
                    yield x.v >= self.lo
                if self.hi is not None:
                    yield x.v <= self.hi

    def draw(self, rng):
        out = np.empty(self.shape, dtype=float)
        for i in np.ndindex(*self.shape):
            if self.sample is not None:
                out[i] = self.sample(rng)
            elif self.domain is not None:
                out[i] = rng.choice(self.domain)
            elif self.kind == "bool":
                out[i] = rng.random() < 0.5
            elif self.kind == "int":
                out[i] = rng.randint(self.lo, self.hi)
            else:
                v = rng.gauss(0, 1)
                if self.lo is not None or self.hi is not None:
                    lo = self.lo if self.lo is not None else self.hi - 3
                    hi = self.hi if self.hi is not None else self.lo + 3
                    v = rng.uniform(float(lo), float(hi))
                out[i] = v
        if self.unit:
            out = out / np.linalg.norm(out, axis=-1, keepdims=True)
        return self.cast(out)

    def cast(self, a):
        a = np.asarray(a, dtype=float)
        if self.kind == "int":
            return np.round(a).astype(np.int64)
        if self.kind == "bool":
            return a > 0.5
        return a

    def aval(self):
        dt = {"real": np.float64, "int": np.int64, "bool": np.bool_}[self.kind]
        return jax.ShapeDtypeStruct(self.shape, dt)


class Obl:
    def __init__(self, label, holds, strong=None):
        self.label, self.holds, self.strong = label, holds, strong


class H:
    """Interface handed to assume/post: works on symbols and on numbers."""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.obls = []
        self.fails = []
        self.reaches = []
        self.batch = []  # raw disequalities of obligations which term construction already simplified to true
        self.rtol = RTOL

    # comparisons that record obligations
    def eq(self, label, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.bad(f"{label}: shape {a.shape} != {b.shape}")
            return
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            lab = label if not a.shape else f"{label}{list(i)}"
            if self.symbolic:
                if not S.is_b(x) and not S.is_b(y):
                    x, y = S.settle(S.rr(x)), S.settle(S.rr(y))
                st = None if S.is_b(x) else (lambda m, x=x, y=y: S.differs_by(x, y, m))
                ob = Obl(lab, S.same(x, y), st)
                self.obls.append(ob)
                if ob.holds is True and not S.is_b(x) and isinstance(x, S.R) and isinstance(y, S.R):
                    if not (S.isF(x.v) and S.isF(y.v)) and x.fin() is not False:
                        self.batch.append(S.tz(x.v) != S.tz(y.v))
            else:
                if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
                    ok = bool(x) == bool(y)
                else:
                    x, y = float(x), float(y)
                    if math.isnan(x) or math.isnan(y):
                        ok = math.isnan(x) and math.isnan(y)
                    elif math.isinf(x) or math.isinf(y):
                        ok = x == y
                    else:
                        ok = abs(x - y) <= self.rtol * (1 + abs(x) + abs(y))
                if not ok:
                    self.fails.append(f"{lab}: got {x}, expected {y}")

    def le(self, label, a, b):
        """a <= b (non-finite values fail unless +/-inf order holds)."""
        if self.symbolic:
            self.obls.append(Obl(label, S.le(a, b), lambda m: S.Not(S.le(a, S.add(b, Fraction(m))))))
        else:
            a, b = float(a), float(b)
            if not (a <= b + self.rtol * (1 + abs(a) + abs(b))):
                self.fails.append(f"{label}: {a} <= {b} does not hold")

    def holds(self, label, cond):
        if self.symbolic:
            self.obls.append(Obl(label, cond))
        elif not bool(cond):
            self.fails.append(f"{label}: does not hold")

    def bad(self, label):
        if self.symbolic:
            self.obls.append(Obl(label, False))
        else:
            self.fails.append(label)

    def reach(self, label, cond):
        """Vacuity twin: `cond` must be satisfiable together with the assumptions."""
        if self.symbolic:
            self.reaches.append((label, cond))

    def propose_zero(self, x):
        """Adds the fact that x is zero if that is an identity of rational functions (helps, never assumed)."""
        x = S.settle(S.rr(x))
        if x.plain() and not S.isF(x.v) and S.ctx().canon is None:
            rational.lemma(S.ctx(), S.tz(x.v))

    # functions
    def uf(self, name, args, shape=()):
        flat = []
        for a in args:
            flat.extend(np.asarray(a, dtype=object).reshape(-1).tolist())
        m = int(np.prod(shape, dtype=int))
        vals = interp.apply_uf(name, flat, m) if self.symbolic else [
            np.float64(x) for x in np.asarray(havoc.lookup(name, np.array([float(x) for x in flat]), m)).reshape(-1)]
        if shape == ():
            return vals[0]
        out = np.empty(m, dtype=object)
        out[:] = vals
        return out.reshape(shape)

    def branch(self, cond):
        """Truth value of a condition; with path-by-path exploration, both outcomes are explored."""
        return S.branch(cond) if self.symbolic else bool(cond)

    def const(self, x):
        return S.rr(x) if self.symbolic else np.float64(x)


def arr(x):
    return np.asarray(x, dtype=object)


class Problem:
    """One case.  Subclass and override."""

    unwind = 4
    budget = 60.0  # seconds per obligation
    prune = False
    push_mul = False
    samples = 2  # translation validation samples
    search_samples = 60
    bounds = ""
    functions = ()
    nonfinite = ()  # UF names that may return nan/inf
    axioms = None  # fn(ctx)
    validate = True
    canonical = False  # keep polynomials in normal form modulo relations
    forking = False  # explore scalar branches path by path (reference models then use h.branch)
    max_paths = 600
    shard = None  # (i, n): explore the i-th of n parts of the paths
    must_reach = ()  # labels of h.reach that some path has to produce

    def inputs(self):
        return {}

    def real(self, **arrays):
        raise NotImplementedError

    def hints(self, inp):
        """Terms that intermediate square roots and quotients may be equal to (helps, never assumed)."""
        return []

    def assume(self, h, inp):
        return []

    def post(self, h, inp, out):
        raise NotImplementedError


# ---------------------------------------------------------------------------- model


def num(v):
    if isinstance(v, Fraction):
        return float(v)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError(f"not a number: {v}")


def mval(m, x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return z3.is_true(m.eval(x, model_completion=True))
    if isinstance(x, S.R):
        if mval(m, x.nan):
            return float("nan")
        if mval(m, x.pinf):
            return float("inf")
        if mval(m, x.ninf):
            return float("-inf")
        return num(m.eval(S.tz(x.v), model_completion=True)) if not S.isF(x.v) else float(x.v)
    return float(x)


def model_to_concrete(ctx, prob, syms, m):
    conc = {}
    for k, d in prob.inputs().items():
        a = np.empty(d.shape, dtype=float)
        for i in np.ndindex(*d.shape):
            a[i] = float(mval(m, syms[k][i]))
        conc[k] = d.cast(a)
    tables = {}
    for name, apps in ctx.apps.items():
        if name.startswith("math."):
            continue
        tables[name] = [([mval(m, x) for x in args], [mval(m, x) for x in outs]) for args, outs in apps]
    return conc, tables


def install_tables(tables, seed=0):
    havoc.TABLES.clear()
    havoc.TABLES["*"] = lambda n: havoc.default_table(n, seed)
    for name, ent in tables.items():
        havoc.TABLES[name] = havoc.Nearest(ent) if isinstance(ent, list) else ent


def run_real(prob, conc):
    """Runs the real code on concrete inputs."""
    out = prob.real(**{k: jnp.asarray(v) for k, v in conc.items()})
    return jax.tree_util.tree_map(lambda x: np.asarray(x), out)


def to_obj_tree(tree):
    def f(x):
        x = np.asarray(x)
        if x.dtype == object:
            return x
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            v = x[i]
            o[i] = bool(v) if x.dtype.kind == "b" else int(v) if x.dtype.kind in "iu" else np.float64(v)
        return o

    return jax.tree_util.tree_map(f, tree)


def judge_concrete(prob, conc, real_out=None):
    """-> list of failing labels for the real code on these inputs ([] if it satisfies the property)."""
    interp.EXACT[0] = False
    try:
        with np.errstate(all="ignore"):
            h = H(False)
            inp = {k: to_obj_tree(v) for k, v in conc.items()}
            for c in prob.assume(h, inp) or []:
                if not bool(c):
                    return None  # outside the claim
            if real_out is None:
                try:
                    real_out = run_real(prob, conc)
                except HarnessError:
                    raise
                except Exception as e:  # the real code crashed
                    return [f"real code raised {type(e).__name__}: {str(e)[:300]}"]
            prob.post(h, inp, to_obj_tree(real_out))
            return h.fails
    finally:
        interp.EXACT[0] = True


def run_problem(prob, seed=0, deadline=None):
    """-> result dict."""
    rng = random.Random(seed * 7919 + 13)
    t0 = time.time()
    query.STATS.update(queries=0, solver_s=0.0, trivial=0, by={})
    interp.STAT["eqns"] = 0
    interp.STAT["prims"] = set()
    res = dict(status="held", obligations=0, discharged=0, inconclusive=[], violations=[], errors=[],
               reach=0, validated=0, functions=list(prob.functions), bounds=prob.bounds)

    def left():
        return 1e9 if deadline is None else deadline - time.time()

    def finish(status=None):
        if status:
            res["status"] = status
        res["queries"] = query.STATS["queries"]
        res["solver_s"] = round(query.STATS["solver_s"], 3)
        res["trivial"] = query.STATS["trivial"]
        res["by"] = dict(query.STATS["by"])
        res["eqns"] = interp.STAT["eqns"]
        res["prims"] = sorted(interp.STAT["prims"])
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    def concrete_search(n, why):
        """After a solver verdict other than unsat: look for a concrete witness on the real code."""
        for s in range(n):
            if left() < 5:
                break
            conc = {k: d.draw(rng) for k, d in prob.inputs().items()}
            install_tables({}, seed=seed * 1000 + s)
            f = judge_concrete(prob, conc)
            if f:
                res["violations"].append(dict(label=f[0], fails=f[:8], inputs=enc(conc), tables=None,
                                              table_seed=seed * 1000 + s, draw=[seed, s], found_by=why))
                return True
        return False

    ins = prob.inputs()
    install_tables({})
    try:
        closed, shape = jax.make_jaxpr(lambda kw: prob.real(**kw), return_shape=True)({k: d.aval() for k, d in ins.items()})
        keys = sorted(ins)  # pytree order of a dict
        tree = jax.tree_util.tree_structure(shape)
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.format_exc()
        # Is it the real code that fails, on ordinary inputs, without any tracing of ours?
        for s in range(3):
            conc = {k: d.draw(rng) for k, d in ins.items()}
            install_tables({}, seed=s)
            f = judge_concrete(prob, conc)
            if f:
                res["violations"].append(dict(label=f[0], fails=f[:8], inputs=enc(conc), tables=None, table_seed=s,
                                              found_by="real code raises", trace=tb[-1500:]))
                return finish("violation")
        res["errors"].append(f"tracing failed: {e}\n{tb[-1500:]}")
        return finish("error")
    order = keys

    if prob.validate:
        try:
            res["validated"] = _validate(prob, closed, order, rng)
        except Exception as e:
            if concrete_search(5, "translation validation failed") :
                return finish("violation")
            res["errors"].append(f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            return finish("error")

    reached = {}

    def one_path(prefix):
        """Interprets along one path -> (ctx, h, syms) or a final result."""
        ctx = S.Ctx()
        ctx.prune = prob.prune
        ctx.push_mul = prob.push_mul
        if prob.canonical:
            ctx.canon = canon.Canon()
        ctx.uf_nonfinite = set(prob.nonfinite)
        if prob.forking:
            ctx.fork = S.Fork(prefix)
        S.default_axioms(ctx)
        if prob.axioms:
            prob.axioms(ctx)
        S.set_ctx(ctx)
        h = H(True)
        syms = {k: d.symbol(k) for k, d in ins.items()}
        for k, d in ins.items():
            for c in d.constraints(syms[k]):
                ctx.assume(c)
            if d.unit:
                for i in np.ndindex(*d.shape[:-1]):
                    first, *rest = syms[k][i]
                    if ctx.canon is not None:
                        ctx.canon.unit([x.v for x in syms[k][i]])
                    ctx.relations[str(first.v)] = (1 - z3.Sum(*[x.v * x.v for x in rest]), None)
        for c in prob.assume(h, syms) or []:
            ctx.assume(c)
        ctx.hints = [S.tz(S.rr(x).v) for x in prob.hints(syms)]
        it = interp.Interp(unwind=prob.unwind)
        outs = it.run(closed, [syms[k] for k in order])
        out = jax.tree_util.tree_unflatten(tree, outs)
        for lab, c in ctx.obligations:
            h.obls.append(Obl(lab, c))
        prob.post(h, syms, to_sym_tree(out))
        if prob.forking:
            for o in h.obls:
                o.holds = S.resolve(o.holds)
            h.reaches = [(lab, S.resolve(x)) for lab, x in h.reaches]
        return ctx, h, syms

    def example():
        """Some concrete input which satisfies the assumptions."""
        interp.EXACT[0] = False
        try:
            for _ in range(200):
                inp = {k: to_obj_tree(d.draw(rng)) for k, d in ins.items()}
                if all(bool(c) for c in prob.assume(H(False), inp) or []):
                    return True
        finally:
            interp.EXACT[0] = True
        return False

    def check_path(ctx, h, syms):
        """Decides the obligations of one path; -> final status or None."""
        # vacuity: every reach condition must be possible on some path
        if not reached:
            reached["assumptions"] = False
        for lab, c in [("assumptions", True)] + h.reaches:
            if reached.get(lab):
                continue
            r, _ = query.decide(ctx, [S.to_z3b(c)], budget_s=min(20, prob.budget) if not prob.forking else 2, want_model=True)
            reached[lab] = True if r == "sat" else None if r != "unsat" else reached.get(lab, False)
            if lab == "assumptions" and r not in ("sat", "unsat") and example():
                reached[lab] = True
            if r == "unsat" and lab == "assumptions" and prob.forking:
                return None  # impossible path
        res["obligations"] += len(h.obls)
        confirm_batch(ctx, h, res)
        for ob in h.obls:
            if left() < 3:
                res["inconclusive"].append(ob.label + " (time)")
                continue
            if ob.holds is True:
                res["discharged"] += 1
                query.STATS["queries"] += 1
                query.STATS["trivial"] += 1
                continue
            bad = S.Not(ob.holds)
            r, m = query.decide(ctx, [S.to_z3b(bad)], budget_s=min(prob.budget, max(5, left() - 20)))
            if r == "unsat":
                res["discharged"] += 1
                continue
            found = False
            if r == "sat":
                cands = [m]
                if ob.strong is not None:
                    for mg in (Fraction(1, 2), Fraction(1, 50)):
                        r2, m2 = query.decide(ctx, [S.to_z3b(bad), S.to_z3b(ob.strong(mg))],
                                              budget_s=min(15, max(3, left() / 4)), want_model=True)
                        if r2 == "sat":
                            cands.insert(0, m2)
                            break
                for mm in cands:
                    if found:
                        break
                    try:
                        conc, tabs = model_to_concrete(ctx, prob, syms, mm)
                    except Exception as e:
                        res["errors"].append(f"model extraction: {e}")
                        continue
                    install_tables(tabs)
                    f = judge_concrete(prob, conc)
                    if f:
                        res["violations"].append(dict(label=ob.label, fails=f[:8], inputs=enc(conc), tables=enct(tabs),
                                                      found_by="solver model"))
                        found = True
            if not found:
                found = concrete_search(10, f"search after solver said {r}")
            if not found:
                # guided models, then a longer concrete search
                found = guided(prob, ctx, syms, ob, rng, res, left)
            if not found:
                found = concrete_search(prob.search_samples, f"search after solver said {r}")
            if found:
                return "violation"
            if r == "sat":
                res["errors"].append(f"{ob.label}: counterexample does not reproduce on the real code")
            else:
                res["inconclusive"].append(ob.label)
            if len(res["errors"]) + len(res["inconclusive"]) > 6:
                break
        return None

    todo = [[]]
    res["paths"] = 0
    shard, shards = getattr(prob, "shard", None) or (0, 1)
    splitting, leaves = shards > 1, 0  # first breadth first, then each shard takes its part of the open paths
    while todo:
        if left() < 3 or res["paths"] >= prob.max_paths:
            res["inconclusive"].append("paths left to explore")
            break
        if splitting and len(todo) >= max(48, 3 * shards):
            random.Random(0).shuffle(todo)
            todo, splitting = todo[shard::shards], False
            if not todo:
                break
        prefix = todo.pop(0 if splitting else -1)
        try:
            ctx, h, syms = one_path(prefix)
        except Exception as e:
            tb = traceback.format_exc()
            if concrete_search(10, "symbolic execution failed"):
                return finish("violation")
            res["errors"].append(f"{type(e).__name__}: {e}\n{tb[-2500:]}")
            return finish("error")
        res["paths"] += 1
        if prob.forking:
            todo.extend(ctx.fork.next_prefixes())
        if splitting:
            leaves += 1
            if leaves % shards != shard:
                continue
        st = check_path(ctx, h, syms)
        if st:
            return finish(st)
        if len(res["errors"]) + len(res["inconclusive"]) > 6:
            break
    res["reach"] += sum(v is True for v in reached.values())
    for lab in prob.must_reach if shards == 1 else ():
        reached.setdefault(lab, False)
    # path by path, only the required labels (and some path at all) have to be possible
    vacuous = [k for k, v in reached.items() if v is False and (not prob.forking or k in prob.must_reach or k == "assumptions") and shards == 1]
    if not todo and vacuous:
        res["errors"].append(f"vacuous: {vacuous} unreachable")
        if concrete_search(20, "vacuity"):
            return finish("violation")
        return finish("error")
    if res["errors"]:
        return finish("error")
    if res["inconclusive"]:
        return finish("inconclusive")
    return finish()


def confirm_batch(ctx, h, res):
    """Second opinion: the solver also refutes the disequalities the term simplifier has already decided."""
    if not h.batch:
        return
    r, _ = query.decide(ctx, [z3.Or(*h.batch) if len(h.batch) > 1 else h.batch[0]], budget_s=30)
    if r == "unsat":
        res["confirmed"] = res.get("confirmed", 0) + len(h.batch)
    elif r == "sat":
        res["errors"].append("term simplifier and solver disagree")


def _validate(prob, closed, order, rng):
    n = 0
    for s in range(prob.samples):
        conc = {k: d.draw(rng) for k, d in prob.inputs().items()}
        install_tables({}, seed=s)
        real = jax.tree_util.tree_leaves(run_real(prob, conc))
        interp.EXACT[0] = False
        try:
            S.set_ctx(S.Ctx())
            with np.errstate(all="ignore"):
                got = interp.Interp(unwind=prob.unwind).run(closed, [to_obj_tree(conc[k]) for k in order])
        finally:
            interp.EXACT[0] = True
        for a, b in zip(real, got):
            fb = np.array([float(x) for x in np.asarray(b, dtype=object).reshape(-1)])
            fa = np.asarray(a, dtype=float).reshape(-1)
            if fa.shape != fb.shape or not np.allclose(fa, fb, rtol=1e-4, atol=1e-6, equal_nan=True):
                raise RuntimeError(f"translation validation failed on {conc}: real {fa} interp {fb}")
        n += 1
    return n


def guided(prob, ctx, syms, ob, rng, res, left):
    """Fix part of the inputs to random rationals; ask the solver for the rest."""
    flat = [x for a in syms.values() for x in a.flat if isinstance(x, S.R)]
    outs = [o for n, apps in ctx.apps.items() if not n.startswith("math.") for _, os_ in apps for o in os_]
    for t in range(6):
        if left() < 15:
            return False
        fix = []
        pool = flat + outs
        frac = [0.5, 0.7, 0.85, 0.5, 0.7, 0.9][t]
        for x in pool:
            if rng.random() < frac:
                fix.append(S.tz(x.v) == z3.Q(rng.randint(-8, 8), rng.choice([1, 2, 4])))
        bad = S.to_z3b(S.Not(ob.holds))
        # drop fixings that contradict the assumptions by keeping them soft: try with, then half
        for part in (fix, fix[::2]):
            r, m = query.decide(ctx, [bad] + part, budget_s=min(8, max(2, left() / 8)), want_model=True)
            if r == "sat":
                try:
                    conc, tabs = model_to_concrete(ctx, prob, syms, m)
                except Exception:
                    continue
                install_tables(tabs)
                f = judge_concrete(prob, conc)
                if f:
                    res["violations"].append(dict(label=ob.label, fails=f[:8], inputs=enc(conc), tables=enct(tabs),
                                                  found_by="guided solver model"))
                    return True
    return False


def to_sym_tree(out):
    return jax.tree_util.tree_map(lambda x: interp.obj(np.asarray(x)), out)


def _f(x):
    x = float(x)
    return x if math.isfinite(x) else str(x)


def enc(conc):
    return {k: dict(shape=list(np.shape(v)), data=[_f(x) for x in np.asarray(v, dtype=float).reshape(-1)])
            for k, v in conc.items()}


def enct(tabs):
    return {n: [[[_f(x) for x in a], [_f(x) for x in o]] for a, o in e] for n, e in tabs.items()}


def dec(prob, e):
    out = {}
    for k, d in prob.inputs().items():
        a = np.array([float(x) for x in e[k]["data"]], dtype=float).reshape(e[k]["shape"])
        out[k] = d.cast(a)
    return out


def dect(t):
    return {n: [([float(x) for x in a], [float(x) for x in o]) for a, o in e] for n, e in t.items()}


def replay(prob, v):
    """Re-runs a recorded counterexample on the real code; -> failing labels."""
    conc = dec(prob, v["inputs"])
    if v.get("tables") is not None:
        install_tables(dect(v["tables"]))
    else:
        install_tables({}, seed=v.get("table_seed", 0))
    return judge_concrete(prob, conc)

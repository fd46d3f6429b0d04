"""SMT query portfolio."""
from __future__ import annotations

import time

from . import _Z3  # noqa: F401
import z3

STATS = {"queries": 0, "solver_s": 0.0, "trivial": 0, "by": {}}


def consts_of(f):
    seen, out, stack = set(), set(), [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
        else:
            stack.extend(e.children())
    return out


class Cache:
    """What the queries of one context share: symbols, normal form and linear form of each formula."""

    def __init__(self):
        self.consts, self.soms, self.lin = {}, {}, Linear()

    def symbols(self, f):
        hit = self.consts.get(f.get_id())
        if hit is None:
            hit = self.consts[f.get_id()] = (consts_of(f), f)
        return hit[0]

    def som(self, f):
        hit = self.soms.get(f.get_id())
        if hit is None:
            hit = self.soms[f.get_id()] = (z3.simplify(f, som=True, sort_sums=True), f)
        return hit[0]


def cache(c):
    if getattr(c, "qcache", None) is None:
        c.qcache = Cache()
    return c.qcache


def cone(c, formulas):
    """formulas + the definitions of every symbol they (transitively) mention."""
    out = [f for f in formulas if f is not True]
    out = [z3.BoolVal(False) if f is False else f for f in out]
    sy = cache(c).symbols
    known = set()
    for f in out:
        known |= sy(f)
    pend = list(c.defs)
    changed = True
    while changed:
        changed = False
        rest = []
        for d in pend:
            syms, form = d
            if isinstance(syms, tuple):  # facts relating several applications
                take = all(x & known for x in syms[1:])
            else:
                take = bool(syms & known)
            if take:
                out.append(form)
                known |= sy(form)
                changed = True
            else:
                rest.append(d)
        pend = rest
    return out


def _run(make, fs, ms):
    s = make()
    s.set("timeout", int(ms))
    for f in fs:
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:  # e.g. nlsat on unsupported input
        return "unknown", None, time.time() - t
    dt = time.time() - t
    if r == z3.sat:
        return "sat", s.model(), dt
    if r == z3.unsat:
        return "unsat", None, dt
    return "unknown", None, dt


def _nlsat():
    return z3.Then(z3.With("simplify", som=False), "propagate-values", "purify-arith", "solve-eqs", "qfnra-nlsat").solver()


def _substituting():
    return z3.Then("simplify", "propagate-values", "solve-eqs", z3.With("simplify", som=True, sort_sums=True), "smt").solver()


def _cvc5(fs, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown", 0.0
    t = time.time()
    try:
        s = z3.Solver()
        for f in fs:
            s.add(f)
        text = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setLogic("QF_NRA")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res, time.time() - t
    except Exception:
        return "unknown", time.time() - t


class Linear:
    """Replaces nonlinear products by fresh symbols (an over-approximation: unsat stays valid)."""

    def __init__(self):
        self.memo, self.prods = {}, {}  # term -> (linear term, products in it); product -> (symbol, factors)

    def go(self, e):
        i = e.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            return hit[0], hit[1]
        used = frozenset()
        ch = e.children()
        lin = []
        for x in ch:
            y, u = self.go(x)
            lin.append(y)
            used |= u
        power = z3.is_app_of(e, z3.Z3_OP_POWER)
        if power or z3.is_app_of(e, z3.Z3_OP_MUL):
            cs = [x for x in ch if z3.is_rational_value(x)]
            ns = [y for x, y in zip(ch, lin) if not z3.is_rational_value(x)]
            if len(ns) > 1 or power:
                key = ("^", tuple(x.get_id() for x in ns), tuple(str(x) for x in cs)) if power else \
                    ("*", tuple(sorted(x.get_id() for x in ns)))
                if key not in self.prods:
                    self.prods[key] = (z3.Real(f"prod!{len(self.prods)}"), ns, self.lemmas(key, ns, len(self.prods)))
                r = self.prods[key][0]
                used |= {key}
                if not power:
                    for x in cs:
                        r = x * r
            else:
                r = e.decl()(*lin)
        elif not used or not ch:
            r = e
        elif z3.is_and(e):
            r = z3.And(*lin)
        elif z3.is_or(e):
            r = z3.Or(*lin)
        elif z3.is_add(e):
            r = z3.Sum(*lin)
        else:
            r = e.decl()(*lin)
        self.memo[i] = (r, used, e)
        return r, used

    def lemmas(self, key, ns, n):
        """Sign and zero rules."""
        if key[0] != "*":
            return []
        p = z3.Real(f"prod!{n}")
        cnt = {}
        for x in ns:
            cnt.setdefault(x.get_id(), [x, 0])[1] += 1
        fac = [x for x, _ in cnt.values()]
        odd = [x for x, k in cnt.values() if k % 2]
        out = [(p == 0) == z3.Or(*[x == 0 for x in fac])]
        if not odd:
            out.append(p >= 0)
        elif len(odd) <= 3:
            neg = odd[0] < 0
            for x in odd[1:]:
                neg = z3.Xor(neg, x < 0)
            out.append(z3.Implies(p != 0, (p < 0) == neg))
        return out

    def run(self, fs, lemmas=False):
        out, used = [], set()
        for f in fs:
            g, u = self.go(f)
            out.append(g)
            used |= u
        if lemmas and len(used) <= 400:
            for k in self.prods:  # in order of creation
                if k in used:
                    out.extend(self.prods[k][2])
        return out, len(used)


def generalize(fs):
    """Replaces innermost shared sums and products by fresh symbols (an over-approximation: unsat stays valid)."""
    parents, seen, stack = {}, set(), list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        for ch in e.children():
            parents.setdefault(ch.get_id(), set()).add(i)
            stack.append(ch)
    memo, n = {}, [0]

    def shared(e):
        return (z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e)) and len(parents.get(e.get_id(), ())) >= 2

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][:2]
        inner = False
        ch = []
        for x in e.children():
            y, k = go(x)
            ch.append(y)
            inner = inner or k
        if not inner and shared(e) and consts_of(e):
            n[0] += 1
            r, inner = z3.Real(f"gen!{n[0]}"), True
        elif not ch or not inner:
            r = e
        elif z3.is_and(e):
            r = z3.And(*ch)
        elif z3.is_or(e):
            r = z3.Or(*ch)
        elif z3.is_add(e):
            r = z3.Sum(*ch)
        elif z3.is_mul(e):
            r = z3.Product(*ch)
        else:
            r = e.decl()(*ch)
        memo[i] = (r, inner, e)
        return r, inner

    return [go(f)[0] for f in fs], n[0]


def feasible(c, formulas, ms=150):
    """False only if the solver refutes the formulas (plus assumptions and definitions)."""
    fs = cone(c, list(c.assumptions) + list(formulas))
    som = [cache(c).som(f) for f in fs]
    if any(z3.is_false(f) for f in som):
        return False
    STATS["forks"] = STATS.get("forks", 0) + 1
    lin, n = cache(c).lin.run(som, True)
    r, _, dt = _run(z3.Solver, lin, ms * 4)
    STATS["solver_s"] += dt
    if r == "unsat":
        return False
    if n == 0 or ms == 0:
        return True
    r, _, dt = _run(_substituting, som, ms)
    STATS["solver_s"] += dt
    return r != "unsat"


def decide(c, formulas, budget_s=60.0, want_model=False):
    """Satisfiability of `formulas` (plus definitions).  -> (result, model | None)."""
    fs = cone(c, list(c.assumptions) + list(formulas))
    raw = fs
    fs = [z3.simplify(f) for f in fs]
    fs = [f for f in fs if not z3.is_true(f)]
    if any(z3.is_false(f) for f in fs):
        STATS["trivial"] += 1
        STATS["queries"] += 1
        return "unsat", None
    STATS["queries"] += 1
    som = [cache(c).som(f) for f in raw]
    lin, nprod = cache(c).lin.run(som)
    r, m, dt = _run(z3.Solver, lin, max(500, budget_s * 0.1 * 1000))
    STATS["solver_s"] += dt
    if r == "unsat" or (nprod == 0 and r == "sat"):
        STATS["by"]["z3-linear"] = STATS["by"].get("z3-linear", 0) + 1
        return r, m
    if nprod:
        r, m, dt = _run(z3.Solver, cache(c).lin.run(som, True)[0], max(300, budget_s * 0.05 * 1000))
        STATS["solver_s"] += dt
        if r == "unsat":
            STATS["by"]["z3-linear"] = STATS["by"].get("z3-linear", 0) + 1
            return r, None
    gen, ngen = generalize(raw)
    if ngen:
        r, m, dt = _run(z3.Solver, gen, max(300, budget_s * 0.05 * 1000))
        STATS["solver_s"] += dt
        if r == "unsat":
            STATS["by"]["z3-generalized"] = STATS["by"].get("z3-generalized", 0) + 1
            return r, None
    stages = [
        ("z3", lambda ms: _run(z3.Solver, fs, ms), 0.08),
        ("nlsat", lambda ms: _run(_nlsat, fs, ms), 0.2),
        ("z3", lambda ms: _run(z3.Solver, fs, ms), 0.42),
    ]
    if not want_model:
        stages.append(("cvc5", None, 0.3))
    for name, fn, frac in stages:
        ms = max(500, budget_s * frac * 1000)
        if name == "cvc5":
            r, dt = _cvc5(fs, ms)
            m = None
            if r == "sat":
                r = "unknown"
        else:
            r, m, dt = fn(ms)
        STATS["solver_s"] += dt
        if r != "unknown":
            STATS["by"][name] = STATS["by"].get(name, 0) + 1
            return r, m
    return "unknown", None

"""Identities of rational functions: proposes lemmas `denominators nonzero => term = 0` which follow from the
definitions of the quotient symbols alone (normal form of the numerator in a polynomial ring)."""
from __future__ import annotations

import signal
from fractions import Fraction

from . import _Z3  # noqa: F401
import z3


LIMIT = 200000  # monomials


class TooBig(Exception):
    pass


def _alarm(*_):
    raise TooBig()


def relations(ctx):
    """name -> (z3 term its square is equal to, condition | None): square roots, cosines, declared unit vectors."""
    rel = {}
    for s, sa in ctx.sqrt_memo.values():
        if z3.is_const(s) and str(s).startswith("sqrt!"):
            rel[str(s)] = (sa, sa >= 0)
    for cargs, couts in ctx.apps.get("math.cos", []):
        for sargs, souts in ctx.apps.get("math.sin", []):
            if not isinstance(cargs[0].v, Fraction) and not isinstance(sargs[0].v, Fraction) and cargs[0].v.eq(sargs[0].v):
                rel[str(couts[0].v)] = (1 - souts[0].v * souts[0].v, None)
    rel.update(ctx.relations)
    return rel


def numerator_zero(ctx, term, seconds=30):
    """-> conditions (z3 formulas) under which `term` is identically zero, or None."""
    from sympy.polys.domains import QQ
    from sympy.polys.rings import ring

    quot = {str(q): (sa, sb) for q, sa, sb in ctx.div_memo.values() if z3.is_const(q) and str(q).startswith("q!")}
    # a quotient of an input and something free of it: use the quotient as generator, input = quotient * denominator
    from .query import consts_of

    rel = relations(ctx)
    related = set(rel).union(*[consts_of(r) for r, _ in rel.values()])
    subst = {}
    for q, (sa, sb) in list(quot.items()):
        if z3.is_const(sa) and sa.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(sa) not in quot and str(sa) not in subst and str(sa) not in related:
            used = consts_of(sb)
            if not (used & (set(quot) | set(subst) | {str(sa)})) and not any(str(sa) in consts_of(d) for _, d in subst.values()):
                subst[str(sa)] = (z3.Real(q), sb)
                del quot[q]
    dens, conds, gens, seen, stack = {}, [], [], set(), [term]
    for n, (q, sb) in subst.items():
        dens["/" + n] = sb
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = str(e)
            if n in subst:
                stack.extend(subst[n])
            elif n in quot:
                dens[n] = quot[n][1]
                stack.extend(quot[n])
            elif n not in gens:
                gens.append(n)
                if n in rel:
                    stack.append(rel[n][0])
                    if rel[n][1] is not None:
                        conds.append(rel[n][1])
        elif z3.is_rational_value(e):
            pass
        elif z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS) or z3.is_app_of(e, z3.Z3_OP_POWER):
            stack.extend(e.children())
        else:
            return None
    if not gens:
        return None
    # a symbol with a relation comes before the symbols its square is made of
    order, state = [], {}

    def place(n):
        if state.get(n):
            return
        state[n] = True
        if n in rel:
            for k in sorted(consts_of(rel[n][0])):
                if k in gens:
                    place(k)
        order.append(n)

    for n in gens:
        place(n)
    gens = order[::-1]
    K, *gs = ring(gens, QQ)
    env = dict(zip(gens, gs))
    rules = []

    def poly(e):
        """Polynomial of a term without quotients, or None."""
        if z3.is_rational_value(e):
            return K.ground_new(QQ(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_const(e):
            return env.get(str(e))
        ch = [poly(x) for x in e.children()]
        if any(x is None for x in ch) or not ch:
            return None
        r = ch[0]
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            return -r
        if not (z3.is_add(e) or z3.is_sub(e) or z3.is_mul(e)):
            return None
        for x in ch[1:]:
            r = r + x if z3.is_add(e) else r - x if z3.is_sub(e) else r * x
        return r

    for n in gens:
        if n in rel:
            r = poly(rel[n][0])
            if r is not None and r.degree(env[n]) <= 0:
                rules.append(env[n] ** 2 - r)
    memo, factors = {}, []  # elements are (numerator, {index of a denominator factor: power})

    def cancel(n, d):
        d = dict(d)
        for i in list(d):
            while d.get(i) and n:
                quo, rem = n.div(factors[i])
                if rem:
                    break
                n = quo
                d[i] -= 1
        return n, {i: k for i, k in d.items() if k}

    def lift(n, d, want):
        for i, k in want.items():
            for _ in range(k - d.get(i, 0)):
                n = n * factors[i]
                if len(n) > LIMIT:
                    raise TooBig()
        return n

    def add(x, y):
        if not x[0]:
            return y
        if not y[0]:
            return x
        want = dict(x[1])
        for i, k in y[1].items():
            want[i] = max(k, want.get(i, 0))
        return lift(*x, want) + lift(*y, want), want

    def mul(x, y):
        d = dict(x[1])
        for i, k in y[1].items():
            d[i] = d.get(i, 0) + k
        if len(x[0]) * len(y[0]) > 40 * LIMIT:
            raise TooBig()
        p = x[0] * y[0]
        return p.rem(rules) if rules and p else p, d

    def divide(x, y):
        x, y = cancel(*x), cancel(*y)
        n, d = x[0], dict(x[1])
        f, num = y[0], K.one
        if not f:
            raise ZeroDivisionError
        for i, k in y[1].items():  # multiply by the denominator of y, cancelling what x has
            t = min(k, d.get(i, 0))
            if t:
                d[i] -= t
            for _ in range(k - t):
                num = num * factors[i]
        d = {i: k for i, k in d.items() if k}
        for i, g in enumerate(factors):  # the divisor in terms of known factors
            while True:
                quo, rem = f.div(g)
                if rem:
                    break
                f = quo
                d[i] = d.get(i, 0) + 1
        n = n * num
        if f.is_ground:
            n = n * (1 / f.LC)
        else:
            factors.append(f)
            d[len(factors) - 1] = d.get(len(factors) - 1, 0) + 1
        return cancel(n, d)

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_rational_value(e):
            r = K.ground_new(QQ(e.numerator_as_long(), e.denominator_as_long())), {}
        elif z3.is_const(e):
            n = str(e)
            if n in subst:
                r = mul(go(subst[n][0]), go(subst[n][1]))
            else:
                r = divide(go(quot[n][0]), go(quot[n][1])) if n in quot else (env[n], {})
        else:
            ch = [go(x) for x in e.children()]
            r = ch[0]
            if z3.is_add(e):
                for x in ch[1:]:
                    r = add(r, x)
                r = cancel(*r)
            elif z3.is_sub(e):
                for x in ch[1:]:
                    r = add(r, (-x[0], x[1]))
                r = cancel(*r)
            elif z3.is_mul(e):
                for x in ch[1:]:
                    r = mul(r, x)
            elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
                r = -r[0], r[1]
            else:
                p = e.children()[1]
                if not z3.is_rational_value(p) and not z3.is_int_value(p):
                    raise TooBig()
                k = p.as_long() if z3.is_int_value(p) else p.numerator_as_long()
                base, r = r, (K.one, {})
                for _ in range(k):
                    r = mul(r, base)
        memo[i] = r
        return r

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        p = go(term)[0]
        if p and rules:
            p = p.rem(rules)
        return [d != 0 for d in dens.values()] + conds if not p else None
    except (TooBig, ZeroDivisionError):
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def lemma(ctx, term):
    """Adds `denominators nonzero (and radicands nonnegative) => term = 0` to the context if it is an identity."""
    d = numerator_zero(ctx, term)
    if d is None:
        return False
    ctx.assume(z3.Implies(z3.And(*d), term == 0) if d else term == 0)
    return True

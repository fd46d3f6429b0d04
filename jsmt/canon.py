"""Eager normal form of polynomial terms modulo relations such as w^2 + x^2 + y^2 + z^2 = 1 or sin^2 + cos^2 = 1.

With `ctx.canon` set, sums and products are kept as polynomials over generators (symbols and opaque subterms), reduced by
rules `generator^2 = polynomial` and `quotient * divisor = dividend`, and rendered in one canonical z3 term.  Every rule is
a consequence of the assumptions and definitions of the context.  Constants come out as Fractions."""
from __future__ import annotations

import math
from fractions import Fraction

from . import _Z3  # noqa: F401
import z3

LIMIT = 20000
ONE = ()


class Canon:
    def __init__(self):
        self.poly_of = {}  # term id -> (polynomial, term)
        self.gens = {}  # generator id -> term
        self.squares = {}  # generator id -> polynomial its square is equal to
        self.quotients = {}  # (quotient id, divisor id) -> polynomial their product is equal to
        self.by_gen = {}  # quotient id -> divisor id
        self.angles = {}  # id of an angle -> (sine, cosine, angle)
        self.terms = {}  # polynomial -> term

    # polynomials: {monomial: coefficient}, monomial = ((generator, exponent), ...) sorted by generator
    def poly(self, v):
        if isinstance(v, Fraction):
            return {ONE: v} if v else {}
        i = v.get_id()
        hit = self.poly_of.get(i)
        if hit is None:
            if z3.is_rational_value(v):
                p = {ONE: v.as_fraction()} if v.as_fraction() else {}
            elif z3.is_add(v) or z3.is_mul(v) or z3.is_sub(v) or z3.is_app_of(v, z3.Z3_OP_UMINUS):
                ch = [self.poly(x) for x in v.children()]
                p = ch[0]
                if z3.is_app_of(v, z3.Z3_OP_UMINUS):
                    p = {m: -c for m, c in p.items()}
                for x in ch[1:]:
                    p = self.padd(p, x) if z3.is_add(v) else self.padd(p, {m: -c for m, c in x.items()}) if z3.is_sub(v) else self.pmul(p, x)
                    if p is None:
                        p = self.atom(v)
                        break
            else:
                p = self.atom(v)
            hit = self.poly_of[i] = (p, v)
        return hit[0]

    def atom(self, v):
        self.gens[v.get_id()] = v
        return {((v.get_id(), 1),): Fraction(1)}

    def padd(self, p, q):
        r = dict(p)
        for m, c in q.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) * len(q) > 10 * LIMIT:
            return None
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mono(m, n)
                s = r.get(k, 0) + c * d
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return self.reduce(r)

    @staticmethod
    def mono(m, n):
        if not m:
            return n
        if not n:
            return m
        e = dict(m)
        for g, k in n:
            e[g] = e.get(g, 0) + k
        return tuple(sorted(e.items()))

    def reduce(self, p):
        todo = True
        while todo:
            todo = False
            for m in list(p):
                rule = self.applicable(m)
                if rule is None or m not in p:
                    continue
                rest, rhs = rule
                c = p.pop(m)
                for n, d in rhs.items():
                    k = self.mono(rest, n)
                    s = p.get(k, 0) + c * d
                    if s:
                        p[k] = s
                    else:
                        p.pop(k, None)
                todo = True
                if len(p) > LIMIT:
                    return None
        return p

    def applicable(self, m):
        e = None
        for g, k in m:
            if k >= 2 and g in self.squares:
                return tuple((h, j - (2 if h == g else 0)) for h, j in m if j - (2 if h == g else 0)), self.squares[g]
            if g in self.by_gen:
                e = e or dict(m)
                b = self.by_gen[g]
                if e.get(b):
                    return tuple((h, j - (h in (g, b))) for h, j in m if j - (h in (g, b))), self.quotients[(g, b)]
        return None

    def term(self, p):
        """Fraction or canonical z3 term."""
        if not p:
            return Fraction(0)
        if len(p) == 1 and ONE in p:
            return p[ONE]
        key = frozenset(p.items())
        t = self.terms.get(key)
        if t is None:
            out = []
            for m in sorted(p):
                c = p[m]
                fs = [self.gens[g] for g, k in m for _ in range(k)]
                if c != 1 or not fs:
                    fs = [z3.Q(c.numerator, c.denominator)] + fs
                out.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            t = out[0] if len(out) == 1 else z3.Sum(*out)
            self.terms[key] = t
            self.poly_of[t.get_id()] = (p, t)
        return t

    def add(self, a, b):
        return self.term(self.padd(self.poly(a), self.poly(b)))

    def neg(self, a):
        return self.term({m: -c for m, c in self.poly(a).items()})

    def sub(self, a, b):
        return self.term(self.padd(self.poly(a), {m: -c for m, c in self.poly(b).items()}))

    def mul(self, a, b):
        p = self.pmul(self.poly(a), self.poly(b))
        return None if p is None else self.term(p)

    def settle(self, v):
        """Normal form under the rules known by now."""
        p = self.reduce(dict(self.poly(v)))
        return v if p is None else self.term(p)

    def square_root(self, v):
        """Term whose square is v, if v is a monomial with even exponents and a square coefficient."""
        p = self.poly(v)
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c < 0 or any(k % 2 for _, k in m):
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return self.term({tuple((g, k // 2) for g, k in m): Fraction(n, d)})

    def leading(self, v):
        p = self.poly(v)
        return p[max(p)] if p else Fraction(0)

    # rules
    def unit(self, xs):
        """The symbols form a unit vector."""
        p = {ONE: Fraction(1)}
        for x in xs[1:]:
            p = self.padd(p, {((self.gen(x), 2),): Fraction(-1)})
        self.squares[self.gen(xs[0])] = p

    def gen(self, v):
        self.poly(v)
        self.gens[v.get_id()] = v
        return v.get_id()

    def root(self, s, a):
        """s^2 = a."""
        p = self.poly(a)
        g = self.gen(s)
        for m in sorted(p, reverse=True):  # x^2 + .. = s^2: eliminate x^2 rather than s^2
            if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.squares and not str(self.gens[m[0][0]]).startswith(("sqrt!", "q!")):
                x = m[0][0]
                if all(x != h or n == m for n in p for h, _ in n) and x not in self.by_gen:
                    c = p[m]
                    r = {n: -d / c for n, d in p.items() if n != m}
                    self.squares[x] = self.padd(r, {((g, 2),): 1 / c})
                    return
                break
        self.squares[g] = p

    def quotient(self, q, a, b):
        """q * b = a."""
        p = self.poly(b)
        if len(p) != 1:
            return
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1:
            return
        g = self.gen(q)
        self.by_gen[g] = m[0][0]
        self.quotients[(g, m[0][0])] = {n: d / c for n, d in self.poly(a).items()}

    def circle(self, c, s):
        """c^2 + s^2 = 1."""
        self.squares[self.gen(c)] = {ONE: Fraction(1), ((self.gen(s), 2),): Fraction(-1)}

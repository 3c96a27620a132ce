"""Normal form of real terms: sums of monomials with integer (possibly negative) exponents over atoms.

Used to close obligations |p| <= tol whose left hand side cancels identically up to rounding of constants:
the remaining tiny monomials are bounded over the input box.
"""
from fractions import Fraction
import math

import z3

LIMIT = 20000


class TooBig(Exception):
    pass


def frac(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else Fraction(v.as_long())


class Norm:
    def __init__(self, bounds, sqrts, keep_inverse=False):
        self.keep_inverse = keep_inverse  # leave 1/sqrt(t) instead of sqrt(t)/t
        self.bounds = bounds
        self.atoms = []  # index -> ("v", z3 term) | ("inv", poly)
        self.index = {}
        self.memo = {}
        self.sq = {}  # id of sqrt variable name -> radicand term
        for r, t in sqrts:
            self.sq[r.t.decl().name()] = t
        self.keep = []

    def atom(self, key, val):
        if key not in self.index:
            self.index[key] = len(self.atoms)
            self.atoms.append(val)
        return self.index[key]

    # polynomials: dict { ((atom, exp), ...) sorted : Fraction }
    def const(self, c):
        return {(): c} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        r = {}
        todo = []
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for k, x in n:
                    e[k] = e.get(k, 0) + x
                    if e[k] == 0:
                        del e[k]
                todo.append((e, c * d))
        out = {}
        for e, c in todo:
            sp = None
            for k, x in e.items():
                kind = self.atoms[k][0]
                if kind == "sqrt" and (x >= 2 or x < (-1 if self.keep_inverse else 0)):
                    sp = k
                    break
                if kind == "sin" and x >= 2:
                    sp = k
                    break
                if kind == "inv" and x < 0:
                    sp = k
                    break
            if sp is None:
                m = tuple(sorted(e.items()))
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            x = e.pop(sp)
            kind, val = self.atoms[sp][:2]
            base = {tuple(sorted(e.items())): c}
            if kind == "sqrt":
                t = self.poly(val)
                h = -(-x // 2) if self.keep_inverse and x < 0 else x // 2
                q = self.power(t, h)
                f = self.mul(base, q)
                if x != 2 * h:
                    f = self.mul(f, {((sp, x - 2 * h),): Fraction(1)})
            elif kind == "sin":
                cosk = self.atom(("cos", val.get_id()), ("cos", val))
                one_m = {(): Fraction(1), ((cosk, 2),): Fraction(-1)}
                f = self.mul(base, self.power(one_m, x // 2))
                if x % 2:
                    f = self.mul(f, {((sp, 1),): Fraction(1)})
            else:
                f = self.mul(base, self.power(val, -x))
            out = self.add(out, f)
            if len(out) > LIMIT:
                raise TooBig()
        return out

    def power(self, a, n):
        if n < 0:
            return self.power(self.inv(a), -n)
        r = self.const(Fraction(1))
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def inv(self, p):
        if not p:
            raise TooBig()
        if len(p) == 1:
            (m, c), = p.items()
            r = {tuple((k, -x) for k, x in m): 1 / c}
            return self.mul(r, self.const(Fraction(1)))
        # canonical: leading coefficient 1
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        k = self.atom(("inv", tuple(sorted(q.items()))), ("inv", q))
        return {((k, 1),): 1 / lead}

    def poly(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._poly(t)
        if len(r) > LIMIT:
            raise TooBig()
        self.memo[k] = r
        self.keep.append(t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return self.const(frac(t))
        op = t.decl().kind()
        ch = t.children()
        if op == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.poly(c))
            return r
        if op == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if op == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(ch[0]).items()}
        if op == z3.Z3_OP_MUL:
            r = self.const(Fraction(1))
            for c in ch:
                r = self.mul(r, self.poly(c))
            return r
        if op == z3.Z3_OP_DIV:
            return self.mul(self.poly(ch[0]), self.inv(self.poly(ch[1])))
        if op == z3.Z3_OP_POWER and (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
            n = frac(ch[1])
            if n.denominator == 1 and abs(n) < 30:
                return self.power(self.poly(ch[0]), int(n))
        if op == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in self.sq and not ch:
                k = self.atom(("v", t.get_id()), ("sqrt", self.sq[n]))
            elif n in ("uf_sin", "uf_cos"):
                k = self.atom((n[3:], ch[0].get_id()), (n[3:], ch[0]))
            else:
                k = self.atom(("v", t.get_id()), ("v", t))
            self.keep.append(t)
            return {((k, 1),): Fraction(1)}
        k = self.atom(("v", t.get_id()), ("v", t))
        self.keep.append(t)
        return {((k, 1),): Fraction(1)}

    # ---- bounds
    def abound(self, k):
        """(lo, hi) of an atom over the box"""
        kind, val = self.atoms[k][:2]
        if kind in ("sin", "cos"):
            return Fraction(-1), Fraction(1)
        if kind == "v":
            if z3.is_app(val) and val.num_args() == 0 and val.decl().name() in self.bounds:
                return self.bounds[val.decl().name()]
            if z3.is_app(val) and val.decl().name() == "uf_log":
                lo, hi = self.pbound(self.poly(val.arg(0)))
                if lo > 0:
                    e = Fraction(1, 10**9)
                    return Fraction(math.log(lo)) - e, Fraction(math.log(hi)) + e
            if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_TO_REAL:
                n = val.arg(0)
                if n.num_args() == 0 and n.decl().name() in self.bounds:
                    return self.bounds[n.decl().name()]
            raise ValueError("no bound")
        if kind == "sqrt":
            lo, hi = self.pbound(self.poly(val))
            e = Fraction(1, 10**9)
            return max(Fraction(0), Fraction(math.sqrt(max(lo, 0))) - e), Fraction(math.sqrt(hi)) + e
        lo, hi = self.pbound(val)
        if lo <= 0 <= hi:
            raise ValueError("inverse of zero")
        return 1 / hi, 1 / lo

    def mbounds(self, p):
        """(coefficient, lower, upper bound of the monomial) for every monomial"""
        return [(c,) + self.pbound({m: Fraction(1)}) for m, c in p.items()]

    def pbound(self, p):
        L = H = Fraction(0)
        for m, c in p.items():
            lo = hi = c
            for k, x in m:
                a, b = self.abound(k)
                if x < 0:
                    if a <= 0 <= b:
                        raise ValueError("inverse of zero")
                    a, b = 1 / b, 1 / a
                    x = -x
                q = [a**x, b**x]
                if x % 2 == 0 and a <= 0 <= b:
                    q.append(Fraction(0))
                a, b = min(q), max(q)
                q = (lo * a, lo * b, hi * a, hi * b)
                lo, hi = min(q), max(q)
            L += lo
            H += hi
        return L, H

    def clear(self, p):
        """multiply by the denominator of one inverse: (polynomial, sign of the factor), or None"""
        for m in p:
            for k, x in m:
                if self.atoms[k][0] == "inv" and x > 0:
                    e = max(dict(n).get(k, 0) for n in p)
                    q = self.atoms[k][1]
                    lo, hi = self.pbound(q)
                    if lo <= 0 <= hi:
                        raise ValueError("inverse of zero")
                    out = {}
                    for n, c in p.items():
                        d = dict(n)
                        j = d.pop(k, 0)
                        out = self.add(out, self.mul({tuple(sorted(d.items())): c}, self.power(q, e - j)))
                    return out, (1 if lo > 0 or e % 2 == 0 else -1)
        return None

    def sign(self, p):
        """-1: p <= 0 over the box, 1: p > 0, 0: not known"""
        s = 1
        for _ in range(6):
            lo, hi = self.pbound(p)
            self.last = p
            if lo > 0:
                return s if s > 0 else -1
            if hi <= 0:
                return -s if s > 0 or hi < 0 else 0
            c = self.clear(p)
            if c is None:
                return 0
            p, s = c[0], s * c[1]
        return 0

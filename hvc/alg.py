"""Polynomial identities modulo polynomial equations (sympy's sparse rings)."""
import time

import z3
from sympy.polys.domains import QQ
from sympy.polys.groebnertools import groebner
from sympy.polys.orderings import grevlex
from sympy.polys.rings import PolyRing

from .sym import Unsupported, numeral


class NotRational(Exception):
    pass


_MAXTERMS = 60000


def atoms_of(z, out, seen):
    st = [z]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if numeral(t) is not None:
            continue
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            st.extend(t.children())
        elif k == z3.Z3_OP_POWER:
            st.append(t.arg(0))
        elif k == z3.Z3_OP_ITE:
            raise NotRational()
        else:
            out[i] = t


class Ring:
    def __init__(self, terms):
        at, seen = {}, set()
        for t in terms:
            atoms_of(t, at, seen)
        # function applications first, so that they are eliminated first
        order = sorted(at.values(), key=lambda t: (t.num_args() == 0, -len(t.sexpr()), t.sexpr()))
        if not order:
            order = [z3.Real("unit!")]
        self.R = PolyRing([f"v{i}" for i in range(len(order))], QQ, grevlex)
        self.gen = {t.get_id(): self.R.gens[i] for i, t in enumerate(order)}
        self.keep = order
        self.memo = {}

    def conv(self, t):
        """-> (numerator, denominator)"""
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][0]
        n = numeral(t)
        one = self.R.one
        if n is not None:
            r = (self.R.ground_new(QQ(n.numerator, n.denominator)), one)
        else:
            k = t.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                cs = [self.conv(c) for c in t.children()]
                num, den = cs[0]
                for a, b in cs[1:]:
                    if k == z3.Z3_OP_SUB:
                        a = -a
                    if b == den:
                        num = num + a
                    else:
                        num, den = num * b + a * den, den * b
                r = (num, den)
            elif k == z3.Z3_OP_UMINUS:
                a, b = self.conv(t.arg(0))
                r = (-a, b)
            elif k == z3.Z3_OP_MUL:
                num, den = one, one
                for c in t.children():
                    a, b = self.conv(c)
                    num, den = num * a, den * b
                r = (num, den)
            elif k == z3.Z3_OP_DIV:
                a, b = self.conv(t.arg(0))
                p, q = self.conv(t.arg(1))
                r = (a * q, b * p)
            elif k == z3.Z3_OP_POWER:
                e = numeral(t.arg(1))
                if e is None or e.denominator != 1 or e < 0 or e > 8:
                    raise NotRational()
                a, b = self.conv(t.arg(0))
                r = (a ** int(e), b ** int(e))
            else:
                r = (self.gen[i], one)
        if len(r[0]) > _MAXTERMS:
            raise NotRational()
        self.memo[i] = (r, t)
        return r


def zero_mod(term, eqs, gb=True):
    """term == 0 is a consequence of the equations (pairs lhs, rhs)."""
    try:
        usable = []
        for e in eqs:
            try:
                atoms_of(e, {}, set())
                usable.append(e)
            except NotRational:
                pass
        R = Ring([term] + usable)
        num, _ = R.conv(term)
        if num == 0:
            return True
        G = []
        for e in usable:
            a, b = R.conv(e)
            # e holds with a nonzero denominator: a == 0
            if a != 0:
                G.append(a)
        # equations reachable from the term's symbols
        def sup(p):
            s = set()
            for m in p.monoms():
                s |= {i for i, x in enumerate(m) if x}
            return s
        cur, sel, rest, ch = sup(num), [], [(g, sup(g)) for g in G], True
        while ch:
            ch = False
            for g, s in list(rest):
                if s & cur:
                    sel.append(g)
                    rest.remove((g, s))
                    cur |= s
                    ch = True
        if not sel:
            return False
        sel.sort(key=lambda g: (len(g), str(g.LM)))
        r = num.rem(sel)
        if r == 0:
            return True
        if not gb or len(sel) > 30:
            return False
        B = groebner(sel, R.R)
        return num.rem(B) == 0
    except (NotRational, Unsupported):
        return False


def canon_term(z):
    """Rational function in lowest terms (denominators are never zero where
    the code divided), so that equal arguments become identical terms."""
    try:
        R = Ring([z])
        a, b = R.conv(z)
        a, b = a.cancel(b)
    except (NotRational, Unsupported):
        return z
    if b.LC < 0:
        a, b = -a, -b

    def back(p):
        out = []
        for m, c in sorted(p.terms(), reverse=True):
            t = [z3.RealVal(f"{int(c.numerator)}/{int(c.denominator)}")]
            for e, v in zip(m, R.keep):
                t += [v] * e
            t = t[1:] if len(t) > 1 and c == 1 else t
            out.append(t[0] if len(t) == 1 else z3.Product(*t))
        return out[0] if len(out) == 1 else z3.Sum(*out) if out else z3.RealVal(0)

    if b == R.R.one:
        return back(a)
    return back(a) / back(b)


def has_div(z):
    st, seen = [z], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV:
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_POWER):
            st.extend(t.children())
    return False


class Relax:
    """Weaker real-arithmetic version of a set of formulas: applications of
    uninterpreted functions become unknowns, integers become reals (strict
    integer inequalities keep their unit gap).  Only unsatisfiability of the
    result means anything."""

    def __init__(self):
        self.side, self.memo, self.keep = [], {}, []

    def var(self, t):
        self.keep.append(t)
        return z3.Real(f"rx!{t.get_id()}")

    def term(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        n = numeral(t)
        k = t.decl().kind()
        if n is not None:
            r = z3.RealVal(f"{n.numerator}/{n.denominator}")
        elif k == z3.Z3_OP_TO_REAL:
            r = self.term(t.arg(0))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            cs = [self.term(c) for c in t.children()]
            r = cs[0]
            for c in cs[1:]:
                r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
        elif k == z3.Z3_OP_UMINUS:
            r = -self.term(t.arg(0))
        elif k == z3.Z3_OP_DIV:
            r = self.term(t.arg(0)) / self.term(t.arg(1))
        elif k == z3.Z3_OP_ITE:
            r = self.var(t)
            c = t.arg(0)
            self.memo[i] = r
            self.side.append(z3.Or(z3.And(self.form(c, True), r == self.term(t.arg(1))),
                                   z3.And(self.form(c, False), r == self.term(t.arg(2)))))
        else:
            r = self.var(t)
        self.memo[i] = r
        return r

    def form(self, f, pos):
        k = f.decl().kind()
        cs = f.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return z3.BoolVal((k == z3.Z3_OP_TRUE) == pos)
        if k == z3.Z3_OP_NOT:
            return self.form(cs[0], not pos)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            g = [self.form(c, pos) for c in cs]
            return z3.And(*g) if (k == z3.Z3_OP_AND) == pos else z3.Or(*g)
        if k == z3.Z3_OP_IMPLIES:
            a, b = self.form(cs[0], not pos), self.form(cs[1], pos)
            return z3.Or(a, b) if pos else z3.And(a, b)
        if k == z3.Z3_OP_ITE:
            return z3.Or(z3.And(self.form(cs[0], True), self.form(cs[1], pos)),
                         z3.And(self.form(cs[0], False), self.form(cs[2], pos)))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            isint = cs[0].sort() == z3.IntSort()
            a, b = self.term(cs[0]), self.term(cs[1])
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if not pos:
                a, b, strict = b, a, not strict
            if strict:
                return a + 1 <= b if isint else a < b
            return a <= b
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(cs) == 2:
            eq = (k == z3.Z3_OP_EQ) == pos
            if cs[0].sort() == z3.BoolSort():
                p, q = (self.form(cs[0], True), self.form(cs[0], False)), (self.form(cs[1], True), self.form(cs[1], False))
                return z3.Or(z3.And(p[0], q[0]), z3.And(p[1], q[1])) if eq else \
                    z3.Or(z3.And(p[0], q[1]), z3.And(p[1], q[0]))
            a, b = self.term(cs[0]), self.term(cs[1])
            if eq:
                return a == b
            if cs[0].sort() == z3.IntSort():
                return z3.Or(a + 1 <= b, b + 1 <= a)
            return a != b
        self.keep.append(f)
        b = z3.Bool(f"rb!{f.get_id()}")
        return b if pos else z3.Not(b)

"""Contract context, symbolic side: inputs are arbitrary, checks are proofs."""
import builtins
import copy
import importlib
import types
from fractions import Fraction

import numpy as np
import z3

from . import frames, sym
from .coll import (UNBOUND, Fam, Poison, HvDict, HvList, Loop, Own, Rep, Tally, RepStr, comps, isvec, same, subst)
from .core import PathEnd
from .shims import CatArr, Ghost, MeshData, SymArr, SymMesh
from .sym import (SymBool, SymInt, SymReal, Unsupported, is_num, is_sym, ite, mkb,
                  mkreal, rv, to_bool, to_int, to_real)

R, I = z3.RealSort(), z3.IntSort()


class Mods:
    """Modules of the package under verification by last name."""

    NAMES = {
        "vector": "geometry.vector", "path": "geometry.path", "surface": "geometry.surface",
        "geometry": "geometry.geometry", "component": "components.component",
        "composite": "components.composite", "polygon": "components.polygon",
        "swept": "components.swept", "revolved": "components.revolved",
        "wing": "components.wing", "fin": "components.fin", "common": "components.common",
        "constants": "components.constants",
        "vehicle": "vehicle", "utilities": "utilities", "generator": "generator",
    }

    def __getattr__(self, k):
        if k not in self.NAMES:
            raise AttributeError(k)
        return importlib.import_module("hypervehicle." + self.NAMES[k])


class Ctx:
    _hv_context = True

    symbolic = True
    concrete = False

    def __init__(self, E):
        self.E = E
        self.M = Mods()
        self.events = E.log

    # ------------------------------------------------------------- inputs
    def _reg(self, name, z):
        self.E.inputs[name] = z

    def _bound(self, v, lo, hi, pos):
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        if pos:
            self.E.assume(v > 0)

    def real(self, name, lo=None, hi=None, pos=False, at=None, nonzero=False):
        if at is None:
            v = SymReal(z3.Real(name))
            self._reg(name, v.z)
            self._bound(v, lo, hi, pos)
            if nonzero:
                self.E.assume(v != 0)
            return v
        f = z3.Function(name, I, R)

        def facts(t):
            a = t.arg(0)
            key = ("at", name, a.get_id())
            if key in self.E.cache:
                return
            self.E.cache[key] = (a, t)
            self.E.funcs.setdefault(name, []).append(([z3.ToReal(a)], [t]))
            c = []
            if lo is not None:
                c.append(t >= to_real(lo))
            if hi is not None:
                c.append(t <= to_real(hi))
            if pos:
                c.append(t > 0)
            if nonzero:
                c.append(t != 0)
            if c:
                self.E.axiom(z3.And(*c))

        self.E.onapp[name] = facts
        t = f(z3.simplify(to_int(at)))
        facts(t)
        return SymReal(t)

    def pos(self, name, hi=None, at=None):
        return self.real(name, hi=hi, pos=True, at=at)

    def unit(self, name):
        return self.real(name, 0, 1)

    def int(self, name, lo=None, hi=None, sample=None, at=None):
        if at is not None:
            f = z3.Function(name, I, I)

            def facts(t):
                a = t.arg(0)
                key = ("at", name, a.get_id())
                if key in self.E.cache:
                    return
                self.E.cache[key] = (a, t)
                self.E.funcs.setdefault(name, []).append(([z3.ToReal(a)], [z3.ToReal(t)]))
                for ok in ([t >= lo] if lo is not None else []) + ([t <= hi] if hi is not None else []):
                    self.E.axiom(ok)

            self.E.onapp[name] = facts
            t = f(z3.simplify(to_int(at)))
            facts(t)
            return SymInt(t)
        v = SymInt(z3.Int(name))
        self._reg(name, v.z)
        self._bound(v, lo, hi, False)
        return v

    def vec(self, name, at=None, scale=None):
        V = self.M.vector.Vector3
        cs = [self.real(name + "." + a, at=at) for a in "xyz"]
        return V(*cs)

    def choice(self, name, options):
        i = self.E.choose(list(range(len(options))))
        self.E.choices[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def apath(self, name, at=None, length=None):
        return self.E.classes["AbstractPath"](self, name, at)

    def asurf(self, name, at=None):
        return self.E.classes["AbstractSurface"](self, name, at)

    def recpath(self, name):
        """An arbitrary path; .ts are the parameters it was evaluated at."""
        return self.E.classes["RecordingPath"](self, name)

    def recsurf(self, name):
        return self.E.classes["RecordingSurface"](self, name)

    def uf(self, name, args, ret=1, at=None):
        zs = [to_real(a) for a in args]
        if at is not None:
            zs = [z3.ToReal(to_int(at))] + zs
        zs = [self.E.normal(z) for z in zs]
        out = []
        for k in range(ret):
            f = z3.Function(f"{name}#{k}" if ret > 1 else name, *([R] * (len(zs) + 1)))
            out.append(f(*zs))
        key = ("uf", name) + tuple(z.get_id() for z in zs)
        if key not in self.E.cache:
            self.E.cache[key] = (zs, out)
            self.E.funcs.setdefault(name, []).append((zs, out))
        return [SymReal(o) for o in out]

    def afun(self, name, nargs, at=None, lo=None, hi=None, pos=False):
        """Arbitrary real-valued function of nargs reals."""

        def f(*a):
            v = self.uf(name, a, 1, at)[0]
            if lo is not None:
                self.E.axiom(v.z >= to_real(lo))
            if hi is not None:
                self.E.axiom(v.z <= to_real(hi))
            if pos:
                self.E.axiom(v.z > 0)
            return v

        return f

    def vecfun(self, name, params, zonly=False, deps=None):
        """Arbitrary vector-valued function with the given parameter names."""
        V = self.M.vector.Vector3

        def f(*a, **k):
            vals = dict(zip(params, a))
            vals.update(k)
            use = [vals.get(p, 0.0) for p in (deps or params)]
            if zonly:
                return V(0.0, 0.0, self.uf(name, use, 1)[0])
            return V(*self.uf(name, use, 3))

        return f

    def seq(self, name, lo, mk, sample=(1, 5), n=None):
        n = n if n is not None else self.int(name + ".n", lo)
        memo = {}

        def get(j):
            key = z3.simplify(to_int(j)).get_id()
            if key not in memo:
                memo[key] = (mk(j), j)
            return memo[key][0]

        rep = Rep(name, n)
        self.E.reps[rep.tok] = rep
        self.E.rep_of_size(rep)
        return HvList.sym(n, get, rep)

    def pair(self, i, j):
        """Index of an element of an element."""
        return SymInt(z3.Function("pair!", I, I, I)(to_int(i), to_int(j)))

    def mapping(self, name, mk, sample=(1, 4), n=None):
        """dict with arbitrarily many entries key -> mk(i)."""
        if n is None:
            n = SymInt(z3.Int(name + ".n"))
            self._reg(name + ".n", n.z)
            self.E.assume(n >= 1)
        rep = Rep(name, n)
        self.E.rep_bounds(rep)
        self.E.rep_of_size(rep)
        d = HvDict()
        d.add_rep(rep, mk(rep.idx))
        d.rep = rep
        return d

    def numbered(self, prefix, n, mk):
        """dict with the entries prefix0 .. prefix(n-1)."""
        known = self.E.cache.get(("rep", z3.simplify(n.z).get_id(), 0))
        rep = known[0] if known else Rep(prefix, n)
        self.E.reps[rep.tok] = rep
        self.E.rep_of_size(rep)
        d = HvDict({f"{prefix}{self.E.token(rep.idx)}": mk(rep.idx)})
        self.E.rep_bounds(rep)
        d._reps[rep.tok] = rep
        return d

    def not_named(self, m, text):
        """Precondition: no entry of the mapping has this name."""
        self.E.other_names |= {(k, text) for k in m._d if "⟪" in k}

    def hv_list(self, items):
        return HvList(items)

    def hv_dict(self, d):
        return HvDict(d)

    # ------------------------------------------------------------- logic
    def assume(self, cond):
        self.E.assume(cond)

    def check(self, name, cond):
        self.E.check(name, cond)

    def lemma(self, name, cond):
        """Proof step: checked, but its failure is no violation by itself."""
        before = len(self.E.results)
        self.E.check(name, cond)
        for o in self.E.results[before:]:
            o.exact = False

    def eq(self, a, b, tol=None):
        r = same(a, b)
        if r is None:
            if a is b:
                return True
            if isinstance(a, (str, builtins.bool, type(None))) or isinstance(b, (str, builtins.bool, type(None))):
                return a == b
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
        return r

    def close(self, a, b, tol=1e-6):
        """|a-b| <= tol (componentwise for vectors)."""
        if isvec(a):
            r = SymBool(z3.BoolVal(True))
            bs = comps(b) if isvec(b) else b
            for x, y in zip(comps(a), bs):
                r = r & (sym.m_abs(mkreal(x) - y) <= tol)
            return r
        return sym.m_abs(mkreal(a) - b) <= tol

    def check_vec(self, name, v, w, tol=None):
        if not isvec(v):
            self.E.check(name + " [is a vector]", False)
            return
        ws = comps(w) if isvec(w) else w
        for a, x, y in zip("xyz", comps(v), ws):
            if tol is None:
                self.E.check(f"{name} [{a}]", mkreal(x) == y)
            else:
                self.E.check(f"{name} [{a}]", sym.m_abs(mkreal(x) - y) <= tol)

    def same_vec(self, v, w):
        ws = comps(w) if isvec(w) else w
        r = SymBool(z3.BoolVal(True))
        for x, y in zip(comps(v), ws):
            r = r & (mkreal(x) == y)
        return r

    def raises(self, fn, *exc):
        try:
            fn()
        except Unsupported:
            raise
        except ZeroDivisionError as e:
            # a numpy division yields nan or inf instead
            raise Unsupported("refusal by a division by zero") from e
        except (exc or Exception):
            return True
        return False

    def And(self, *a):
        return mkb(z3.And(*[to_bool(x) for x in a]))

    def Or(self, *a):
        return mkb(z3.Or(*[to_bool(x) for x in a]))

    def Not(self, a):
        return mkb(z3.Not(to_bool(a)))

    def Implies(self, a, b):
        return mkb(z3.Implies(to_bool(a), to_bool(b)))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def sqrt(self, x):
        return sym.m_sqrt(x) if is_sym(x) else mkreal(x).sqrt()

    def sin(self, x):
        return sym.m_sin(mkreal(x))

    def cos(self, x):
        return sym.m_cos(mkreal(x))

    def atan2(self, y, x):
        return sym.m_atan2(y, x)

    def pow(self, b, e):
        return sym.m_pow(mkreal(b), e)

    def abs(self, x):
        return sym.m_abs(x)

    def floor(self, x):
        return sym.m_floor(x)

    def toreal(self, i):
        return mkreal(i)

    @property
    def pi(self):
        return sym.pi_val()

    def norm(self, v):
        a, b, d = comps(v)
        return sym.m_sqrt(mkreal(a) * a + mkreal(b) * b + mkreal(d) * d)

    def is_concrete_true(self, b):
        return builtins.bool(b)

    def note(self, s):
        self.E.notes.add(s)

    # ------------------------------------------------- unbounded collections
    def each(self, seq, name="q"):
        """(index, element) of an arbitrary element."""
        if isinstance(seq, HvDict):
            for k, v in seq._d.items():
                yield k, v
            return
        if not isinstance(seq, HvList):
            seq = HvList(seq)
        if seq.is_sym():
            if seq._items is not None and len(seq._items) == 1 and len(seq._items[0].reps) == 1:
                yield seq._items[0].reps[0].idx, seq._items[0].value
                return
            s = seq.symbolic()
            rep = getattr(seq, "rep", None)
            if rep is not None:
                self.E.rep_bounds(rep)
                yield rep.idx, s.at(rep.idx)
                return
            j = self.E.fresh(name, "int")
            self.E.assume((j >= 0) & (j < s._n))
            yield j, s.at(j)
        else:
            for i, v in enumerate(seq._items):
                yield i, v

    def entries(self, d):
        """(position, key, value) of an arbitrary entry of a dict filled by one loop."""
        if not d.is_sym():
            for i, (k, v) in enumerate(d._d.items()):
                yield i, k, v
            return
        if len(d._d) != 1:
            raise Unsupported("positions in a dict of several families")
        for k, v in d._d.items():
            reps = d.reps_of(k)
            if len(reps) != 1:
                raise Unsupported("positions in a nested family")
            yield reps[0].idx, k, v

    def loop(self, seq):
        """Iterate like the code under verification does."""
        if not seq.is_sym():
            yield from enumerate(seq._items)
            return
        for el in Loop(seq, "harness", 0):
            yield seq.rep.idx, el

    def families(self, key, *seqs):
        return sorted({r.tok for r in self.E.reps_in(key)} | {s.rep.tok for s in seqs})

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def index(self, name, n):
        """An arbitrary index 0 <= i < n."""
        i = SymInt(z3.Int(name))
        self._reg(name, i.z)
        self.E.assume((i >= 0) & (i < n))
        return i

    def length(self, x):
        from .shims import len_

        return len_(x)

    def getitem(self, x, i):
        if isinstance(x, HvList):
            return x.symbolic().at(i if isinstance(i, SymInt) else SymInt(z3.IntVal(i)))
        if isinstance(x, SymArr):
            return x.get(i if isinstance(i, SymInt) else SymInt(z3.IntVal(i)))
        return x[i]

    def total(self, n, f, rep=None):
        """sum_{k<n} f(k)"""
        r = rep or self.E.rep_for(n if isinstance(n, SymInt) else SymInt(z3.IntVal(n)))
        if isinstance(rep, HvList):
            r = rep.rep
        if isinstance(rep, HvDict):
            r = rep.rep
        self.E.rep_bounds(r)
        S = self.E.prefix_sum(r, to_real(f(r.idx)))
        return SymReal(S(r.n.z))

    def total_over(self, d, f):
        """sum of f(key) over the keys of a dict"""
        r = SymReal(z3.RealVal(0))
        for k in d._d:
            reps = d.reps_of(k)
            if len(reps) > 1:
                raise Unsupported("sum over a nested family")
            for rep in reps:
                self.E.rep_bounds(rep)
                r = r + SymReal(self.E.prefix_sum(rep, to_real(f(k)))(rep.n.z))
            if not reps:
                r = r + f(k)
        return r

    def prefix(self, n, f, k, rep=None):
        r = rep.rep if isinstance(rep, (HvList, HvDict)) else self.E.rep_for(n)
        self.E.rep_bounds(r)
        S = self.E.prefix_sum(r, to_real(f(r.idx)))
        kz = z3.simplify(to_int(k))
        self.E.reinstantiate(S(kz))
        return SymReal(S(kz))

    def monotone_prefix(self, name, n, f, pairs, rep=None, strict=True):
        """From f(k) > 0 (>= 0) for arbitrary k: prefix sums increase."""
        r = rep.rep if isinstance(rep, (HvList, HvDict)) else self.E.rep_for(n)
        self.E.rep_bounds(r)
        d = to_real(f(r.idx))
        self.E.check(name + " [summand sign]", mkb(d > 0 if strict else d >= 0))
        S = self.E.prefix_sum(r, d)
        for a, b in pairs:
            az, bz = to_int(a), to_int(b)
            g = z3.And(az >= 0, az < bz, bz <= r.n.z)
            self.E.axiom(z3.Implies(g, S(az) < S(bz) if strict else S(az) <= S(bz)))
            self.E.axiom(z3.Implies(z3.And(az >= 0, az == bz), S(az) == S(bz)))

    def single_term(self, name, j):
        """Every registered sum whose summand vanishes except at index j
        equals its summand at j (each vanishing condition is an obligation)."""
        jz = to_int(j)
        for (rep, d, S) in list(self.E.sums):
            if ("single", S.name()) in self.E.cache:
                continue
            dj = z3.simplify(z3.substitute(d, (rep.idx.z, jz)))
            self.E.reinstantiate(dj)
            ok = self.E.implied(z3.Implies(rep.idx.z != jz, d == 0))
            if not ok:
                self.E.inst_universals([rep.idx])
                st = self.E._prove1(z3.Implies(rep.idx.z != jz, d == 0))
                ok = st[0] == "proved"
            if ok:
                self.E.cache[("single", S.name())] = (True,)
                self.E.record(name + " [other terms vanish]", "proved", backend="z3")
                self.E.axiom(z3.Implies(z3.And(jz >= 0, jz < rep.n.z), S(rep.n.z) == dj))

    def induct(self, name, P, n, extra=()):
        """P(0) and P(k) -> P(k+1) for arbitrary k >= 0 give P(n)."""
        self.E.check(name + " [base]", P(SymInt(z3.IntVal(0))))
        k = self.E.fresh("k", "int")
        nz = to_int(n)
        prem = z3.And(k.z >= 0, k.z < nz, to_bool(P(k)))
        concl = to_bool(P(k + 1))
        self.E.check(name + " [step]", mkb(z3.Implies(prem, concl)))
        for x in (n,) + tuple(extra):
            self.E.axiom(z3.Implies(z3.And(to_int(x) >= 0, to_int(x) <= nz), to_bool(P(x))))

    def induct_at(self, name, P, n, k):
        """Like induct, for a step index the caller has prepared facts for."""
        self.E.check(name + " [base]", P(SymInt(z3.IntVal(0))))
        nz = to_int(n)
        prem = z3.And(k.z >= 0, k.z < nz, to_bool(P(k)))
        self.E.check(name + " [step]", mkb(z3.Implies(prem, to_bool(P(k + 1)))))
        self.E.axiom(z3.Implies(nz >= 0, to_bool(P(n))))

    def induct_triangle(self, name, P, n):
        """P(0,i) and P(k,i), P(k,i+1) -> P(k+1,i) give P(n,0)."""
        i, k = self.E.fresh("i", "int"), self.E.fresh("k", "int")
        zero = SymInt(z3.IntVal(0))
        self.E.check(name + " [base]", mkb(z3.Implies(z3.And(i.z >= 0, i.z <= to_int(n)), to_bool(P(zero, i)))))
        prem = z3.And(k.z >= 0, i.z >= 0, i.z + k.z + 1 <= to_int(n), to_bool(P(k, i)), to_bool(P(k, i + 1)))
        self.E.check(name + " [step]", mkb(z3.Implies(prem, to_bool(P(k + 1, i)))))
        self.E.axiom(to_bool(P(n, zero)))

    def frame(self, names=("e1", "e2", "e3")):
        """An arbitrary right-handed orthonormal frame."""
        es = [self.vec(n) for n in names]
        m = [comps(e) for e in es]
        dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
        for i in range(3):
            for j in range(i, 3):
                d = 1 if i == j else 0
                self.E.assume(dot(m[i], m[j]) == d)
                self.E.assume(m[0][i] * m[0][j] + m[1][i] * m[1][j] + m[2][i] * m[2][j] == d)
        for i in range(3):
            u, v, w = m[i], m[(i + 1) % 3], m[(i + 2) % 3]
            for a in range(3):
                b, d = (a + 1) % 3, (a + 2) % 3
                self.E.assume(u[b] * v[d] - u[d] * v[b] == w[a])
        return es

    def hint_norm(self, *vals):
        """Values (known to be >= 0) that square roots may turn out to be."""
        for v in vals:
            self.E.check("hinted magnitude is not negative", v >= 0)
            self.E.sqrt_hints.append(to_real(v))
        self.E.algebra = True

    def hint_root(self, *vals):
        """Values that may turn out to be the only root of a function."""
        self.E.root_hints.extend(vals)

    def exact_rounding(self):
        self.E.round_exact = True

    def hint_angle(self, phi, k):
        """atan2(k sin phi, k cos phi) == phi for -pi < phi <= pi, k > 0."""
        self.E.check("hinted angle in range", self.And(phi > -self.pi, phi <= self.pi, k > 0))
        self.E.atan_hints.append((to_real(phi), to_real(k), to_real(self.sin(phi)), to_real(self.cos(phi))))
        self.E.algebra = True

    def triangle(self, name, u, v):
        """|u+v| <= |u| + |v| (vectors given as component triples)."""
        dot = lambda p, q: sum((mkreal(x) * y for x, y in zip(p[1:], q[1:])), mkreal(p[0]) * q[0])
        w = [mkreal(x) + y for x, y in zip(u, v)]
        a, b, c = [self.sqrt(dot(q, q)) for q in (u, v, w)]
        E = self.E
        E.check(name + " [Lagrange]", a * a * (b * b) - dot(u, v) * dot(u, v) ==
                (u[1] * v[2] - u[2] * v[1]) * (u[1] * v[2] - u[2] * v[1])
                + (u[2] * v[0] - u[0] * v[2]) * (u[2] * v[0] - u[0] * v[2])
                + (u[0] * v[1] - u[1] * v[0]) * (u[0] * v[1] - u[1] * v[0]))
        E.check(name + " [square]", c * c == a * a + b * b + 2 * dot(u, v))
        # from here on only the four scalars matter
        A, B, C, D = [E.fresh("tri") for _ in range(4)]
        E.check(name + " [Cauchy-Schwarz]", mkb(z3.Implies(
            z3.And(A.z >= 0, B.z >= 0, A.z * A.z * (B.z * B.z) - D.z * D.z >= 0), D.z <= A.z * B.z)))
        E.check(name + " [triangle]", mkb(z3.Implies(
            z3.And(A.z >= 0, B.z >= 0, C.z >= 0, D.z <= A.z * B.z,
                   C.z * C.z == A.z * A.z + B.z * B.z + 2 * D.z), C.z <= A.z + B.z)))
        E.axiom(to_bool(c <= a + b))

    def instantiate(self, *idx):
        """Use the universally quantified facts at these indices."""
        self.E.inst_universals(idx)

    def witness(self, *idx):
        """Use universally quantified facts at these indices as they appear."""
        for j in idx:
            self.E.witness(j if isinstance(j, SymInt) else SymInt(z3.IntVal(j)))

    def increasing(self, seq, key):
        """Precondition: key(seq[0]) < key(seq[1]) < ... ."""
        s = seq.symbolic()
        self.E.increasing(s._n, lambda i: key(s.at(i)))

    def reindex(self, rep_seq, j):
        pass

    def any_index(self, n):
        """The index constant loops over range(n) use."""
        r = self.E.rep_for(n)
        self.E.rep_bounds(r)
        return r.idx

    def segment(self):
        """The piece the last interpolation fell into (None: beyond the ends)."""
        return self.E.interp_idx[-1]

    def segments(self):
        return self.E.interp_idx[-2:]

    def E_zero(self):
        return SymInt(z3.IntVal(0))

    def fresh_index(self, name="m"):
        return self.E.fresh(name, "int")

    # ------------------------------------------------------------- objects
    def ghost(self, **attrs):
        return LogObj(self, attrs)

    def recorder(self):
        return object()

    def watch(self, tag, obj, method, ret=None):
        """Replace obj.method by one that only records its calls."""
        obj.__dict__[method] = lambda *a, **k: (self.E.event((tag, obj, method, a, k)), ret)[1]

    def rounds(self, tag, seq, obj, *outer):
        """(i, element of seq, calls on obj made for it): the calls must come
        from one loop over seq inside (or around) loops over the outer lists."""
        evs = [(ctx, e[2:]) for ctx, e in self.E.log if e[0] is tag and e[1] is obj]
        if not seq.is_sym():
            raise Unsupported("recorded calls for a finite list")
        want = sorted(q.rep.tok for q in (seq,) + outer)
        for i, el in self.each(seq):
            if len({ctx for ctx, _ in evs}) > 1:
                raise Unsupported("recorded calls from several loops")
            for ctx, _ in evs:
                if sorted(x[0].tok for x in ctx) != want:
                    raise Unsupported("recorded calls are not tied to the given lists")
                self.E.check("calls run over the whole lists in order", True)
            yield i, el, [e for _, e in evs]

    def calls(self, tag, obj, *outer):
        """Calls recorded on obj, one per element of the outer lists."""
        want = sorted(q.rep.tok for q in outer)
        evs = [(ctx, e[2:]) for ctx, e in self.E.log if e[0] is tag and e[1] is obj]
        for ctx, _ in evs:
            if sorted(x[0].tok for x in ctx) != want:
                raise Unsupported("recorded calls are not tied to the given lists")
            self.E.check("calls run over the whole lists in order", True)
        return [e for _, e in evs]

    def history(self, v, kind, n, mk):
        """State of the vehicle after adding n components of the kind without
        options (the default names number them)."""
        if not builtins.bool(n > 0):
            return []
        rep = Rep("old", n)
        self.E.reps[rep.tok] = rep
        old = mk(rep.idx)
        self.E.rep_bounds(rep)
        v._component_counts = HvDict({kind: n})
        name = f"{kind}_{self.E.token(rep.idx + 1)}"
        for d in ("_named_components", "_enumerated_components"):
            m = HvDict({name: old})
            m._reps[rep.tok] = rep
            setattr(v, d, m)
        v.components = HvList([Fam([rep], old)])
        return [(name, old)]

    def text(self, *parts):
        def one(p):
            if isinstance(p, SymInt):
                for k in (0, 1):
                    if self.E.implied(p.z == k):
                        return str(k)
            return str(p)

        return "".join(one(p) for p in parts)

    def label(self, name, i):
        """A string of its own for every element i."""
        return name + self.E.token(i)

    def last(self, seq):
        return seq._items[-1]

    def tally(self, seq, keys, kind):
        """count(k, i): number of elements of kind k before element i."""
        t = Tally(seq.rep, keys, kind)
        self.E.tallies.append(t)
        return t.count

    def patch(self, mod, name, fn):
        """Replace a module attribute for this run."""
        setattr(mod, name, fn)

    def uses(self, name):
        """Relies on another contract."""
        self.E.used.add(name)

    def rare(self):
        return True

    def stl_files(self, fn, here=False, over=()):
        """{file name: mesh} of the STL files fn(directory) writes, one each
        per element of the lists over."""
        before = len(self.E.log)
        fn("." if here else "DIR")
        out = {}
        for ctx, e in self.E.log[before:]:
            if e[0] == "save":
                name = e[2] if here else e[2][4:] if e[2].startswith("DIR/") else "outside:" + e[2]
                self.check("each file is written once", name not in out and
                           sorted(q.rep.tok for q in over) == sorted(x[0].tok for x in ctx))
                out[name] = e[1]
        return out

    def per_key(self, d, name, mk):
        """dict with the keys of d."""
        out = HvDict()
        for k in d._d:
            reps = d.reps_of(k)
            out._d[k] = mk(name, reps[0].idx if reps else None)
        out._reps = dict(d._reps)
        return out

    def mesh_parts(self, m, reps=()):
        """[(families, arguments of the conversion)] a mesh is put together from."""
        from .shims import CatArr, MeshData, SymMesh

        if isinstance(m, SymMesh):
            if "args" in m.__dict__:
                return [(tuple(reps), m.args)]
            if m.source is not None and m.n is None:
                return self.mesh_parts(m.source, reps)
            raise Unsupported("mesh with written triangles")
        if isinstance(m, MeshData):
            return self.mesh_parts(m.mesh, reps)
        if isinstance(m, CatArr):
            out = []
            L = m.parts
            if L._items is None:
                raise Unsupported("parts of a mesh by index")
            for it in L._items:
                if isinstance(it, Fam):
                    out += self.mesh_parts(it.value, tuple(reps) + tuple(it.reps))
                else:
                    out += self.mesh_parts(it, reps)
            return out
        raise Unsupported(f"mesh made of {type(m).__name__}")

    def mesh_is(self, what, m, entries):
        """The mesh is the concatenation of the meshes of the entries
        (key, patch, nr, ns, clustering), in any order."""
        parts = self.mesh_parts(m)
        entries = list(entries)
        self.check(what + ": one part per patch", len(parts) == len(entries))
        if len(parts) != len(entries):
            return
        by = {id(p["patch"]): i for i, (_, p) in enumerate(parts)}
        if len(by) == len(parts) and all(id(e[1]) in by for e in entries):
            parts = [parts[by[id(e[1])]] for e in entries]
        for (reps, a), (key, patch, nr, ns, cl) in zip(parts, entries):
            want = self.E.reps_in(key)
            if key:
                self.check(what + ": every patch once", sorted(x.tok for x in reps) == sorted(x.tok for x in want))
            if a["patch"] is not patch:
                r, s = self.real("mesh.r"), self.real("mesh.s")
                self.check_vec(what + ": patch", a["patch"](r, s), [*comps(patch(r, s))])
            self.check(what + ": resolution", self.eq(a["nr"], nr) & self.eq(a["ns"], ns))
            self.check(what + ": spacing", a["fi"] is cl.get("i_clustering_func") and a["fj"] is cl.get("j_clustering_func")
                       and not a["mirror"] and (a["fi"] is not None or bool(self.eq(a["si"], 1))) and (a["fj"] is not None or bool(self.eq(a["sj"], 1))))

    def solid(self, name, i):
        """A mesh of which only the mass properties are known."""
        return Solid(self, name, i)

    def area(self, mesh):
        return mesh.areas._hv_sum()

    def trimesh(self, name, n, i):
        """A mesh of n arbitrary triangles."""
        m = Ghost()
        m.vectors = frames.Grid((n, 3, 3), Vertices(name, i))
        return m

    def vertices(self, what, table, n, cols):
        """The table has a row for every vertex with these columns."""
        if not isinstance(table, frames.Frame):
            raise Unsupported("not a table of vertices")
        self.E.check(what + ": a row per vertex", to_int(table.rows.base().n) == 3 * to_int(n))
        r = self.index("row", SymInt(3 * to_int(n)))
        t, v = SymInt(r.z / 3), SymInt(r.z % 3)
        for col, f in cols.items():
            if col not in table.cols._d:
                self.E.check(f"{what}: has the column", False)
                continue
            self.E.check(f"{what}: {col[:2]}", mkreal(table.cols._d[col](r)) == f(t, v))

    def position(self, d, key):
        """Number of the entry in its dict."""
        reps = d.reps_of(key)
        return reps[0].idx

    def record(self, **kw):
        return types.SimpleNamespace(**kw)

    def table(self, cols):
        from .shims import Table

        return Table(HvDict(cols))

    def columns(self, table):
        return list(table.cols._d)

    def changed(self, kw, params):
        """Entries of the keyword arguments that differ from params: {key: new value}"""
        out = {}
        for k, v in params._d.items():
            if k not in kw:
                raise Unsupported("parameters not passed by name")
            w = kw[k]
            if isinstance(w, Own):
                self.E.check("the other parameters stay", w.base is v)
                out[k] = w.new
            elif w is not v:
                # every element of the family was replaced
                self.E.check("the other parameters stay", False)
        return out

    def column(self, table, col):
        return table.column(col)

    # ------------------------------------------------------------- loops
    def invariant(self, name, n, state, claims=None, stops=None):
        """Explicit loop invariant: state(k) are the values carried into
        iteration k, claims(k, lists, numbers) further facts about the carried
        containers and numbers.  stops: the loop is assumed to be left before
        its range is exhausted, for the reason given."""
        self.E.invariants.append(Invariant(self, name, n, state, claims, stops))

    def any_vectors(self, n):
        """A list of n unspecified vectors."""
        V = self.M.vector.Vector3
        k = next(self.E.fresh_n)
        fs = [z3.Function(f"any!{k}{a}", I, R) for a in "xyz"]
        o = HvList.sym(n if isinstance(n, SymInt) else SymInt(z3.IntVal(n)),
                       lambda j: V(*[SymReal(f(to_int(j))) for f in fs]))
        o.anything = True
        return o

    def norm_bounds(self):
        """State with every norm that it bounds the components."""
        self.E.norm_bounds = True

    def symbolic_ranges(self, n):
        """Treat ranges of at least n iterations like unbounded ones."""
        self.E.sym_ranges = n

    # ------------------------------------------------------------- meshes
    def cells(self, m, ni, nj):
        """(i, j, triangles->vertices) of an arbitrary cell."""
        if not isinstance(m, SymMesh):
            raise Unsupported("not a mesh")
        reps = {w[0] for w in m.writes}
        if len(reps) != 1 or len(next(iter(reps))) != 2:
            raise Unsupported("mesh stores outside a double loop")
        ri, rj = next(iter(reps))
        if not self.E.implied(ri.n.z == to_int(ni)) and self.E.implied(rj.n.z == to_int(ni)):
            ri, rj = rj, ri
        # every cell stores its own twelve vertices and nothing else
        self.E.check("vertices stored per cell", len(m.writes) == 12)
        self.E.check("cell loop covers every i", ri.n == ni)
        self.E.check("cell loop covers every j", rj.n == nj)
        yield ri.idx, rj.idx

    def tri(self, m, t, q, guard=None):
        """Vertex q of triangle t."""
        hits = [w for w in m.writes if not is_sym(w[2]) and w[2] == q
                and self.E.implied(to_int(w[1]) == to_int(t))]
        if len(hits) != 1:
            raise Unsupported("store for this vertex not identified")
        v = hits[0][3]
        return [mkreal(x) for x in v]

    def ntri(self, m):
        return m.n

    # ------------------------------------------------------------- reprs
    def fam_log(self):
        return self.E.log


class Invariant:
    def __init__(self, c, name, n, state, claims=None, stops=None):
        self.c, self.name, self.n, self._state = c, name, n, state
        self.claims, self.stops = claims, stops
        self.ks = []

    def applies(self, loop, lst):
        E = self.c.E
        if any(L.inv is self for L in E.loops):
            return False
        if not E.implied(lst._n.z == to_int(self.n() if callable(self.n) else self.n)):
            return False
        try:
            entry = {k: loop.current(g) for k, g in loop.assign}
            heap = {k: loop.current(g) for k, g in loop.mut}
            m = self._match(entry, heap)
            return bool(m) and len(set(m.values())) == len(self.state(SymInt(z3.IntVal(0))))
        except Unsupported:
            return False

    def state(self, k):
        return self._state(k)

    def _match(self, entry, heap):
        E = self.c.E
        st = self.state(SymInt(z3.IntVal(0)))
        used, out = set(), {}
        for k, v in list(entry.items()) + list(heap.items()):
            for i, s in enumerate(st):
                if i in used:
                    continue
                if isinstance(v, HvList) != isinstance(s, HvList):
                    continue
                try:
                    r = same(v, s)
                except Exception:
                    r = None
                if r is None:
                    continue
                if r is True or (not isinstance(r, builtins.bool) and E.implied(r.z)):
                    used.add(i)
                    out[k] = i
                    break
        return out

    def match(self, loop, entry, heap):
        m = self._match(entry, heap)
        self.carried = {k for k, v in entry.items() if v is not UNBOUND and not isinstance(v, Poison)}
        if self.claims:
            for r in self.facts(SymInt(z3.IntVal(0)), m, entry, heap):
                self.c.E.check_inv(f"claims hold before the loop in {loop.where} ({self.name})", r)
        self.c.E.record(f"invariant established before the loop in {loop.where} ({self.name})",
                        "proved", backend="z3")
        return m

    def facts(self, k, matched, vals, heap):
        lists = [heap.get(pk, vals.get(pk)) for pk in matched]
        nums = [v for pk, v in vals.items() if pk not in matched and pk in self.carried
                and not isinstance(v, builtins.bool) and isinstance(v, (SymReal, builtins.int, builtins.float))]
        try:
            return list(self.claims(k, lists, nums))
        except ValueError:
            raise Unsupported(f"loop state does not have the form of the invariant ({self.name})")

    def level_enter(self, k):
        self.ks.append(k)

    def level_leave(self):
        if self.ks:
            self.ks.pop()


class Vertices(Ghost):
    """Coordinates (triangle, vertex, axis) of the i-th mesh."""

    def __init__(self, name, i):
        self.name, self.i = name, i

    def __call__(self, t, v, k):
        f = z3.Function(self.name + ".vertex", I, I, I, I, R)
        return SymReal(f(*[z3.simplify(to_int(x)) for x in (self.i, t, v, k)]))

    def _hv_subst(self, pairs):
        return Vertices(self.name, subst(self.i, pairs))

    def _hv_parts(self):
        return [self.i]


class Solid(Ghost):
    def __init__(self, c, name, i):
        self.c, self.name, self.i = c, name, i

    def get_mass_properties_with_density(self, density):
        self.c.E.assumed.add("numpy-stl mass properties and triangle areas are those of the mesh")
        f = lambda what, args, n: self.c.uf(f"{self.name}.{what}", args, n, at=self.i)
        arr = np.empty((3, 3), dtype=object)
        arr[:] = np.array(f("inertia", [density], 9), dtype=object).reshape(3, 3)
        cog = np.empty(3, dtype=object)
        cog[:] = f("cog", [], 3)
        return f("volume", [], 1)[0], f("mass", [density], 1)[0], cog, arr

    @property
    def areas(self):
        a = Ghost()
        a._hv_sum = a.sum = lambda *x, **k: self.c.uf(self.name + ".area", [], 1, at=self.i)[0]
        return a

    def _hv_subst(self, pairs):
        return Solid(self.c, self.name, subst(self.i, pairs))


class LogObj(Ghost):
    """Object whose method calls and attribute stores are recorded in order."""

    _own = ("_c", "_attrs", "_tag", "_ret")

    def __init__(self, c, attrs, tag=None):
        object.__setattr__(self, "_c", c)
        object.__setattr__(self, "_attrs", dict(attrs))

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        at = object.__getattribute__(self, "_attrs")
        if a in at:
            v = at[a]
            if isinstance(v, builtins.property):
                return v.fget(self)
            return v
        raise AttributeError(a)

    def __setattr__(self, a, v):
        at = object.__getattribute__(self, "_attrs")
        self._c.E.event(("set", self, a, v))
        at[a] = v

    def __deepcopy__(self, memo):
        return self

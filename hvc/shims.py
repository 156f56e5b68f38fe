"""Builtins and third-party modules as the verified code sees them.

On ordinary values every function here defers to the original; only calls that
involve symbolic values get a definition of their own.  Third-party functions
without a definition raise Unsupported as soon as a symbolic value reaches
them.
"""
import builtins
import importlib
import sys
import types

import numpy as _np
import z3

from . import frames, sym
from .coll import (DictView, Fam, HvDict, HvList, Loop, Poison, RepStr, attr_write,
                   choose_val, comps, has_token, isvec, mkrange)
from .sym import (SymBool, SymInt, SymReal, Unsupported, any_sym, eng, is_num, is_sym,
                  ite, mkb, mkreal, numeral, to_int, to_real)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (builtins.float, SymReal))

    def __call__(cls, v=0.0):
        if isinstance(v, SymReal):
            return v
        if isinstance(v, SymInt):
            return SymReal(z3.ToReal(v.z))
        if isinstance(v, SymBool):
            return SymReal(sym.to_real(v))
        if isinstance(v, builtins.str) and "⟦" in v:
            t = eng().untoken(v.strip())
            if t is None:
                raise Unsupported("number parsed from formatted text")
            return float_(t)
        if hasattr(v, "_hv_float"):
            return v._hv_float()
        return builtins.float(v)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (builtins.int, SymInt))

    def __call__(cls, v=0, *a):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymReal):
            z = v.z
            return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        if isinstance(v, SymBool):
            return SymInt(z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, builtins.str) and "⟦" in v:
            t = eng().untoken(v.strip())
            if isinstance(t, SymInt):
                return t
            raise Unsupported("number parsed from formatted text")
        return builtins.int(v, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (builtins.bool, SymBool))

    def __call__(cls, v=False):
        return builtins.bool(v)


class bool_(metaclass=_BoolMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (builtins.list, HvList))

    def __call__(cls, v=()):
        if isinstance(v, DictView):
            return v.as_list()
        if isinstance(v, HvDict) and v.is_sym():
            return v.keys().as_list()
        if isinstance(v, HvList):
            return v.copy()
        return HvList(v)

    def __getitem__(cls, k):
        return builtins.list[k]


class list_(metaclass=_ListMeta):
    pass


class _DictMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (builtins.dict, HvDict))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], HvList):
            a = (builtins.list(a[0].raw()),)
        return HvDict(*a, **k)

    def __getitem__(cls, k):
        return builtins.dict[k]


class dict_(metaclass=_DictMeta):
    pass


def len_(x):
    if isinstance(x, (HvList, HvDict)) and x.is_sym():
        return x.size()
    if isinstance(x, DictView):
        return x.as_list().size()
    if hasattr(x, "_hv_len"):
        return x._hv_len()
    return builtins.len(x)


def range_(*a):
    if any_sym(*a):
        if len(a) == 1:
            return mkrange(0, a[0])
        if len(a) == 2:
            return mkrange(a[0], a[1])
        if not is_sym(a[2]) and a[2] == 1:
            return mkrange(a[0], a[1])
        raise Unsupported("stepped symbolic range")
    r = builtins.range(*a)
    from .sym import _Eng
    if _Eng.cur is not None and _Eng.cur.sym_ranges and len(r) >= _Eng.cur.sym_ranges and r.step == 1:
        # any number of iterations is treated like an unknown one
        o = mkrange(SymInt(z3.IntVal(r.start)), SymInt(z3.IntVal(r.stop)))
        return o
    return r


def _symlist(x):
    if isinstance(x, DictView):
        x = x.as_list()
    if isinstance(x, HvDict) and x.is_sym():
        x = x.keys().as_list()
    if isinstance(x, HvList) and x.is_sym():
        return x
    if isinstance(x, SymArr):
        return x.aslist()
    return None


def enumerate_(x, start=0):
    s = _symlist(x)
    if s is None:
        return builtins.enumerate(x, start)
    v = s.symbolic()
    return HvList.sym(v._n, lambda j: (j + start, v.at(j)), v.rep)


def zip_(*xs, **k):
    ss = [_symlist(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs, **k)
    vs = []
    for x, s in zip(xs, ss):
        vs.append((s if s is not None else HvList(x)).symbolic())
    n = vs[0]._n
    for v in vs[1:]:
        if not eng().implied(v._n.z == n.z):
            n = ite(v._n < n, v._n, n)
    reps = [v.rep for v in vs if v.rep is not None and v._n is n]
    return HvList.sym(n, lambda j: tuple(v.at(j) for v in vs), reps[0] if reps else None)


def sum_(x, start=0):
    if hasattr(x, "_hv_sum"):
        return start + x._hv_sum()
    s = _symlist(x)
    if s is None:
        r = start
        for i in x:
            r = r + i
        return r
    r = start
    E = eng()
    for e in s._items if s._items is not None else [None]:
        if e is None:
            rep = s.rep or E.rep_for(s._n)
            E.rep_bounds(rep)
            v = s.at(rep.idx)
        elif isinstance(e, Fam):
            if len(e.reps) != 1 or e.reps[0].conditional:
                raise Unsupported("sum over a nested family")
            rep, v = e.reps[0], e.value
        else:
            r = r + e
            continue
        S = E.prefix_sum(rep, sym.to_real(v))
        r = r + SymReal(S(rep.n.z))
    return r


def _minmax(f, g):
    def h(*a, **k):
        if len(a) == 1:
            xs = a[0]
            if hasattr(xs, "_hv_minmax"):
                return xs._hv_minmax(f)
            s = _symlist(xs)
            if s is not None:
                return _sym_extreme(s, f)
            xs = builtins.list(xs)
        else:
            xs = builtins.list(a)
        if any_sym(*xs):
            return g(*xs)
        return f(xs, **k)

    return h


def _sym_extreme(s, f):
    """Extreme of an unbounded list: attained at some index, bounds the rest."""
    E = eng()
    v = s.symbolic()
    m = E.fresh("arg", "int")
    E.assume((m >= 0) & (m < v._n))
    val = mkreal(v.at(m))
    fx = lambda j: (val <= v.at(j)) if f is builtins.min else (val >= v.at(j))
    E.extremes.append((v, val, fx))
    E._inst(v._n, fx, E.witnesses)
    old = builtins.list(E.witnesses) if E.orders else []
    E.witness(m)
    for w in old:
        if E.implied(m.z == w.z):
            E.witnesses[:] = [x for x in E.witnesses if x is not m]
            return mkreal(v.at(w))
    return val


def all_(x):
    s = _symlist(x)
    if s is None:
        r = True
        for i in x:
            if isinstance(i, SymBool):
                r = i & r
            elif not i:
                return False
        return r
    raise Unsupported("all() of a symbolic list")


def any_(x):
    s = _symlist(x)
    if s is None:
        r = False
        for i in x:
            if isinstance(i, SymBool):
                r = i | r
            elif i:
                return True
        return r
    raise Unsupported("any() of a symbolic list")


def abs_(x):
    return builtins.abs(x)


def sorted_(x, **k):
    if _symlist(x) is not None:
        raise Unsupported("sorted() of a symbolic list")
    return HvList(builtins.sorted(x, **k))


def reversed_(x):
    s = _symlist(x)
    if s is not None:
        v = s.symbolic()
        return HvList.sym(v._n, lambda j: v.at(v._n - 1 - j))
    if isinstance(x, HvList):
        return builtins.reversed(x.raw())
    return builtins.reversed(x)


def map_(f, *xs):
    if len(xs) == 1:
        s = _symlist(xs[0])
        if s is not None:
            return HV.cur.map(f, s)
    return builtins.map(f, *xs)


def set_(x=()):
    if _symlist(x) is not None:
        raise Unsupported("set of a symbolic list")
    return builtins.set(x)


def tuple_(x=()):
    s = _symlist(x)
    if s is not None:
        return s.copy()
    return builtins.tuple(x)


def setattr_(o, a, v):
    attr_write(o, a)
    builtins.setattr(o, a, v)


def print_(*a, **k):
    return None


# --------------------------------------------------------------------- numpy
class SymArr:
    """1-d array of unbounded length (index term -> element)."""

    def __init__(self, n, get):
        self.n = n if isinstance(n, SymInt) else SymInt(z3.IntVal(n))
        self.get = get

    def aslist(self):
        return HvList.sym(self.n, self.get)

    def _hv_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def __len__(self):
        raise Unsupported("native len of a symbolic array")

    def __iter__(self):
        return iter(self.aslist())

    def __getitem__(self, k):
        r = self.aslist()[k]
        if isinstance(r, HvList):
            return SymArr(r._n, r._get)
        return r

    def _map(self, f):
        g = self.get
        return SymArr(self.n, lambda j: f(g(j)))

    def _bin(self, o, f):
        if isinstance(o, SymArr):
            g, h = self.get, o.get
            return SymArr(self.n, lambda j: f(g(j), h(j)))
        return self._map(lambda x: f(x, o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._map(lambda x: o - x)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._map(lambda x: o / x)

    def __pow__(self, o):
        return self._map(lambda x: x ** o)

    def __rpow__(self, o):
        return self._map(lambda x: o ** x)

    def __neg__(self):
        return self._map(lambda x: -x)

    __array_priority__ = 1000
    __array_ufunc__ = None

    def _cmp(self, o, f):
        return SymArr(self.n, lambda j: f(self.get(j), o))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: mkreal(a) == b)

    __hash__ = None

    def __contains__(self, x):
        # exists j. get(j) == x
        E = eng()
        m = E.fresh("mem", "int")
        if E.choose([True, False]):
            E.assume((m >= 0) & (m < self.n))
            E.assume(mkreal(self.get(m)) == x)
            E.members.append((self, x, m))
            E.witness(m)
            return True
        arr = self
        E.universal(self.n, lambda j: ~(mkreal(arr.get(j)) == x))
        return False

    def tolist(self):
        return self.aslist()

    def copy(self):
        return SymArr(self.n, self.get)


class Where:
    """np.where(cond)[0] of a symbolic truth array: [0] is its first index."""

    def __init__(self, cond):
        self.cond = cond

    def __getitem__(self, k):
        if k == 0:
            return WhereIdx(self.cond)
        raise Unsupported("np.where")


class WhereIdx:
    def __init__(self, cond):
        self.cond = cond

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("np.where index")
        E = eng()
        m = E.fresh("where", "int")
        cond = self.cond
        if not E.choose([True, False]):
            E.universal(cond.n, lambda j: ~cond.get(j))
            raise IndexError("index 0 is out of bounds for axis 0 with size 0")
        E.assume((m >= 0) & (m < cond.n))
        E.assume(cond.get(m))
        E.universal(m, lambda j: ~cond.get(j))
        for w in builtins.list(E.witnesses):
            if E.implied(m.z == w.z):
                return w
        return m


def _sym_in(v, d=0):
    if is_sym(v) or isinstance(v, (SymArr, Poison)):
        return True
    if isinstance(v, HvList):
        return v.is_sym() or any(_sym_in(x, d + 1) for x in v._items)
    if isinstance(v, HvDict):
        return v.is_sym() or any(_sym_in(x, d + 1) for x in v._d.values())
    if isinstance(v, (list, tuple)):
        return any(_sym_in(x, d + 1) for x in v)
    if isinstance(v, _np.ndarray):
        return v.dtype == object
    if isvec(v):
        return True
    return False


def _plain(v):
    """HvLists -> lists for native calls."""
    if isinstance(v, HvList):
        return [_plain(x) for x in v.raw()]
    if isinstance(v, HvDict):
        return {k: _plain(x) for k, x in v._d.items()}
    if isinstance(v, tuple):
        return tuple(_plain(x) for x in v)
    if isinstance(v, list):
        return [_plain(x) for x in v]
    if v is float_:
        return float
    if v is int_:
        return int
    if v is bool_:
        return bool
    return v


def _arr(x):
    """object array of a concrete-shaped nest."""
    x = _plain(x)
    if isinstance(x, _np.ndarray):
        return x
    a = _np.empty(_shape(x), dtype=object)
    for i in _np.ndindex(*a.shape):
        v = x
        for k in i:
            v = v[k]
        a[i] = v
    return a


def _shape(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_shape(x[0]) if len(x) else ())
    if isinstance(x, _np.ndarray):
        return x.shape
    return ()


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, SymArr):
        return x.copy()
    if isinstance(x, HvList) and x.is_sym():
        s = x.symbolic()
        return SymArr(s._n, s._get)
    if isinstance(x, (HvList, list, tuple)) and _sym_in(x):
        return _arr(x)
    if is_sym(x):
        return x
    if isinstance(x, _np.ndarray):
        return _np.array(x, *a, **k)
    x = _plain(x)
    return _np.array(x, dtype=_plain(dtype), *a, **k)


def _unary(name, f):
    orig = getattr(_np, name)

    def g(x, *a, **k):
        if is_sym(x):
            return f(x)
        if hasattr(x, "_hv_map"):
            return x._hv_map(g)
        if isinstance(x, SymArr):
            return x._map(g)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            o = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                o[i] = g(x[i])
            return o
        if isinstance(x, HvList) and _sym_in(x):
            return g(np_array(x))
        return orig(_plain(x), *a, **k)

    return g


def _trigc(name, f):
    """cos/sin of concrete multiples of pi stay exact when pi is symbolic."""
    return _unary(name, f)


def np_dot(a, b):
    if _sym_in(a) or _sym_in(b):
        a, b = _arr(a), _arr(b)
        if a.ndim == 1 and b.ndim == 1:
            r = 0
            for x, y in zip(a, b):
                r = r + x * y
            return r
        return _np.dot(a, b)
    return _np.dot(_plain(a), _plain(b))


def np_norm(v, *a, **k):
    if _sym_in(v):
        r = 0
        for x in _arr(v).flat:
            r = r + x * x
        return sym.m_sqrt(r)
    return _np.linalg.norm(_plain(v), *a, **k)


def np_linspace(a, b, n=50, *r, **k):
    if any_sym(a, b, n):
        if r or k:
            raise Unsupported("np.linspace options")
        n_ = n if isinstance(n, SymInt) else SymInt(z3.IntVal(n))
        E = eng()
        if builtins.bool(n_ == 1):
            return SymArr(n_, lambda j: mkreal(a))

        def get(j):
            # numpy evaluates start + j*step and stores `stop` at the end
            jj = j if isinstance(j, SymInt) else SymInt(z3.IntVal(j))
            return ite(jj == n_ - 1, mkreal(b), mkreal(a) + (b - a) * jj / SymReal(z3.ToReal((n_ - 1).z)))

        if not is_sym(n):
            return _arr([get(i) for i in builtins.range(n)])
        return SymArr(n_, get)
    return _np.linspace(a, b, n, *r, **k)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not (_sym_in(x) or _sym_in(xp) or _sym_in(fp)):
        return _np.interp(_plain(x), _plain(xp), _plain(fp), left, right, period)
    if period is not None:
        raise Unsupported("np.interp period")
    X = xp if isinstance(xp, SymArr) else np_array(xp)
    F = fp if isinstance(fp, SymArr) else np_array(fp)
    if not isinstance(X, SymArr):
        X = SymArr(len(X), lambda j, L=HvList(list(X)): L.symbolic().at(j))
    if not isinstance(F, SymArr):
        F = SymArr(len(F), lambda j, L=HvList(list(F)): L.symbolic().at(j))
    E = eng()
    n = X.n
    x = mkreal(x)
    i = E.fresh("i", "int")
    for a in (X.get(i), X.get(i + 1)):
        E.reinstantiate(to_real(a))
    E.interp_idx.append(None)
    E.check("np.interp is given sample positions that do not decrease",
            mkb(z3.Implies(z3.And(i.z >= 0, i.z + 1 < to_int(n)), to_real(X.get(i)) <= to_real(X.get(i + 1)))))
    if builtins.bool(x < X.get(0)):
        return mkreal(F.get(0) if left is None else left)
    if builtins.bool(x > X.get(n - 1)):
        return mkreal(F.get(n - 1) if right is None else right)
    if builtins.bool(x == X.get(n - 1)):
        # numpy: the last sample takes fp[-1] exactly
        return mkreal(F.get(n - 1))
    m = E.fresh("seg", "int")
    E.assume((m >= 0) & (m < n - 1))
    x0, x1 = mkreal(X.get(m)), mkreal(X.get(m + 1))
    E.assume((x0 <= x) & (x < x1))
    E.interp_idx[-1] = m
    f0, f1 = F.get(m), F.get(m + 1)
    df = SymReal(E.normal(to_real(f1) - to_real(f0)))
    return SymReal(E.normal(to_real(f0))) + (x - x0) * df / (x1 - x0)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if any_sym(a, b, rtol, atol):
        return sym.m_abs(mkreal(a) - b) <= mkreal(atol) + rtol * sym.m_abs(mkreal(b))
    return _np.isclose(a, b, rtol=rtol, atol=atol, **k)


def np_all(x, *a, **k):
    if is_sym(x):
        return x
    if _sym_in(x):
        return all_(list(_arr(x).flat))
    return _np.all(_plain(x), *a, **k)


def np_any(x, *a, **k):
    if is_sym(x):
        return x
    if _sym_in(x):
        return any_(list(_arr(x).flat))
    return _np.any(_plain(x), *a, **k)


def np_logical(name, f):
    def g(a, b):
        if any_sym(a, b):
            return f(a, b)
        return getattr(_np, name)(a, b)

    return g


def _b(x):
    return x if isinstance(x, SymBool) else SymBool(sym.to_bool(x))


def np_arctan2(y, x):
    if any_sym(y, x):
        return sym.m_atan2(y, x)
    return _np.arctan2(y, x)


def np_power(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return a ** b if isinstance(a, SymArr) else b.__rpow__(a)
    if any_sym(a, b):
        return sym.m_pow(a, b)
    return _np.power(a, b)


def np_where(c, *a):
    if isinstance(c, SymArr) and not a:
        return Where(c)
    if is_sym(c):
        return ite(c, *a)
    if _sym_in(c) or any(_sym_in(x) for x in a):
        raise Unsupported("np.where")
    return _np.where(_plain(c), *[_plain(x) for x in a])


def np_cross(a, b, *r, **k):
    if _sym_in(a) or _sym_in(b):
        a, b = _arr(a), _arr(b)
        return _arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return _np.cross(_plain(a), _plain(b), *r, **k)


class CatArr:
    """np.concatenate of per-element arrays (kept as the list of parts)."""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"CatArr({self.parts})"


def np_concatenate(xs, *a, **k):
    if isinstance(xs, DictView):
        xs = xs.as_list()
    L = xs if isinstance(xs, HvList) else HvList(xs)
    if L.is_sym() or any(isinstance(i, Ghost) for i in L._items):
        return CatArr(L)
    if _sym_in(L):
        raise Unsupported("np.concatenate of symbolic arrays")
    return _np.concatenate([_plain(x) for x in L._items], *a, **k)


class Ghost:
    """Marker base class of verifier-side abstract objects."""


def np_zeros(shape, dtype=float, *a, **k):
    if dtype is not STL_DTYPE and isinstance(shape, tuple) and len(shape) == 2 and is_sym(shape[0]) and not is_sym(shape[1]):
        return frames.zeros(shape)
    if any_sym(*(shape if isinstance(shape, tuple) else (shape,))) or dtype is STL_DTYPE:
        return ZeroArr(shape, dtype)
    return _np.zeros(_plain(shape), _plain(dtype), *a, **k)


class ZeroArr:
    def __init__(self, shape, dtype):
        self.shape = shape
        self.dtype = dtype


STL_DTYPE = object()


class NP(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__.update(
            array=np_array, asarray=np_array,
            sqrt=_unary("sqrt", sym.m_sqrt), sin=_unary("sin", sym.m_sin),
            cos=_unary("cos", sym.m_cos), tan=_unary("tan", sym.m_tan),
            deg2rad=_unary("deg2rad", sym.m_deg2rad), radians=_unary("radians", sym.m_deg2rad),
            rad2deg=_unary("rad2deg", sym.m_rad2deg), degrees=_unary("degrees", sym.m_rad2deg),
            abs=_unary("abs", sym.m_abs), absolute=_unary("absolute", sym.m_abs),
            fabs=_unary("fabs", sym.m_abs), square=_unary("square", lambda x: x * x),
            floor=_unary("floor", lambda x: SymReal(sym.to_real(sym.m_floor(x)))),
            arctan=_unary("arctan", sym.m_atan), arctan2=np_arctan2, power=np_power,
            dot=np_dot, linspace=np_linspace, interp=np_interp, isclose=np_isclose,
            all=np_all, any=np_any, where=np_where, cross=np_cross,
            logical_and=np_logical("logical_and", lambda a, b: _b(a) & _b(b)),
            logical_or=np_logical("logical_or", lambda a, b: _b(a) | _b(b)),
            logical_not=lambda a: (~a if is_sym(a) else _np.logical_not(a)),
            maximum=lambda a, b: sym.m_max(a, b) if any_sym(a, b) else _np.maximum(a, b),
            minimum=lambda a, b: sym.m_min(a, b) if any_sym(a, b) else _np.minimum(a, b),
            concatenate=np_concatenate, zeros=np_zeros,
            outer=lambda a, b: _np.outer(_arr(a), _arr(b)) if _sym_in(a) or _sym_in(b) else _np.outer(_plain(a), _plain(b)),
            eye=_np.eye, ndarray=_np.ndarray, floating=_NpFloating, integer=_np.integer,
            nan=_np.nan, inf=_np.inf, NaN=_np.nan, float64=_np.float64, float32=_np.float32,
            round=lambda x, n=0: sym.m_round(x, n) if is_sym(x) else _np.round(x, n),
            sum=lambda x, *a, **k: sum_(x) if _sym_in(x) or hasattr(x, "_hv_sum") else _np.sum(_plain(x), *a, **k),
        )
        self.linalg = types.SimpleNamespace(norm=np_norm, inv=_guard(_np.linalg.inv, "np.linalg.inv"))
        self.random = _np.random

    @property
    def pi(self):
        return sym.pi_val()

    def __getattr__(self, name):
        v = getattr(_np, name)
        if callable(v) and not isinstance(v, type):
            return _guard(v, "np." + name)
        return v


class _NpFloatingMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, (_np.floating, SymReal))


class _NpFloating(metaclass=_NpFloatingMeta):
    pass


def _guard(f, name):
    def g(*a, **k):
        if any(_sym_in(x) for x in a) or any(_sym_in(x) for x in k.values()):
            raise Unsupported(f"{name} on symbolic values")
        return f(*[_plain(x) for x in a], **{q: _plain(x) for q, x in k.items()})

    g.__name__ = name
    return g


class Opaque(types.ModuleType):
    """A third-party module whose functions have no contract here."""

    def __init__(self, name, **known):
        super().__init__(name)
        self.__dict__.update(known)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        nm = f"{self.__name__}.{a}"

        class _Op:
            def __new__(cls, *x, **k):
                raise Unsupported(f"{nm} has no contract")

        _Op.__name__ = a
        return _Op


def scipy_bisect(f, a, b, *r, **k):
    """scipy.optimize.bisect: a root of f between a and b (assumed contract)."""
    E = eng()
    E.assumed.add("scipy.optimize.bisect returns a root of f in [a, b]")
    fa, fb = f(a), f(b)
    if any_sym(fa, fb) or True:
        p = mkreal(fa) * fb
        if builtins.bool(p > 0):
            raise ValueError("f(a) and f(b) must have different signs")
    t = E.fresh("root")
    E.assume((t >= a) & (t <= b))
    E.searching = True
    ft = mkreal(f(t))
    E.searching = False
    for h in E.root_hints:
        # the value is a root and no other value is
        root = (mkreal(f(h)) == 0) & (h >= a) & (h <= b)

        def both():
            n = len(E.results)
            E.check("hinted value is a root", root, assume_after=False)
            E.check("the root is unique", _implies(ft == 0, t == h), assume_after=False)
            ok = all(o.status == "proved" for o in E.results[n:])
            if not ok:
                del E.results[n:]
            return ok

        if E.answer("root", both):
            return h
    E.assume(ft == 0)
    return t


def _implies(a, b):
    return SymBool(z3.Implies(sym.to_bool(a), sym.to_bool(b)))


class _Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, xs, *a, **k):
        eng().assumed.add("multiprocess.Pool.map/starmap = ordered map")
        return HV.cur.map(f, xs)

    def starmap(self, f, xs, *a, **k):
        eng().assumed.add("multiprocess.Pool.map/starmap = ordered map")
        return HV.cur.map(lambda t: f(*t), xs)

    def imap(self, f, xs, *a, **k):
        return HV.cur.map(f, xs)

    def close(self):
        pass

    def join(self):
        pass


# -------------------------------------------------------------------- pandas
class Table(Ghost):
    """pandas.DataFrame built from columns: column -> {row label: value}."""

    def __init__(self, data=None, index=None, **k):
        if k or not isinstance(data, (builtins.dict, HvDict)):
            raise Unsupported("pandas.DataFrame arguments")
        self.cols = HvDict()
        for c, v in data.items():
            if isinstance(v, HvDict) and index is None:
                self.cols[c] = HvDict(v)
            elif index is not None and (is_num(v) or is_sym(v)):
                self.cols[c] = HvDict({k: v for k in index})
            else:
                raise Unsupported("pandas.DataFrame column")

    def column(self, c):
        return self.cols[c]

    def _op(self, f, o=None):
        out = Table({})
        for c, rows in self.cols._d.items():
            if o is not None and set(o.cols[c]._d) != set(rows._d):
                raise Unsupported("tables with different rows")
            new = out.cols.setdefault(c, HvDict())
            for q, v in rows._d.items():
                new._d[q] = f(v, o.cols[c]._d[q]) if o is not None else f(v)
            new._reps.update(rows._reps)
        return out

    def __sub__(self, o):
        if not isinstance(o, Table) or set(o.cols._d) != set(self.cols._d):
            raise Unsupported("table arithmetic")
        return self._op(lambda a, b: a - b, o)

    def __truediv__(self, o):
        if not (is_num(o) or is_sym(o)):
            raise Unsupported("table arithmetic")
        return self._op(lambda a: a / o)

    @staticmethod
    def concat(tables, **k):
        if k or not all(isinstance(t, Table) for t in tables):
            raise Unsupported("pandas.concat arguments")
        out = Table({})
        for t in tables:
            for c, rows in t.cols._d.items():
                old = out.cols.setdefault(c, HvDict())
                for q, v in rows._d.items():
                    if q in old:
                        raise Unsupported("pandas.concat of tables sharing rows")
                    old[q] = v
                old._reps.update(rows._reps)
        return out


def pd_frame(data=None, index=None, columns=None, **k):
    if isinstance(data, frames.Grid):
        if index is not None or columns is None or k:
            raise Unsupported("pandas.DataFrame arguments")
        return frames.Frame.of(data, columns)
    if columns is not None:
        raise Unsupported("pandas.DataFrame arguments")
    return Table(data, index, **k)


def pd_concat(tables, **k):
    ts = builtins.list(tables)
    if ts and isinstance(ts[0], frames.Frame):
        return frames.concat(ts, **k)
    return Table.concat(ts, **k)


# ------------------------------------------------------------- hv interface
class While:
    """Iterations of a `while` loop that was not recognised as counting."""

    def __init__(self):
        self.n, self.seen = 0, None

    def tick(self):
        from .sym import _Eng
        E = _Eng.cur
        if E is None:
            return
        E.tick()
        if E.unforced != self.seen:
            self.n, self.seen = self.n + 1, E.unforced
            if self.n > 6:
                raise Unsupported("while loop without a known number of iterations")


class HV:
    cur = None

    def __init__(self, modules=None):
        HV.cur = self
        self.np = NP()
        self.compstack = []
        self.modules = {
            "numpy": self.np,
            "pandas": Opaque("pandas", DataFrame=pd_frame, concat=pd_concat),
            "tqdm": Opaque("tqdm", tqdm=lambda x, **k: x),
            "art": Opaque("art", tprint=lambda *a, **k: None, art=lambda *a, **k: ""),
            "pymeshfix": Opaque("pymeshfix"),
            "scipy": Opaque("scipy"),
            "scipy.optimize": Opaque("scipy.optimize", bisect=scipy_bisect),
            "multiprocess": Opaque("multiprocess"),
            "multiprocess.pool": Opaque("multiprocess.pool", Pool=_Pool),
        }
        self.modules["scipy"].optimize = self.modules["scipy.optimize"]
        self.modules["multiprocess"].pool = self.modules["multiprocess.pool"]
        st = stl_module()
        self.modules["stl"] = st
        self.modules["stl.mesh"] = st.mesh
        self.modules.update(modules or {})
        b = dict(builtins.__dict__)
        b.update(
            float=float_, int=int_, bool=bool_, list=list_, dict=dict_, len=len_,
            range=range_, enumerate=enumerate_, zip=zip_, sum=sum_,
            min=_minmax(builtins.min, sym.m_min), max=_minmax(builtins.max, sym.m_max),
            all=all_, any=any_, sorted=sorted_, reversed=reversed_, map=map_,
            set=set_, tuple=_TupleShim, setattr=setattr_, print=print_,
            __import__=self._import,
        )
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in self.modules:
            if fromlist:
                return self.modules[name]
            top = name.split(".")[0]
            return self.modules.get(top, self.modules[name])
        return builtins.__import__(name, globals, locals, fromlist, level)

    # -- called from instrumented code
    def L(self, x):
        return HvList(x)

    def D(self, x):
        return HvDict(x)

    def loop(self, it, where, line):
        if isinstance(it, SymArr):
            it = it.aslist()
        return Loop(it, where, line)

    def kw(self, d):
        if isinstance(d, HvDict):
            return {builtins.str(k) if isinstance(k, RepStr) else k: v for k, v in d._d.items()}
        return d

    def fs(self, s):
        return RepStr(s) if has_token(s) else s

    def wloop(self):
        return While()

    def wrange(self, lo, hi):
        for x in (lo, hi):
            if not isinstance(x, (builtins.int, SymInt)):
                raise Unsupported("while loop over other than integers")
        return range_(lo, hi)

    def wsame(self, was, now):
        if was is now:
            return
        if is_sym(was) or is_sym(now):
            if not eng().implied(to_int(was) == to_int(now)):
                raise Unsupported("bound of a while loop changes")
        elif was != now:
            raise Unsupported("bound of a while loop changes")

    def wend(self, lo, hi):
        return choose_val(hi > lo, hi, lo) if any_sym(lo, hi) else builtins.max(lo, hi)

    def w(self, obj, attr):
        if attr is None:
            if isinstance(obj, (HvList, HvDict)):
                return
        attr_write(obj, attr)

    def ci(self, it):
        if isinstance(it, SymArr):
            it = it.aslist()
        if isinstance(it, DictView) or (isinstance(it, (HvList, HvDict)) and it.is_sym()):
            if isinstance(it, DictView):
                it = it.as_list()
            if isinstance(it, HvDict):
                it = it.keys().as_list()
            return self._ci(it)
        return it

    def _ci(self, it):
        top = self.compstack[-1]
        out = top["out"]
        if it._items is None:
            L = Loop(it, "comprehension", 0)
            E = eng()
            before = E.unforced
            for x in L:
                top["reps"].append(L.rep)
                yield x
                top["count"] += 1
                top["reps"].pop()
                top["fams"].append(L.rep)
        else:
            for e in it._items:
                L = Loop(HvList([e]), "comprehension", 0)
                for x in L:
                    if L.rep is not None:
                        top["fams"].append(L.rep)
                    else:
                        top["fams"].append(None)
                    yield x
                    top["count"] += 1

    def _comp(self, f):
        top = {"out": [], "reps": [], "fams": [], "count": 0}
        self.compstack.append(top)
        try:
            r = f()
        finally:
            self.compstack.pop()
        return r, top

    def lc(self, f):
        r, top = self._comp(f)
        if not top["fams"]:
            return HvList(r)
        if len(top["fams"]) != len(r):
            if len(r) == 0:
                return HvList(r)
            raise Unsupported("filtered or nested comprehension over a symbolic collection")
        return HvList([Fam([q], v) if q is not None else v for q, v in zip(top["fams"], r)])

    def dc(self, f):
        r, top = self._comp(f)
        return HvDict(r)

    def map(self, f, xs):
        s = _symlist(xs)
        if s is None:
            if isinstance(xs, HvList):
                xs = xs.raw()
            return HvList([f(x) for x in xs])
        out = HvList()
        for x in Loop(s, "map", 0):
            out.append(f(x))
        return out


class _TupleMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, builtins.tuple)

    def __call__(cls, x=()):
        return tuple_(x)

    def __getitem__(cls, k):
        return builtins.tuple[k]


class _TupleShim(metaclass=_TupleMeta):
    pass


# ----------------------------------------------------------------- numpy-stl
class TriWrites:
    """`mesh.vectors`: record of vertex stores, one-per-element of the loops."""

    def __init__(self, mesh):
        self.mesh = mesh
        self.serial = 0

    def __getitem__(self, t):
        return TriRow(self.mesh, t)

    def __setitem__(self, t, v):
        a = _arr(v)
        for q in builtins.range(3):
            TriRow(self.mesh, t)[q] = a[q]

    def __len__(self):
        raise Unsupported("native len of mesh.vectors")

    def _hv_len(self):
        return self.mesh.n


class TriRow:
    def __init__(self, mesh, t):
        self.mesh, self.t = mesh, t

    def __setitem__(self, q, v):
        E = eng()
        loops = [L for L in E.loops if L.body and not L.closed and L.serial > self.mesh.serial]
        self.mesh.writes.append((tuple(L.rep for L in loops), self.t, q, _arr(v)))

    def __getitem__(self, q):
        raise Unsupported("mesh.vectors read")


class SymMesh(Ghost):
    """numpy-stl Mesh."""

    dtype = STL_DTYPE

    def __init__(self, data=None, *a, **k):
        from .coll import _serial

        self.serial = next(_serial)
        self.source = data
        self.writes = []
        self.n = data.shape if isinstance(data, ZeroArr) else None
        self.data = MeshData(self)
        self.saved = []

    @property
    def vectors(self):
        if self.n is None:
            raise Unsupported("mesh.vectors of an assembled mesh")
        return TriWrites(self)

    def save(self, fn, *a, **k):
        eng().event(("save", self, str(fn), tuple(sorted(k.items()))))

    @classmethod
    def from_file(cls, fn, *a, **k):
        m = cls.__new__(cls)
        SymMesh.__init__(m, None)
        m.file = fn
        eng().event(("load", str(fn)))
        return m

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"mesh attribute {a}")


class MeshData(Ghost):
    def __init__(self, mesh):
        self.mesh = mesh

    def __repr__(self):
        return f"MeshData({id(self.mesh)})"


def stl_module():
    m = Opaque("stl")
    m.mesh = types.SimpleNamespace(Mesh=SymMesh)
    m.Mesh = SymMesh
    return m

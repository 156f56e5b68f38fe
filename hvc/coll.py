"""Collections and loops of unbounded size.

A `Rep` is an arbitrary element (index `idx` in 0..n-1) of a collection whose
size is not bounded.  A loop over such a collection runs its body for that
arbitrary element; what the body does to loop-carried state is summarised by
the rules in `Loop`.
"""
import builtins
import itertools
import re
import sys
import types

import numpy as np
import z3

from .core import PathEnd
from .sym import (SymBool, SymInt, SymReal, Unsupported, eng, is_num, is_sym, ite,
                  numeral, to_int, to_real)

_serial = itertools.count(1)


class Poison:
    """A value the verifier does not know; any use is outside its reach."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _die(self, *a, **k):
        raise Unsupported("value not tracked: " + object.__getattribute__(self, "_why"))

    __getattr__ = __setattr__ = __call__ = __iter__ = __len__ = __getitem__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _die
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __str__ = _die
    __contains__ = __iadd__ = __and__ = __or__ = __neg__ = __abs__ = _die

    def __eq__(self, o):
        self._die()

    __hash__ = None


class Own:
    """Entries of a family: base, but new for the current element of rep."""

    def __init__(self, base, rep, new):
        self.base, self.rep, self.new = base, rep, new


class Rep:
    """Arbitrary element of an unbounded collection."""

    def __init__(self, name, n, idx=None):
        self.name = name
        self.tok = f"⟪{name}⟫"
        self.named = False
        self.n = n
        self.idx = idx if idx is not None else SymInt(z3.Int(f"idx!{name}"))
        self.conditional = False
        self.heads = []   # (loop-carried symbol, its value in terms of idx or None)

    def __repr__(self):
        return f"Rep({self.name})"


def reidx(v, rep, j):
    """The value an expression of the arbitrary element takes at index j."""
    jz = z3.simplify(j.z if isinstance(j, SymInt) else z3.IntVal(j))
    if jz.eq(rep.idx.z):
        return v
    if rep.conditional and not eng().implied(jz == rep.idx.z):
        raise Unsupported("element of a conditional family")
    zs = []
    hit = collect(v, zs)
    for h, d in rep.heads:
        if any(mentions(z, h) for z in zs):
            if d is None:
                if eng().implied(jz == rep.idx.z):
                    return v
                raise Unsupported("element depends on untracked loop-carried state")
            v = subst(v, [(h, d)])
    E = eng()
    zs = []
    collect(v, zs)
    for z in zs:
        w = E.fold_sum(z, rep)
        if w is not None:
            v = subst(v, [(z, w)])
    o = subst(v, [(rep.idx.z, jz)])
    for _ in range(3):
        zs = []
        collect(o, zs)
        pairs = E.renormal(zs)
        if not pairs:
            break
        o = subst(o, pairs)
    zs = []
    collect(o, zs)
    for z in zs:
        eng().reinstantiate(z)
    return o


def continues(x, fam):
    """[x, f(0), f(1), ...] with x == f(-1)."""
    if not is_num(x) and not isinstance(x, (SymReal, SymInt)):
        return False
    E = eng()
    key = ("cont", id(fam))
    if key not in E.cache:
        try:
            v = reidx(fam.value, fam.reps[0], SymInt(z3.IntVal(-1)))
        except Unsupported:
            v = None
        ok = False
        if isinstance(v, (SymReal, SymInt)) or is_num(v):
            z = z3.simplify(coerce(to_z(v), z3.RealVal(0)))
            z = z3.substitute(z, *[(S(z3.IntVal(0)), z3.RealVal(0)) for _, _, S in E.sums]) if E.sums else z
            d = z3.simplify(z - coerce(to_z(x), z3.RealVal(0)), som=True)
            ok = numeral(d) == 0
        E.cache[key] = (ok, fam)
    return E.cache[key][0]


def collect(v, out):
    """All terms inside a structured value."""
    if isinstance(v, (SymReal, SymInt, SymBool)):
        out.append(v.z)
    elif isinstance(v, (tuple, list)):
        for x in v:
            collect(x, out)
    elif isinstance(v, np.ndarray) and v.dtype == object:
        for x in v.flat:
            collect(x, out)
    elif isvec(v):
        for x in comps(v):
            collect(x, out)
    elif isinstance(v, HvList):
        for x in v._items or ():
            collect(x.value if isinstance(x, Fam) else x, out)
    elif hasattr(v, "_hv_parts") and not isinstance(v, type):
        for x in v._hv_parts():
            collect(x, out)
    elif isinstance(v, types.FunctionType):
        if id(v) not in _visiting:
            _visiting[id(v)] = None
            try:
                for x in captured(v):
                    collect(x, out)
            finally:
                del _visiting[id(v)]
    elif type(v).__module__.startswith("hypervehicle") and not isinstance(v, type):
        for x in attrs_of(v).values():
            collect(x, out)
    elif hasattr(v, "__dict__") and not isinstance(v, type):
        for x in vars(v).values():
            if isinstance(x, (SymReal, SymInt, SymBool, tuple)) or isvec(x):
                collect(x, out)


def mentions(z, const):
    seen = set()
    st = [z]
    cid = const.get_id()
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        st.extend(t.children())
    return False


def _subst_key(v, pairs):
    """Key of the arbitrary element -> key of the element at another index."""
    if "⟪" not in v:
        return v
    E = eng()
    for r in E.reps_in(v):
        for a, b in pairs:
            if r.idx.z.eq(a):
                v = RepStr(v.replace(r.tok, E.key_at(r, b)))
    return v


_visiting = {}


def captured(f):
    """Values a function took along when it was defined."""
    out = []
    for cell in f.__closure__ or ():
        try:
            out.append(cell.cell_contents)
        except ValueError:
            pass
    out += f.__defaults__ or ()
    out += (f.__kwdefaults__ or {}).values()
    return [x for x in out if not isinstance(x, (type, types.ModuleType)) and not hasattr(x, "_hv_context")]


def _subst_fn(f, pairs):
    if id(f) in _visiting:
        return _visiting[id(f)] or f
    zs = []
    collect(f, zs)
    if not any(mentions(z, p[0]) for z in zs for p in pairs):
        return f
    one = lambda x: x if isinstance(x, (type, types.ModuleType)) or hasattr(x, "_hv_context") else subst(x, pairs)
    cells = tuple(types.CellType() for _ in f.__closure__ or ())
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, None, cells or None)
    g.__dict__.update(f.__dict__)
    _visiting[id(f)] = g
    try:
        for new, old in zip(cells, f.__closure__ or ()):
            try:
                x = old.cell_contents
            except ValueError:
                continue
            new.cell_contents = one(x)
        g.__defaults__ = tuple(one(x) for x in f.__defaults__) if f.__defaults__ else None
        g.__kwdefaults__ = {k: one(x) for k, x in f.__kwdefaults__.items()} if f.__kwdefaults__ else None
    finally:
        del _visiting[id(f)]
    return g


def subst(v, pairs):
    """Replace z3 constants inside a (structured) value."""
    if isinstance(v, SymReal):
        return SymReal(z3.substitute(v.z, *pairs))
    if isinstance(v, SymInt):
        return SymInt(z3.substitute(v.z, *pairs))
    if isinstance(v, SymBool):
        return SymBool(z3.substitute(v.z, *pairs))
    if isinstance(v, str):
        return _subst_key(v, pairs)
    if v is None or is_num(v) or isinstance(v, bytes):
        return v
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return type(v)(subst(x, pairs) for x in v)
    if hasattr(v, "_hv_subst"):
        return v._hv_subst(pairs)
    if isvec(v):
        return mkvec(v, [subst(c, pairs) for c in comps(v)])
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = subst(v[i], pairs)
        return out
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, HvList) and v._items is not None and not v.has_fam():
        return HvList([subst(x, pairs) for x in v._items])
    if isinstance(v, HvDict):
        if v.is_sym() and any(r.idx.z.eq(a) for k in v._d if famkey(k) for r in v.reps_of(k) for a, _ in pairs):
            raise Unsupported("cannot re-index a dict of this family")
        o = HvDict({k: subst(x, pairs) for k, x in v._d.items()})
        o._reps, o._single = dict(v._reps), set(v._single)
        return o
    if type(v).__module__.startswith("hypervehicle") and not isinstance(v, type):
        o = object.__new__(type(v))
        for k, x in attrs_of(v).items():
            object.__setattr__(o, k, subst(x, pairs))
        return o
    if isinstance(v, types.FunctionType):
        return _subst_fn(v, pairs)
    if isinstance(v, types.MethodType):
        o = subst(v.__self__, pairs)
        return v if o is v.__self__ else types.MethodType(v.__func__, o)
    if isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType, builtins.bool)):
        return v
    if isinstance(v, dict) and type(v) is dict:
        return {k: subst(x, pairs) for k, x in v.items()}
    raise Unsupported(f"cannot re-index a {type(v).__name__}")


def attrs_of(v):
    out = {}
    for c in type(v).__mro__:
        sl = c.__dict__.get("__slots__", ())
        for a in ([sl] if isinstance(sl, str) else sl):
            if a not in ("__dict__", "__weakref__") and hasattr(v, a):
                out[a] = getattr(v, a)
    out.update(getattr(v, "__dict__", {}))
    return out


def isvec(v):
    return type(v).__name__ == "Vector3"


def comps(v):
    return [v.x, v.y, v.z]


def mkvec(like, cs):
    cls = type(like)
    o = cls.__new__(cls)
    cls.__init__(o, *[c if is_sym(c) else c for c in cs])
    return o


def same(a, b):
    """Equality of two values as SymBool/bool (None = incomparable)."""
    if isinstance(a, (Poison,)) or isinstance(b, Poison):
        return None
    if is_num(a) and is_num(b):
        return a == b
    if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return None
        return a == b
    if isvec(a) and isvec(b):
        r = SymBool(z3.BoolVal(True))
        for x, y in zip(comps(a), comps(b)):
            e = same(x, y)
            if e is None:
                return None
            r = r & e
        return r
    if isinstance(a, HvList) and isinstance(b, HvList):
        n = same(a.size(), b.size())
        if b.anything:
            # the invariant only claims the size and kind of elements
            if not (is_sym(n) or n is True):
                return None
            return n if is_sym(n) else SymBool(z3.BoolVal(True))
        j = eng().fresh("j", "int")
        g = SymBool(z3.BoolVal(True))
        av = a.symbolic().at(j)
        bv = b.symbolic().at(j)
        e = same(av, bv)
        if e is None:
            return None
        inr = (j >= 0) & (j < b.size())
        return SymBool(z3.And(_zb(n), z3.Implies(_zb(inr), _zb(e))))
    return None


def _zb(x):
    return x.z if isinstance(x, SymBool) else z3.BoolVal(builtins.bool(x))


class Fam:
    """One value per element of the loops' collections."""

    __slots__ = ("reps", "value")

    def __init__(self, reps, value):
        self.reps = tuple(reps)
        self.value = value

    def __repr__(self):
        return f"Fam({[r.name for r in self.reps]}, {self.value})"


class HvList:
    """List with concrete, family or fully symbolic contents."""

    anything = False

    def __init__(self, items=()):
        self.serial = next(_serial)
        self._n = None
        self._get = None
        self.rep = None
        self._items = list(items.raw() if isinstance(items, HvList) and items._items is not None else items)

    @classmethod
    def sym(cls, n, get, rep=None, name="seq"):
        o = cls()
        o._items = None
        o._n = n
        o._get = get
        o.rep = rep
        return o

    # -- views
    def raw(self):
        if self._items is None:
            raise Unsupported("symbolic list used natively")
        return self._items

    def has_fam(self):
        return self._items is not None and any(isinstance(i, Fam) for i in self._items)

    def is_sym(self):
        return self._items is None or self.has_fam()

    def size(self):
        if self._items is None:
            return self._n
        n = 0
        for i in self._items:
            if isinstance(i, Fam):
                if len(i.reps) != 1:
                    raise Unsupported("size of a nested family")
                n = n + i.reps[0].n
            else:
                n = n + 1
        return n

    def symbolic(self):
        """View with get(index term)."""
        if self._items is None:
            return self
        items = list(self._items)
        if not items:
            return HvList.sym(SymInt(z3.IntVal(0)), lambda j: Poison("empty list"))

        def get(j):
            off = SymInt(z3.IntVal(0))
            out = []
            for it in items:
                if isinstance(it, Fam):
                    if len(it.reps) != 1:
                        raise Unsupported("index into a nested family")
                    r = it.reps[0]
                    v = reidx(it.value, r, j - off)
                    out.append((off, off + r.n, v))
                    off = off + r.n
                else:
                    out.append((off, off + 1, it))
                    off = off + 1
            v = out[-1][2]
            if len(items) == 2 and isinstance(items[1], Fam) and continues(items[0], items[1]):
                return v
            for lo, hi, x in reversed(out[:-1]):
                v = choose_val(j < hi, x, v)
            return v

        n = self.size()
        n = n if isinstance(n, SymInt) else SymInt(z3.IntVal(n))
        rep = None
        if len(items) == 1 and isinstance(items[0], Fam) and attrs_of(items[0].value) is not None:
            rep = items[0].reps[0]      # objects keep their identity
        return HvList.sym(n, get, rep)

    def at(self, j):
        return self._get(j if isinstance(j, SymInt) else SymInt(z3.IntVal(j)))

    # -- protocol
    def __len__(self):
        if self.is_sym():
            raise Unsupported("native len of a symbolic list")
        return len(self._items)

    def __iter__(self):
        if self.is_sym():
            return iter(Loop(self, "native", 0))
        return iter(self._items)

    def __bool__(self):
        if self._items is None:
            return builtins.bool(self._n > 0)
        return bool(self._items)

    def __contains__(self, x):
        if isinstance(x, RepStr) and not self.is_sym() and x not in self._items:
            return any(isinstance(i, str) and x.matches(i) for i in self._items)
        if self.is_sym():
            for i in self._items or ():
                if i is x or (isinstance(i, Fam) and i.value is x):
                    return True
            if self._items is not None and isinstance(x, str):
                return any(
                    (i.value if isinstance(i, Fam) else i) == x for i in self._items)
            raise Unsupported("membership in a symbolic list")
        for i in self._items:
            if i is x or i == x:
                return True
        return False

    def __getitem__(self, k):
        if isinstance(k, slice):
            if not self.is_sym() and not any(is_sym(x) for x in (k.start, k.stop)):
                return HvList(self._items[k])
            if k.step is not None:
                raise Unsupported("stepped slice of a symbolic list")
            s = self.symbolic()
            n = s._n
            lo = 0 if k.start is None else k.start
            hi = n if k.stop is None else k.stop
            if not is_sym(lo) and lo < 0:
                lo = n + lo
            if not is_sym(hi) and hi < 0:
                hi = n + hi
            ln = hi - lo
            ln = ln if isinstance(ln, SymInt) else SymInt(z3.IntVal(ln))
            return HvList.sym(ln, lambda j, s=s, lo=lo: s.at(j + lo))
        if isinstance(k, SymInt) or self.is_sym():
            s = self.symbolic()
            if not is_sym(k):
                # indices at a concrete end of a mixed list
                if self._items is not None:
                    its = self._items if k >= 0 else self._items[::-1]
                    kk = k if k >= 0 else -k - 1
                    if kk < len(its) and not any(isinstance(i, Fam) for i in its[: kk + 1]):
                        return its[kk]
                k = SymInt(z3.IntVal(k)) if k >= 0 else s._n + k
            if eng().branch(_zb((k < 0) | (k >= s._n))):
                if eng().branch(_zb((k < -s._n) | (k >= s._n))):
                    raise IndexError("list index out of range")
                k = k + s._n
            own = self._own(k)
            if own is not None:
                return own
            return s.at(k)
        return self._items[k]

    def _own(self, k):
        """Value under a pending own-index write of an active loop."""
        for L in reversed(eng().loops):
            w = L.own_writes.get(id(self))
            if w is not None:
                if eng().implied(_zb(k == w[0])):
                    return w[1]
                raise Unsupported("read of another index of a list under update")
            if L.touches(self):
                v = L.own_read(self, k)
                if v is not None:
                    return v
        return None

    def __setitem__(self, k, v):
        loops = note_write(self, k)
        if isinstance(k, SymInt) or self.is_sym():
            if not isinstance(k, SymInt):
                n = self.size()
                k = SymInt(z3.IntVal(k)) if k >= 0 else n + k
            s = self.symbolic()
            if eng().branch(_zb((k < 0) | (k >= s._n))):
                raise IndexError("list assignment index out of range")
            if loops:
                L = loops[-1]
                for M in loops:
                    if id(self) in M.read_own and not eng().implied(k.z == M.own_key.z):
                        raise Unsupported("update of an index other than the one read")
                w = L.own_writes.get(id(self))
                if w is not None and not eng().implied(w[0].z == k.z):
                    raise Unsupported("two updates of a list in one iteration")
                L.own_writes[id(self)] = (k, v, self)
                return
            old = s._get
            self._make(s._n, lambda j: choose_val(j == k, v, old(j)))
            return
        self._items[k] = v

    def _make(self, n, get):
        self._items = None
        self._n = n
        self._get = get

    def append(self, v):
        loops = note_write(self, None, append=True)
        reps = [L.rep for L in loops]
        if reps:
            v = Fam(reps, v)
        if self._items is None:
            if reps:
                raise Unsupported("append of a family to a symbolic list")
            n, old = self._n, self._get
            self._make(n + 1, lambda j: choose_val(j < n, old(j), v))
            return
        self._items.append(v)

    def extend(self, vs):
        loops = note_write(self, None, append=True)
        reps = [L.rep for L in loops]
        if isinstance(vs, HvList):
            if vs._items is None:
                if self._items is not None and not self._items and not reps:
                    self._make(vs._n, vs._get)
                    return
                raise Unsupported("extend with a symbolic list")
            vs = vs._items
        for v in vs:
            if reps:
                v = Fam(tuple(reps) + (v.reps if isinstance(v, Fam) else ()),
                        v.value if isinstance(v, Fam) else v)
            self._items.append(v)

    def insert(self, i, v):
        loops = note_write(self, None)
        if loops or self._items is None:
            raise Unsupported("insert into a shared list")
        self._items.insert(i, v)

    def pop(self, i=-1):
        note_write(self, None)
        if self.is_sym():
            raise Unsupported("pop from a symbolic list")
        return self._items.pop(i)

    def remove(self, v):
        note_write(self, None)
        if self.is_sym():
            raise Unsupported("remove from a symbolic list")
        self._items.remove(v)

    def copy(self):
        if self._items is None:
            return HvList.sym(self._n, self._get, self.rep)
        return HvList(list(self._items))

    def index(self, x):
        return self.raw().index(x)

    def count(self, x):
        if self.is_sym():
            raise Unsupported("count")
        return self._items.count(x)

    def sort(self, **k):
        note_write(self, None)
        if self.is_sym():
            raise Unsupported("sort of a symbolic list")
        self._items.sort(**k)

    def reverse(self):
        if self.is_sym():
            raise Unsupported("reverse of a symbolic list")
        self._items.reverse()

    def __add__(self, o):
        if isinstance(o, (HvList, list)):
            if self._items is None or (isinstance(o, HvList) and o._items is None):
                if isinstance(o, HvList) and o._items == []:
                    return self.copy()
                raise Unsupported("concatenation with a symbolic list")
            return HvList(list(self._items) + list(o.raw() if isinstance(o, HvList) else o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return HvList(list(o) + list(self.raw()))
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        return HvList(self.raw() * k)

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, HvList):
            o = o.raw()
        if isinstance(o, list):
            return self.raw() == o
        return False

    __hash__ = None

    def __repr__(self):
        return f"HvList({self._items})" if self._items is not None else "HvList(sym)"

    def __deepcopy__(self, memo):
        import copy

        if self._items is None:
            get = self._get
            return HvList.sym(self._n, lambda j: copy.deepcopy(get(j)), self.rep)
        o = HvList()
        memo[id(self)] = o
        o._items = [
            Fam(i.reps, copy.deepcopy(i.value, memo)) if isinstance(i, Fam) else copy.deepcopy(i, memo)
            for i in self._items
        ]
        return o


def choose_val(c, a, b):
    if isinstance(c, SymBool):
        z = z3.simplify(c.z)
        if z3.is_true(z):
            return a
        if z3.is_false(z):
            return b
        if eng().implied(z):
            return a
        if eng().implied(z3.Not(z)):
            return b
    elif c:
        return a
    else:
        return b
    if isinstance(b, Poison) or isinstance(a, Poison):
        return Poison("conditional element")
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(choose_val(c, x, y) for x, y in zip(a, b))
    if isvec(a) and isvec(b):
        return mkvec(a, [ite(c, x, y) for x, y in zip(comps(a), comps(b))])
    if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)):
        return ite(c, a, b)
    # objects: fork
    return a if builtins.bool(c) else b


def famkey(k):
    return isinstance(k, str) and "⟪" in k


class HvDict:
    """dict; keys holding a representative's token denote one entry each."""

    def __init__(self, d=(), **kw):
        self.serial = next(_serial)
        self._d = dict(d._d if isinstance(d, HvDict) else d, **kw)
        self._reps = {}
        self._single = set()
        if isinstance(d, HvDict):
            self._reps = dict(d._reps)
            self._single = set(d._single)

    def add_rep(self, rep, value):
        key = RepStr(rep.tok)
        self._d[key] = value
        self._reps[rep.tok] = rep
        rep.named = True
        return key

    def is_sym(self):
        if self._tally is not None:
            raise Unsupported("whole dictionary of running counts")
        return any(famkey(k) for k in self._d)

    def reps_of(self, k):
        return eng().reps_in(k)

    def _entries(self):
        out = []
        for k, v in self._d.items():
            if isinstance(v, Own):
                raise Unsupported("all entries of a family with one changed")
            if famkey(k):
                out.append(Fam(self.reps_of(k), (k, v)))
            else:
                out.append((k, v))
        return out

    def items(self):
        if not self.is_sym():
            return self._d.items()
        return DictView(self, lambda kv: kv)

    def keys(self):
        if not self.is_sym():
            return self._d.keys()
        return DictView(self, lambda kv: kv[0])

    def values(self):
        if not self.is_sym():
            return self._d.values()
        return DictView(self, lambda kv: kv[1])

    def __iter__(self):
        if not self.is_sym():
            return iter(self._d)
        return iter(Loop(self, "native", 0))

    def __len__(self):
        if self.is_sym():
            raise Unsupported("native len of a symbolic dict")
        return len(self._d)

    def size(self):
        n = 0
        for k in self._d:
            if famkey(k):
                r = self.reps_of(k)
                if len(r) != 1:
                    raise Unsupported("size of nested family")
                n = n + r[0].n
            else:
                n += 1
        return n

    def __bool__(self):
        return bool(self._d)

    def _k(self, k):
        if is_sym(k):
            return eng().token(k)
        return k

    _tally = None

    def _counter(self, k):
        """Running count this entry holds (see Tally), read on demand."""
        if not _active() or not eng().tallies:
            return None
        for t in eng().tallies:
            L = t.loop_for(self)
            if L is not None and k in t.keys:
                if k not in self._tally.cur:
                    n = t.count(k, L.rep.idx)
                    self._tally.cur[k] = n if builtins.bool(n > 0) else None
                return self._tally.cur
        return None

    def _have(self, k):
        t = self._counter(k)
        if t is not None:
            return t if t.get(k) is not None else {}
        return self._d

    def __contains__(self, k):
        k = self._k(k)
        return k in self._have(k) or self._elsewhere(k) is not None or self._plain(k) is not None

    def _plain(self, k):
        """Entry under a name the arbitrary one may happen to be."""
        if not isinstance(k, str) or not _active():
            return None
        if not has_token(k):
            for f in self._d:
                if famkey(f) and RepStr(f).may_be(k):
                    raise Unsupported("a given name among arbitrary ones")
            return None
        for p in self._d:
            if isinstance(p, str) and not has_token(p) and RepStr(k).matches(p):
                return p
        return None

    def __getitem__(self, k):
        k = self._k(k)
        d = self._have(k)
        if k in d:
            return d[k].new if isinstance(d[k], Own) else d[k]
        o = self._elsewhere(k)
        if o is not None:
            return reidx(self._d[o[0]], o[1], o[2])
        p = self._plain(k)
        if p is not None:
            return self._d[p]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def _elsewhere(self, k):
        """(key, family, index) of the entry of a family at another index."""
        if not isinstance(k, str) or "⟦@" not in k:
            return None
        for t, (rep, j) in eng().keys_at.items():
            if t in k and k.replace(t, rep.tok) in self._d and k.replace(t, rep.tok) not in self._single:
                return k.replace(t, rep.tok), rep, j
        raise Unsupported("entry of a family at another index")

    def _one_of(self, k):
        """Loop of which this store changes only the current element's entry."""
        if not famkey(k) or not _active():
            return None
        for L in eng().loops:
            if not L.closed and L.body and L.rep.tok in k and self.serial > L.serial:
                return L
        return None

    def __setitem__(self, k, v):
        k = self._k(k)
        t = self._counter(k)
        if t is not None:
            t[k] = v
            return
        if isinstance(k, str) and "⟦@" in k:
            raise Unsupported("store to an entry of a family at another index")
        if k not in self._d:
            p = self._plain(k)
            if p is not None:
                raise Unsupported("an arbitrary name may be that of another entry")
        note_write(self, k)
        L = self._one_of(k)
        if L is not None:
            if k not in self._d:
                self._single.add(k)
            elif k not in self._single:
                old = self._d[k]
                self._d[k] = Own(old.base if isinstance(old, Own) else old, L.rep, v)
                return
        self._d[k] = v

    def __delitem__(self, k):
        note_write(self, k)
        if self._one_of(k) is not None and k not in self._single:
            raise Unsupported("deleting one entry of a family")
        del self._d[self._k(k)]

    def pop(self, k, *d):
        note_write(self, k)
        if self._one_of(k) is not None and k not in self._single:
            raise Unsupported("deleting one entry of a family")
        return self._d.pop(self._k(k), *d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, o=(), **kw):
        if isinstance(o, HvDict):
            o = dict(o._d)
        elif hasattr(o, "items"):
            o = dict(o.items())
        for k, v in dict(o, **kw).items():
            self[k] = v

    def clear(self):
        note_write(self, None)
        self._d.clear()

    def copy(self):
        return HvDict(self)

    def __or__(self, o):
        r = HvDict(self)
        r._d.update(o._d if isinstance(o, HvDict) else o)
        return r

    def __eq__(self, o):
        if isinstance(o, HvDict):
            o = o._d
        return self._d == o

    __hash__ = None

    def __repr__(self):
        return f"HvDict({self._d})"

    def __deepcopy__(self, memo):
        import copy

        o = HvDict()
        memo[id(self)] = o
        o._d = {k: copy.deepcopy(v, memo) for k, v in self._d.items()}
        o._reps = dict(self._reps)
        return o


class Tally:
    """Loop invariant of a dictionary that starts empty: the entry of each key
    is the number of elements of that kind before the current one (absent: 0)."""

    def __init__(self, rep, keys, kind):
        self.rep, self.keys, self.kind = rep, keys, kind
        self.loop, self.dict, self.cur = None, None, {}

    def count(self, k, i):
        E = eng()
        f = z3.Function("tally!" + k, z3.IntSort(), z3.IntSort())
        E.axiom(z3.And(f(0) == 0, f(to_int(i)) >= 0))
        return SymInt(f(to_int(i)))

    def loop_for(self, d):
        if self.dict is not None:
            return self.loop if self.dict is d and not self.loop.closed else None
        for L in eng().loops:
            if L.rep is self.rep and L.body and not L.closed and d.serial <= L.serial and not d._d and d._tally is None:
                self.loop, self.dict = L, d
                d._tally = self
                return L
        return None

    def close(self):
        own = self.kind()
        for k in self.keys:
            want = self.count(k, self.rep.idx)
            if k == own:
                want = want + 1
            have = self.cur.get(k, self.count(k, self.rep.idx))
            r = same(have if have is not None else 0, want)
            eng().check_inv(f"invariant: running count of {k}", False if r is None else r)


_TOKEN = re.compile("⟪[^⟫]*⟫|⟦[^⟧]*⟧")


def has_token(s):
    return "⟪" in s or "⟦" in s


class RepStr(str):
    """Arbitrary key of an unbounded dict.

    The code may ask about its text: what the known parts around the arbitrary
    name decide is answered, the rest is an unknown predicate of the element."""

    def __deepcopy__(self, memo):
        return self

    def _ask(self, what, arg):
        if not _active():
            raise Unsupported("text of an arbitrary name")
        E = eng()
        E.texts = True
        ts = [r for r in E.reps_in(self)] if "⟪" in self else []
        if len(ts) != 1 or "⟦" in self:
            raise Unsupported("text of an arbitrary name")
        f = z3.Function(f"text!{what}!{arg}!{self}", z3.IntSort(), z3.BoolSort())
        return builtins.bool(SymBool(f(ts[0].idx.z)))

    def _ends(self):
        p = _TOKEN.split(str.__str__(self))
        return p[0], p[-1]

    def startswith(self, s, *a):
        if isinstance(s, tuple):
            return any(self.startswith(x, *a) for x in s)
        if a or has_token(s):
            raise Unsupported("text of an arbitrary name")
        head = self._ends()[0]
        if len(s) <= len(head) or not s.startswith(head):
            return str.startswith(head, s)
        return self._ask("starts", s)

    def endswith(self, s, *a):
        if isinstance(s, tuple):
            return any(self.endswith(x, *a) for x in s)
        if a or has_token(s):
            raise Unsupported("text of an arbitrary name")
        tail = self._ends()[1]
        if len(s) <= len(tail) or not s.endswith(tail):
            return str.endswith(tail, s)
        return self._ask("ends", s)

    def __contains__(self, s):
        if not _source():
            return str.__contains__(self, s)
        if has_token(s):
            raise Unsupported("text of an arbitrary name")
        return any(s in p for p in _TOKEN.split(str.__str__(self))) or self._ask("has", s)

    def __eq__(self, o):
        r = str.__eq__(self, o)
        if r is True or not isinstance(o, str) or not _source():
            return r
        return self.matches(o)

    def matches(self, o):
        """Equality with a name the code or another collection supplies."""
        if has_token(o):
            return False
        if not self.may_be(o):
            return False
        return self._ask("is", o)

    def may_be(self, o):
        head, tail = self._ends()
        if not o.startswith(head) or not o.endswith(tail) or len(o) < len(head) + len(tail) \
                or (self, o) in eng().other_names:
            return False
        mid = o[len(head):len(o) - len(tail)]
        # collections without names are numbered
        return mid.isdigit() or any(r.named for r in eng().reps_in(self)) or len(_TOKEN.findall(self)) != 1

    def __ne__(self, o):
        r = str.__ne__(self, o)
        if r is False or not isinstance(o, str) or not _source():
            return r
        return not self.matches(o)

    __hash__ = str.__hash__

    def __add__(self, o):
        return RepStr(str.__add__(self, o))

    def __radd__(self, o):
        return RepStr(o + str.__str__(self))


def _source():
    """The question comes from the verified source, not from the verifier."""
    return sys._getframe(2).f_globals.get("__name__", "").split(".")[0] == "hypervehicle"


def _nope(name):
    def f(self, *a, **k):
        if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "hypervehicle":
            raise Unsupported("text of an arbitrary name")
        return getattr(str, name)(self, *a, **k)
    return f


for _m in ("__getitem__", "__len__", "__iter__", "split", "rsplit", "find", "rfind", "index", "rindex", "count", "lower",
           "upper", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "partition",
           "rpartition", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isidentifier", "removeprefix",
           "removesuffix", "__lt__", "__le__", "__gt__", "__ge__", "splitlines", "casefold"):
    setattr(RepStr, _m, _nope(_m))


class DictView:
    def __init__(self, d, f):
        self.d = d
        self.f = f

    def as_list(self):
        out = HvList()
        for e in self.d._entries():
            if isinstance(e, Fam):
                out._items.append(Fam(e.reps, self.f(e.value)))
            else:
                out._items.append(self.f(e))
        return out

    def __iter__(self):
        return iter(Loop(self, "native", 0))

    def __len__(self):
        raise Unsupported("native len of a symbolic dict view")

    def __contains__(self, x):
        return x in [i.value if isinstance(i, Fam) else i for i in self.as_list()._items]


class SymRange(HvList):
    pass


def mkrange(lo, hi):
    n = hi - lo
    n = n if isinstance(n, SymInt) else SymInt(z3.IntVal(n))
    nz = z3.simplify(n.z)
    key = ("range", nz.get_id())
    E = eng()
    if key not in E.cache:
        nm = f"r{sum(1 for k in E.cache if k[0] == 'range')}"
        E.cache[key] = (nm, nz)
    r = HvList.sym(SymInt(z3.If(nz >= 0, nz, z3.IntVal(0))), lambda j: j + lo)
    if E.implied(nz >= 0):
        r._n = SymInt(nz)
    return r


# ---------------------------------------------------------------- write rule
def note_write(obj, key, append=False):
    """Called before a container is modified; returns the loops (outermost
    first) relative to which the write is one-per-element."""
    E = eng() if _active() else None
    if E is None:
        return []
    out = []
    for L in E.loops:
        if L.closed or not L.body:
            continue
        if obj.serial > L.serial:
            continue
        if L.local_mode:
            raise Unsupported("container update in a merged loop body")
        if L.inv is not None:
            if id(obj) in L.havoced:
                continue
            raise Unsupported("container update outside of the loop invariant")
        if append:
            out.append(L)
            continue
        if isinstance(obj, HvDict) and isinstance(key, str) and L.rep.tok in key:
            continue
        if isinstance(obj, HvList) and isinstance(key, SymInt) and L.is_own(key):
            out.append(L)
            continue
        if L.owned(obj):
            continue
        raise Unsupported(
            f"iterations of the loop at {L.where}:{L.line} may overwrite each other's results"
        )
    return out


def _active():
    from .sym import _Eng

    return _Eng.cur is not None


def attr_write(obj, attr):
    if not _active():
        return
    for L in eng().loops:
        if L.closed or not L.body:
            continue
        if isinstance(obj, (HvDict, HvList)):
            continue  # handled by the container
        if L.owned(obj):
            continue
        if id(obj) in L.snapshot:
            if L.allows(obj, attr):
                continue
            raise Unsupported(
                f"loop at {L.where}:{L.line} writes shared object attribute {attr}"
            )


def reach(roots, limit=4000):
    seen = {}
    st = list(roots)
    while st and len(seen) < limit:
        o = st.pop()
        if o is None or isinstance(o, (int, float, str, bytes, type, SymReal, SymInt, SymBool)):
            continue
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (list, tuple, set)):
            st.extend(o)
        elif isinstance(o, dict):
            st.extend(o.values())
        elif isinstance(o, HvList):
            for i in o._items or ():
                st.append(i.value if isinstance(i, Fam) else i)
        elif isinstance(o, HvDict):
            st.extend(o._d.values())
        else:
            d = getattr(o, "__dict__", None)
            if isinstance(d, dict) and not isinstance(o, type(sys)):
                st.extend(d.values())
    return seen


# ----------------------------------------------------------------- loop rule
UNBOUND = object()


class Loop:
    def __init__(self, it, where, line):
        self.where, self.line = where, line
        self.it = it
        self.sym = False
        self.rep = None
        self.inv = None
        self.body = False
        self.closed = False
        self.finished = False
        self.broke = False
        self.local_mode = False
        self.own_writes = {}
        self.read_own = set()
        self.own_key = None
        self.havoced = {}
        self.assign, self.mut = [], []
        self.vals = {}
        self.snapshot = {}
        self.elem = None
        self._plain = None
        self.frame_roots = None
        if isinstance(it, HvDict) and it.is_sym():
            it = DictView(it, lambda kv: kv[0])
            self.it = it
        if isinstance(it, DictView):
            self.sym = True
        elif isinstance(it, HvList) and it.is_sym():
            self.sym = True
        elif isinstance(it, HvDict):
            self._plain = iter(it._d)
        elif isinstance(it, HvList):
            self._plain = iter(it._items)
        else:
            self._plain = iter(it)

    # -- hooks called from instrumented code
    exits = False
    last = None

    def places(self, assign, mut, targets, exits=False, fresh=()):
        self.assign, self.mut, self.targets_ = assign, mut, targets
        self.exits, self.fresh_ = exits, fresh
        fr = sys._getframe(1)
        self.frame_roots = list(fr.f_locals.values())

    def val(self, k):
        v = self.vals.get(k, UNBOUND)
        if self.broke or v is UNBOUND:
            v = dict(self.assign)[k]
            try:
                return v()
            except (NameError, AttributeError):
                return Poison(f"variable {k}")
        return v

    def target(self, k):
        if self.broke:
            return dict(self.targets_)[k]()
        if self.last is not None and k in self.last:
            try:
                return reidx(self.last[k], self.rep, self.rep.n - 1)
            except Unsupported:
                pass
        return Poison(f"loop variable {k} after the loop")

    def done(self):
        pass

    def leave(self):
        E = eng() if _active() else None
        if not self.sym or E is None:
            return
        if not self.finished:
            self.broke = True
            if self in E.loops:
                if self.sub is not None and self.sub in E.subs:
                    E.sub_abort(self.sub)
                if self.inv is not None:
                    self.inv.level_leave()
                self.close()

    def close(self):
        E = eng()
        self.body = False
        self.closed = True
        if self in E.loops:
            E.loops.remove(self)

    def current(self, getter):
        try:
            return getter()
        except (NameError, AttributeError):
            return UNBOUND

    def before(self, k, g):
        """Value of a place before the next entry of the collection."""
        if self.post is not None and k in self.post:
            return self.post[k]
        return self.current(g)

    def owned(self, obj):
        return self.elem is not None and id(obj) in self._owned

    def allows(self, obj, attr):
        # object attributes that are loop-carried places are summarised by val
        for k, g in self.assign:
            if k.endswith("." + attr):
                return True
        return False

    def is_own(self, key):
        if self.own_idx is None:
            return False
        d = z3.simplify(key.z - self.own_idx.z)
        return not mentions(d, self.own_idx.z)

    own_idx = None

    def touches(self, lst):
        return self.body and id(lst) in self.mut_ids

    mut_ids = ()

    def own_read(self, lst, k):
        """Read of a list that the loop body updates at its own index."""
        if self.inv is not None:
            return None
        if self.own_key is not None and eng().implied(k.z == self.own_key.z):
            self.read_own.add(id(lst))
            return None  # not yet written in this iteration: original value
        # another index: may or may not have been updated already
        return havoc_like(lst.symbolic().at(k), "other")

    # -- iteration
    def __iter__(self):
        if not self.sym:
            return self._plain
        return self._gen()

    def _entries(self):
        it = self.it
        if isinstance(it, DictView):
            return it.as_list()._items, it.d
        if it._items is not None:
            return list(it._items), None
        return None, None

    def _gen(self):
        E = eng()
        entries, d = self._entries()
        size0 = len(d._d) if d is not None else None
        if entries is None:
            # fully symbolic list
            yield from self._symlist(self.it.as_list() if isinstance(self.it, DictView) else self.it)
        for e in entries or ():
            if isinstance(e, Fam):
                new = [r for r in e.reps if all(L.rep is not r or L.closed for L in E.loops)]
                if len(new) > 1:
                    raise Unsupported("loop over a nested family")
                if not new:
                    # an element of the iteration already under way
                    self.vals = {k: self.before(k, g) for k, g in self.assign}
                    self.vals = {k: v for k, v in self.vals.items() if v is not UNBOUND}
                    self.post = None
                    yield e.value
                    self.vals = {}
                else:
                    yield from self._rep(new[0], e.value, new[0].idx, None)
            else:
                self.vals = {k: self.before(k, g) for k, g in self.assign}
                self.vals = {k: v for k, v in self.vals.items() if v is not UNBOUND}
                if self.broke:
                    return
                self.post = None
                yield e
                self.vals = {}
            if d is not None and len(d._d) != size0:
                raise RuntimeError("dictionary changed size during iteration")
        # values after the last entry stay what the code left them
        self.vals = {k: self.post.get(k, UNBOUND) for k, _ in self.assign} if self.post else {}
        self.vals = {k: v for k, v in self.vals.items() if v is not UNBOUND}
        self.finished = True

    post = None
    sub = None

    def _symlist(self, lst):
        E = eng()
        inv = E.find_invariant(self, lst)
        n = lst._n
        if inv is not None:
            yield from self._invariant(lst, inv)
            return
        # empty collection: the body does not run
        if lst.rep is None or any(L.rep is lst.rep and not L.closed for L in E.loops):
            rep = E.rep_for(n)
            if any(L.rep is rep for L in E.loops):
                k = sum(1 for L in E.loops if L.rep.n is rep.n or L.rep is rep)
                rep = E.rep_for(n, k)
        else:
            rep = lst.rep
        if not E.implied((n > 0).z):
            if not builtins.bool(n > 0):
                self.post = {}
                return
        E.rep_bounds(rep)
        yield from self._rep(rep, lst.at(rep.idx), rep.idx, lst)

    def _rep(self, rep, value, idx, lst):
        E = eng()
        if any(L.rep is rep for L in E.loops):
            raise Unsupported("nested loop over the same collection")
        self.rep = rep
        self.elem = value
        self.own_idx = idx
        self.own_key = idx
        first = value[0] if isinstance(value, tuple) and value else value
        if isinstance(first, SymInt):
            self.own_key = first
        self._owned = reach([x for x in (value if isinstance(value, tuple) else (value,))])
        self.serial = next(_serial)
        self.snapshot = reach(self.frame_roots or ())
        self.mut_ids = set()
        for k, g in self.mut:
            o = self.current(g)
            if isinstance(o, HvList):
                self.mut_ids.add(id(o))
        entry = {k: self.before(k, g) for k, g in self.assign}
        heads = {}
        carried = {}
        for k, v in entry.items():
            if v is UNBOUND:
                continue
            h = havoc_like(v, "h_" + k.replace(".", "_"))
            heads[k] = h
            if h is not v:
                carried[k] = v
        E.loops.append(self)
        self.unforced0 = E.unforced
        self.fresh0 = next(E.fresh_n)
        self.body = True
        scalar = [k for k, h in heads.items() if isinstance(h, (SymReal, SymInt)) or isvec(h)]
        if not self.mut and not self.exits and scalar and all(k in self.fresh_ for k in scalar):
            # only values that do not outlive their iteration
            for k in scalar:
                del heads[k]
                carried.pop(k, None)
            scalar = []
        self.local_mode = not self.mut and builtins.bool(self.exits or scalar)
        results = []
        ends = []
        if self.local_mode:
            # enumerate the body's own paths and merge them
            if self.exits and E.orders:
                E.witness(rep.idx)
                E.witness(rep.idx + 1)
            sub = self.sub = E.sub_begin()
            while True:
                self.vals = dict(heads)
                yield value
                out = {k: self.current(g) for k, g in self.assign}
                results.append((E.sub_cond(sub), out))
                ends.append({k: self.current(g) for k, g in self.targets_})
                if not E.sub_next(sub):
                    break
            E.sub_end(sub)
            if self.exits:
                self._stayed(rep, [c for c, _ in results], heads)
        else:
            self.vals = dict(heads)
            yield value
            out = {k: self.current(g) for k, g in self.assign}
            results.append((None, out))
            ends.append({k: self.current(g) for k, g in self.targets_})
        if lst is not None or isinstance(self.it, HvList) and len(self.it._items or ()) == 1:
            self.last = {k: v for k, v in ends[0].items() if all(e[k] is v for e in ends)}
        for t in E.tallies:
            if t.loop is self:
                t.close()
        # -- summarise
        self.body = False
        merged = {}
        for k, _ in self.assign:
            vs = [(c, o.get(k, UNBOUND)) for c, o in results]
            if any(v is UNBOUND for _, v in vs):
                merged[k] = UNBOUND
                continue
            m = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                m = merge(c, v, m)
            merged[k] = m
        self.close()
        if E.sub_forked(self):
            rep.conditional = True
        self.post = {}
        self._summary(entry, heads, carried, merged, rep)
        # own-index writes of lists
        for i, (k, v, l) in self.own_writes.items():
            s = l.symbolic()
            r = rep
            fl = flat(v)
            if fl is not None and any(E.body_fresh(to_z(x), self.fresh0) and not defined(x, rep, self.fresh0) for x in fl):
                v2 = anyfun(v, rep)
            else:
                v2 = v
            old = s._get
            shift = z3.simplify((k - idx).z)

            def get(j, v2=v2, shift=shift):
                jz = z3.simplify((j if isinstance(j, SymInt) else SymInt(z3.IntVal(j))).z - shift)
                return reidx(v2, rep, SymInt(jz))

            lo = SymInt(shift)
            full = E.implied(z3.And(shift == 0, s._n.z == rep.n.z))
            if full:
                l._make(s._n, get)
            else:
                n = rep.n
                l._make(s._n, lambda j, get=get, old=old, lo=lo, n=n: choose_val(
                    (j >= lo) & (j < lo + n), get(j), old(j)))

    targets_ = ()
    fresh_ = ()

    def _stayed(self, rep, conds, heads):
        """The loop was not left early: no element took a path that leaves."""
        E = eng()
        z = z3.Or(*conds) if conds else z3.BoolVal(False)
        if E.body_fresh(z, self.fresh0) or any(mentions(z, a) for h in heads.values() for a in head_atoms(h)):
            return

        def at(j):
            w = z3.substitute(z, (rep.idx.z, to_int(j)))
            E.reinstantiate(w)
            return SymBool(w)

        E.axiom(z)
        E.universal(rep.n, at)

    def _summary(self, entry, heads, carried, merged, rep):
        E = eng()
        # variables whose end value does not depend on loop-carried state:
        # at iteration k they hold the value computed by iteration k-1
        atoms = {}
        for k, h in heads.items():
            if k in carried:
                for a in head_atoms(h):
                    atoms[a.get_id()] = a
        defs = []
        for k, v0 in carried.items():
            h, m = heads[k], merged.get(k, UNBOUND)
            if m is UNBOUND or isinstance(m, Poison) or isinstance(h, Poison):
                continue
            hs, ms = flat(h), flat(m)
            if hs is None or ms is None or len(hs) != len(ms):
                continue
            if not any(mentions(to_z(x), a) for x in ms for a in atoms.values()):
                v0s = flat(v0)
                prev = [E.renorm(z3.substitute(to_z(x), (rep.idx.z, rep.idx.z - 1))) for x in ms]
                at0 = [E.renorm(z3.simplify(z3.substitute(to_z(x), (rep.idx.z, z3.IntVal(-1))))) for x in ms]
                ok = all(
                    E.implied(coerce(to_z(a)) == coerce(b)) for a, b in zip(v0s, at0))
                for x, p, z0 in zip(hs, prev, v0s):
                    p = coerce(p, to_z(x))
                    d = p if ok else z3.If(rep.idx.z == 0, coerce(to_z(z0), p), p)
                    defs.append((x.z, d))
                last = [subst_last(x, rep) for x in ms]
                self.post[k] = unflat(m, [
                    mk(l) for l in last])
        for x, d in defs:
            E.axiom(x == d)
            rep.heads.append((x, d))
        for k, v0 in carried.items():
            if k in self.post:
                continue
            h, m = heads[k], merged.get(k, UNBOUND)
            if hasattr(type(h), "_hv_join"):
                v = h._hv_join(v0, m, rep)
                self.post[k] = v if v is not None else Poison(f"variable {k} after the loop")
                continue
            if m is UNBOUND or isinstance(m, Poison) or isinstance(h, Poison):
                self.post[k] = Poison(f"variable {k} after the loop")
                continue
            hs, ms = flat(h), flat(m)
            v0s = flat(v0)
            if hs is not None and ms is not None and len(ms) != len(hs) and len(hs) == 1:
                hs = hs * len(ms)
                v0s = v0s * len(ms)
            if hs is None or ms is None or len(hs) != len(ms):
                self.post[k] = Poison(f"variable {k} after the loop")
                continue
            outs = []
            for x, e, z0 in zip(hs, ms, v0s):
                outs.append(self._accumulate(x, e, z0, defs, atoms, rep))
            if all(o is not None for o in outs):
                self.post[k] = unflat(m, outs)
            else:
                self.post[k] = havoc_like(m, "post_" + k)
        known = {h.get_id() for h, _ in rep.heads}
        for a in atoms.values():
            if a.get_id() not in known:
                rep.heads.append((a, None))
        # assigned but not live on entry
        for k in merged:
            if k in self.post or k in carried:
                continue
            if k in entry and entry[k] is not UNBOUND and heads.get(k) is entry[k]:
                self.post[k] = merged[k] if merged[k] is entry[k] else Poison(
                    f"variable {k} after the loop")
            else:
                self.post[k] = Poison(f"variable {k} after the loop")

    def _accumulate(self, head, end, z0, defs, atoms, rep):
        """end == head + e(element)  ==>  value after the loop."""
        E = eng()
        hz, ez = to_z(head), to_z(end)
        isint = hz.sort() == z3.IntSort() and ez.sort() == z3.IntSort()
        mixed = hz.sort() != ez.sort()
        if mixed and any(mentions(f, head.z) for f in E.pc + E.facts):
            return None
        if mixed:
            hz, ez = coerce(hz, z3.RealVal(0)), coerce(ez, z3.RealVal(0))
        d = z3.simplify(ez - hz, som=True)
        if mentions(d, head.z):
            e1 = z3.substitute(d, (head.z, z3.IntVal(0) if head.z.sort() == z3.IntSort() else z3.RealVal(0)))
            e1 = z3.simplify(e1, som=True)
            fresh = head.z
            if not E.implied(d == e1):
                return None
            d = e1
        if E.sub_forked(self) or E.body_fresh(d, self.fresh0):
            return None
        for x, df in defs:
            d = z3.substitute(d, (x, df))
        d = z3.simplify(E.renorm(d), som=True)
        if any(mentions(d, a) for a in atoms.values()):
            return None
        if not mentions(d, rep.idx.z):
            # constant step: closed form
            k = rep.idx.z if isint else z3.ToReal(rep.idx.z)
            n = rep.n.z if isint else z3.ToReal(rep.n.z)
            z0z = coerce(to_z(z0), hz)
            if not mixed:
                E.axiom(hz == z0z + d * k)
                rep.heads.append((hz, z0z + d * k))
            return mk(z3.simplify(z0z + d * n))
        if isint:
            d = z3.ToReal(d)
        S = E.prefix_sum(rep, d)
        z0z = coerce(to_z(z0), z3.RealVal(0))
        if not mixed and not isint:
            E.axiom(hz == z0z + S(rep.idx.z))
            rep.heads.append((hz, z0z + S(rep.idx.z)))
        return mk(z0z + S(rep.n.z)) if not (numeral(z0z) is not None and numeral(z0z) == 0) else mk(S(rep.n.z))

    # -- explicit invariants
    def _invariant(self, lst, inv):
        E = eng()
        n = lst._n
        self.inv = inv
        self.rep = Rep("inv", n, None)
        self.serial = next(_serial)
        self.snapshot = reach(self.frame_roots or ())
        entry = {k: self.current(g) for k, g in self.assign}
        heap = {k: self.current(g) for k, g in self.mut}
        matched = inv.match(self, entry, heap)
        if inv.stops:
            E.assumed.add(inv.stops)
        which = "step" if inv.stops else E.choose(["step", "exit"])
        if which == "step":
            k = E.fresh("k", "int")
            E.assume((k >= 0) & (k < n))
        else:
            k = n
            E.assume(n >= 0)
        inv.level_enter(k)
        st = inv.state(k)
        self.vals = {}
        for pk, v in entry.items():
            if pk in matched:
                self.vals[pk] = st[matched[pk]]
            elif v is not UNBOUND:
                self.vals[pk] = havoc_like(v, "any_" + pk.replace(".", "_"))
        for pk, o in heap.items():
            if pk in matched:
                s = st[matched[pk]]
                o._make(s._n, s._get)
                self.havoced[id(o)] = o
        if inv.claims:
            for r in inv.facts(k, matched, self.vals, heap):
                E.assume(r)
        if which == "exit":
            self.post = dict(self.vals)
            self.finished = True
            self.closed = True
            inv.level_leave()
            return
        E.loops.append(self)
        self.body = True
        yield lst.at(k)
        self.body = False
        st1 = inv.state(k + 1)
        for pk, ci in matched.items():
            g = dict(self.assign).get(pk) or dict(self.mut).get(pk)
            cur = self.current(g)
            r = same(cur, st1[ci]) if cur is not UNBOUND else None
            nm = f"invariant preserved by the loop in {self.where} ({inv.name})"
            if r is None:
                raise Unsupported(f"loop state {pk} incomparable with invariant")
            E.check_inv(nm, r)
        if inv.claims:
            now = {pk: self.current(g) for pk, g in self.assign}
            for r in inv.facts(k + 1, matched, now, {pk: self.current(g) for pk, g in self.mut}):
                E.check_inv(f"claims preserved by the loop in {self.where} ({inv.name})", r)
        inv.level_leave()
        raise PathEnd()


def defined(x, rep, start):
    """All symbols the body introduced in x have a value in terms of idx."""
    z = to_z(x)
    for h, d in rep.heads:
        if d is not None:
            z = z3.substitute(z, (h, d))
    return not eng().body_fresh(z, start)


def anyfun(v, rep):
    """An unknown value per index that agrees with v at the arbitrary one."""
    E = eng()
    out = []
    for x in flat(v):
        z = to_z(x)
        f = z3.Function(f"any!{next(E.fresh_n)}", z3.IntSort(), z.sort())
        E.axiom(f(rep.idx.z) == z)
        out.append(mk(f(rep.idx.z)))
    return unflat(v, out)


def depends(v, h):
    z = getattr(h, "z", None)
    if z is None:
        return False
    f = flat(v)
    return f is not None and any(mentions(to_z(x), z) for x in f)


def to_z(v):
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return v.z
    if isinstance(v, builtins.bool):
        return z3.BoolVal(v)
    if isinstance(v, builtins.int):
        return z3.IntVal(v)
    return to_real(v)


def coerce(z, like=None):
    if like is None or like.sort() == z3.RealSort():
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z
    return z


def mk(z):
    if z.sort() == z3.IntSort():
        return SymInt(z)
    if z.sort() == z3.BoolSort():
        return SymBool(z)
    return SymReal(z)


def subst_last(x, rep):
    return z3.substitute(to_z(x), (rep.idx.z, rep.n.z - 1))


def flat(v):
    if isinstance(v, (SymReal, SymInt)) or (is_num(v) and not isinstance(v, builtins.bool)):
        return [v]
    if isvec(v):
        return comps(v)
    if isinstance(v, np.ndarray):
        return list(v.flat)
    return None


def unflat(like, vs):
    if isvec(like):
        return mkvec(like, vs)
    if isinstance(like, np.ndarray):
        o = np.empty(like.shape, dtype=object)
        for i, v in zip(np.ndindex(*like.shape), vs):
            o[i] = v
        return o
    return vs[0]


def head_atoms(h):
    f = flat(h)
    return [x.z for x in f if is_sym(x)] if f else []


def havoc_like(v, name):
    E = eng()
    if isinstance(v, Poison):
        return v
    if isinstance(v, builtins.bool) or isinstance(v, SymBool):
        return Poison(name)
    if isinstance(v, (builtins.int, SymInt)) or (type(v).__module__ == "numpy" and isinstance(v, np.integer)):
        return E.fresh(name, "int")
    if isinstance(v, (SymReal, builtins.float)):
        return E.fresh(name)
    if isvec(v):
        return mkvec(v, [E.fresh(name + a) for a in "xyz"])
    if isinstance(v, np.ndarray) and v.shape:
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            o[i] = E.fresh(name)
        return o
    if isinstance(v, (HvList, HvDict)):
        return v
    if hasattr(v, "_hv_havoc"):
        return v._hv_havoc()
    return Poison(name)


def merge(c, a, b):
    if a is b:
        return a
    cz = SymBool(c)
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("merge")
    fa, fb = flat(a), flat(b)
    if fa is not None and fb is not None and len(fa) == len(fb):
        return unflat(a, [ite(cz, x, y) for x, y in zip(fa, fb)])
    return Poison("merge")

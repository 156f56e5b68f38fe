"""Numeric tables with any number of rows: arrays and pandas frames.

A table holds, per column, the value of an arbitrary row.  Only the operations
below are known; anything else is outside the verifier's reach.
"""
import builtins

import z3

from .coll import Fam, HvDict, HvList, famkey, subst
from .sym import SymInt, SymReal, Unsupported, eng, is_num, is_sym, mkreal, to_int


class Grid:
    """Array whose first dimension is unbounded: get(i, j, ...)."""

    def __init__(self, shape, get):
        self.shape, self.get = tuple(shape), get

    def _hv_subst(self, pairs):
        return Grid(subst(self.shape, pairs), subst(self.get, pairs))

    def _hv_parts(self):
        return [self.shape, self.get]

    def _same(self, o):
        if len(o.shape) != len(self.shape) or any(
                not eng().implied(to_int(a) == to_int(b)) for a, b in zip(self.shape, o.shape)):
            raise Unsupported("arrays of different shapes")

    def _op(self, o, f):
        if isinstance(o, Grid):
            self._same(o)
            a, b = self.get, o.get
            return Grid(self.shape, lambda *i: f(a(*i), b(*i)))
        if is_num(o) or is_sym(o):
            a = self.get
            return Grid(self.shape, lambda *i: f(a(*i), o))
        raise Unsupported("array arithmetic")

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, HvList)):
            shape = tuple(shape[0])
        tail = self.shape[1:]
        size = 1
        for t in tail:
            size *= t
        if not all(isinstance(s, builtins.int) and s > 0 for s in shape[1:] + tail):
            raise Unsupported("reshape to these dimensions")
        width = 1
        for s in shape[1:]:
            width *= s
        rows = shape[0]
        n = self.shape[0]
        if is_num(rows) and rows == -1:
            if size % width:
                raise Unsupported("reshape to these dimensions")
            rows = n * (size // width)
        if not eng().implied(to_int(rows) * width == to_int(n) * size):
            raise Unsupported("reshape to a size the verifier cannot confirm")
        old = self.get

        def get(*ix):
            at = to_int(ix[0])
            for i, s in zip(ix[1:], shape[1:]):
                at = at * s + to_int(i)
            at = z3.simplify(at)
            out = []
            for s in reversed(tail):
                out.append(SymInt(z3.simplify(at % s)))
                at = at / s
            return old(SymInt(z3.simplify(at)), *reversed(out))

        return Grid((rows,) + shape[1:], get)

    def __setitem__(self, key, v):
        if len(self.shape) != 2 or not isinstance(key, tuple) or len(key) != 2 or key[0] != slice(None) \
                or not isinstance(key[1], slice) or key[1].step is not None:
            raise Unsupported("array store")
        a, b, _ = key[1].indices(self.shape[1])
        if not isinstance(v, Grid):
            raise Unsupported("array store")
        Grid((self.shape[0], b - a), None)._same(v)
        old, new = self.get, v.get

        def get(i, j):
            if not isinstance(j, builtins.int):
                raise Unsupported("array column")
            return new(i, j - a) if a <= j < b else old(i, j)

        self.get = get


def zeros(shape):
    return Grid(shape, lambda *i: SymReal(z3.RealVal(0)))


class Rows:
    """Identity of a table's rows."""

    def __init__(self, n, of=None):
        self.n, self.of = n, of

    def _hv_subst(self, pairs):
        return self if not is_sym(self.n) else Rows(subst(self.n, pairs), self.of and self.of._hv_subst(pairs))

    def _hv_parts(self):
        return [self.n]

    def base(self):
        return self.of.base() if self.of is not None else self

    def same(self, o):
        if self is o:
            return True
        if (self.of is None) != (o.of is None):
            return False
        if self.of is not None:
            return self.of.same(o.of)
        return eng().implied(to_int(self.n) == to_int(o.n))


class Column:
    def __init__(self, rows, get):
        self.rows, self.get = rows, get

    def _hv_subst(self, pairs):
        return Column(subst(self.rows, pairs), subst(self.get, pairs))

    def _hv_parts(self):
        return [self.rows, self.get]

    def _hv_map(self, f):
        g = self.get
        return Column(self.rows, lambda r: f(g(r)))

    def _op(self, o, f):
        g = self.get
        if isinstance(o, Column):
            if not self.rows.same(o.rows):
                raise Unsupported("columns of different tables")
            h = o.get
            return Column(self.rows, lambda r: f(g(r), h(r)))
        if is_num(o) or is_sym(o):
            return Column(self.rows, lambda r: f(g(r), o))
        raise Unsupported("column arithmetic")

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)


class Mask:
    def __init__(self, frame, keep=False):
        self.frame, self.keep = frame, keep

    def __invert__(self):
        return Mask(self.frame, not self.keep)


class Frame:
    """pandas.DataFrame: column name -> value of an arbitrary row."""

    def __init__(self, rows, cols, head=None, fams=()):
        self.rows, self.cols, self.head = rows, cols, head
        self.fams = set(fams)  # names standing for one column per element

    @staticmethod
    def of(data, columns):
        names = list(columns)
        if len(data.shape) != 2 or len(names) != data.shape[1]:
            raise Unsupported("pandas.DataFrame arguments")
        cols = HvDict()
        for j, c in enumerate(names):
            cols._d[c] = lambda r, g=data.get, j=j: g(r, j)
        return Frame(Rows(data.shape[0]), cols)

    def _hv_subst(self, pairs):
        cols = HvDict()
        cols._reps = dict(self.cols._reps)
        for k, v in self.cols._d.items():
            if k in self.fams:
                raise Unsupported("cannot re-index a table of a family")
            cols._d[subst(k, pairs)] = subst(v, pairs)
        return Frame(subst(self.rows, pairs), cols)

    def _hv_parts(self):
        return [self.rows, list(self.cols._d.values())]

    def _with(self, cols):
        c = HvDict()
        c._d.update(cols)
        return Frame(self.rows, c, self.head, [k for k in self.fams if k in cols])

    def _col(self, c):
        if c not in self.cols._d:
            raise KeyError(c)
        return self.cols._d[c]

    def __getitem__(self, k):
        if isinstance(k, str):
            return Column(self.rows, self._col(k))
        if isinstance(k, Mask):
            if not k.keep:
                raise Unsupported("selecting duplicate rows")
            f = k.frame
            if not f.rows.same(self.rows) or set(f.cols._d) != set(self.cols._d):
                raise Unsupported("rows selected by another table")
            return Frame(Rows(self.rows.n, self.rows), self.cols, None, self.fams)
        if isinstance(k, (list, HvList)):
            o = self._with({c: self._col(c) for c in k})
            o.head = None
            return o
        raise Unsupported("table selection")

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, Column) or not v.rows.same(self.rows):
            raise Unsupported("table store")
        self.cols._d[k] = v.get

    def _hv_map(self, f):
        return self._with({c: (lambda r, g=g: f(g(r))) for c, g in self.cols._d.items()})

    def sum(self, axis=None):
        if axis != 1 or self.fams:
            raise Unsupported("table sum")
        gs = list(self.cols._d.values())

        def get(r):
            t = mkreal(0)
            for g in gs:
                t = t + g(r)
            return t

        return Column(self.rows, get)

    def __truediv__(self, o):
        if not (is_num(o) or is_sym(o)):
            raise Unsupported("table arithmetic")
        return self._hv_map(lambda x: x / o)

    def __mul__(self, o):
        if not (is_num(o) or is_sym(o)):
            raise Unsupported("table arithmetic")
        return self._hv_map(lambda x: x * o)

    def rename(self, columns=None, inplace=False, **k):
        if k:
            raise Unsupported("rename arguments")
        if self.fams:
            raise Unsupported("rename of a family of columns")
        new = self._with({columns.get(c, c): g for c, g in self.cols._d.items()})
        if len(new.cols._d) != len(self.cols._d):
            raise Unsupported("columns of the same name")
        if inplace:
            self.cols = new.cols
            return None
        return new

    def join(self, o):
        if not isinstance(o, Frame) or not self.rows.same(o.rows):
            raise Unsupported("joining tables with different rows")
        if any(c in self.cols._d for c in o.cols._d):
            raise Unsupported("columns of the same name")
        r = self._with({**self.cols._d, **o.cols._d})
        r.fams |= o.fams
        return r

    def merge(self, o, left_index=False, right_index=False, **k):
        if k or not left_index or not right_index:
            raise Unsupported("merge arguments")
        return self.join(o)

    def duplicated(self):
        return Mask(self._with(self.cols._d))

    def copy(self):
        return self._with(self.cols._d)

    # a table extended by columns in every iteration of a loop
    def _hv_havoc(self):
        f = self.copy()
        f.head = object()
        return f

    def _hv_join(self, entry, end, rep):
        if not isinstance(end, Frame) or end.head is not self.head or not end.rows.same(self.rows):
            return None
        extra = {k: v for k, v in end.cols._d.items() if k not in self.cols._d}
        if not all(rep.tok in k for k in extra):
            return None
        if any(end.cols._d[k] is not v for k, v in self.cols._d.items()):
            return None
        r = entry._with({**entry.cols._d, **extra})
        r.fams |= set(extra) | end.fams
        return r


def concat(tables, axis=0, **k):
    ts = list(tables)
    if k or axis != 1 or not all(isinstance(t, Frame) for t in ts):
        raise Unsupported("pandas.concat arguments")
    out = ts[0]
    for t in ts[1:]:
        out = out.join(t)
    return out

"""Symbolic values.

Python objects that stand for mathematical reals, integers and truth values.
They are deliberately *not* subclasses of float/int/bool: a C-level function
that would silently drop the symbolic part gets an Unsupported error instead.
"""
import builtins
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The construct is outside the reach of the verifier (never a verdict)."""


class DomainError(Exception):
    """A NaN-producing call (sqrt of a negative, ...) on a feasible path."""


class _Eng:
    cur = None


def eng():
    if _Eng.cur is None:
        raise Unsupported("symbolic value used outside of a verification run")
    return _Eng.cur


R = z3.RealSort()
I = z3.IntSort()
PI = z3.Real("pi!")
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
TAN = z3.Function("tan", R, R)
SQRT = z3.Function("sqrt", R, R)
POW = z3.Function("pow", R, R, R)
ATAN2 = z3.Function("atan2", R, R, R)
LOG = z3.Function("log", R, R)
EXP = z3.Function("exp", R, R)
ROUND = z3.Function("roundn", R, I, R)
# functions whose axioms do not characterise them completely: a model that
# interprets them is not by itself evidence of a real failing input
INCOMPLETE = {"sin", "cos", "tan", "pow", "atan2", "log", "exp", "roundn", "pi!"}


def is_num(v):
    import numbers

    return isinstance(v, numbers.Number) and not isinstance(v, builtins.complex)


def frac(v):
    if isinstance(v, builtins.bool):
        return Fraction(1 if v else 0)
    if isinstance(v, builtins.int):
        return Fraction(v)
    f = builtins.float(v)
    if f != f or f in (builtins.float("inf"), builtins.float("-inf")):
        raise Unsupported("nan/inf in symbolic arithmetic")
    # the ratio a constant was rounded from: 0.05 is 1/20
    near = Fraction(f).limit_denominator(10 ** 6)
    return near if near and builtins.float(near) == f else Fraction(repr(f))


def rv(fr):
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))


def to_real(v):
    """z3 real term of a number-like value."""
    if isinstance(v, SymReal):
        return v.z
    if isinstance(v, SymInt):
        return z3.ToReal(v.z)
    if isinstance(v, SymBool):
        return z3.If(v.z, z3.RealVal(1), z3.RealVal(0))
    if type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "ndim", 0) == 0:
        v = v.item()
        return to_real(v)
    if is_num(v):
        return rv(frac(v))
    raise Unsupported(f"not a number: {type(v).__name__}")


def to_int(v):
    if isinstance(v, SymInt):
        return v.z
    if isinstance(v, builtins.int):
        return z3.IntVal(int(v))
    if type(v).__module__ == "numpy" and hasattr(v, "item"):
        return to_int(v.item())
    raise Unsupported(f"not an integer: {type(v).__name__}")


def to_bool(v):
    if isinstance(v, SymBool):
        return v.z
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (builtins.bool, builtins.int)) or type(v).__name__ in ("bool_", "bool"):
        return z3.BoolVal(builtins.bool(v))
    raise Unsupported(f"not a truth value: {type(v).__name__}")


def numeral(z):
    """Fraction of a numeral term, or None."""
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_int_value(z):
        return Fraction(z.as_long())
    return None


def _ok(v):
    return isinstance(v, (SymReal, SymInt, SymBool)) or (
        is_num(v) and not isinstance(v, builtins.str)
    )


def is_sym(v):
    return isinstance(v, (SymReal, SymInt, SymBool))


class SymBool:
    __slots__ = ("z",)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return eng().branch(self.z)

    def __and__(self, o):
        return mkb(z3.And(self.z, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.z, to_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.z, to_bool(o)))

    def __invert__(self):
        return mkb(z3.Not(self.z))

    def logical_not(self):
        return mkb(z3.Not(self.z))

    def __mul__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(z3.If(self.z, to_real(o), z3.RealVal(0)))

    __rmul__ = __mul__

    def __add__(self, o):
        return SymReal(to_real(self)) + o

    __radd__ = __add__

    def __eq__(self, o):
        try:
            return mkb(self.z == to_bool(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self == o
        return True if r is False else ~r

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SymBool({self.z})"

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self


def mkb(z):
    return SymBool(z)


def _is_zero(z):
    n = numeral(z)
    return n is not None and n == 0


def _is_one(z):
    n = numeral(z)
    return n is not None and n == 1


def radd(a, b):
    if _is_zero(a):
        return b
    if _is_zero(b):
        return a
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return rv(na + nb)
    return a + b


def rsub(a, b):
    if _is_zero(b):
        return a
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return rv(na - nb)
    return a - b


def rmul(a, b):
    na, nb = numeral(a), numeral(b)
    if na is not None and nb is not None:
        return rv(na * nb)
    if na is not None:
        if na == 0:
            return z3.RealVal(0)
        if na == 1:
            return b
    if nb is not None:
        if nb == 0:
            return z3.RealVal(0)
        if nb == 1:
            return a
    return a * b


def rdiv(a, b):
    nb = numeral(b)
    if nb is not None and nb != 0:
        return rmul(a, rv(1 / nb))
    return a / b


class _Num:
    __slots__ = ()
    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as a native index")

    def __int__(self):
        raise Unsupported("int() of a symbolic value in native code")

    def __trunc__(self):
        raise Unsupported("trunc of a symbolic value")

    def __str__(self):
        return eng().token(self)

    def __format__(self, spec):
        return eng().token(self)

    def __repr__(self):
        return f"{type(self).__name__}({self.z})"

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def conjugate(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    # comparisons
    def _cmp(self, o, f):
        if not _ok(o):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, (SymInt, builtins.int)) and not isinstance(o, builtins.bool):
            return mkb(f(self.z, to_int(o)))
        return mkb(f(to_real(self), to_real(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _ok(o):
            return False if o is None or isinstance(o, builtins.str) else NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _ok(o):
            return True if o is None or isinstance(o, builtins.str) else NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return eng().branch(to_real(self) != 0)

    # numpy calls these on object arrays
    def sqrt(self):
        return m_sqrt(self)

    def sin(self):
        return m_sin(self)

    def cos(self):
        return m_cos(self)

    def tan(self):
        return m_tan(self)

    def deg2rad(self):
        return m_deg2rad(self)

    def rad2deg(self):
        return m_rad2deg(self)

    def square(self):
        return self * self

    def fabs(self):
        return builtins.abs(self)

    def __abs__(self):
        return m_abs(self)

    def __truediv__(self, o):
        if not _ok(o):
            return NotImplemented
        d = to_real(o)
        n = numeral(d)
        if n is None:
            if eng().branch(d == 0):
                raise ZeroDivisionError("division by zero")
        elif n == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(rdiv(to_real(self), d))

    def __rtruediv__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(to_real(o)).__truediv__(self)

    def __pow__(self, e):
        if not _ok(e):
            return NotImplemented
        return m_pow(self, e)

    def __rpow__(self, b):
        if not _ok(b):
            return NotImplemented
        return m_pow(b, self)

    def __mod__(self, o):
        if not _ok(o):
            return NotImplemented
        q = m_floor(self / o)
        return self - o * q

    def __floordiv__(self, o):
        if not _ok(o):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, builtins.int) and o > 0:
            return SymInt(self.z / z3.IntVal(o))
        return SymReal(to_real(m_floor(self / o)))

    def __rmod__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(to_real(o)).__mod__(self)

    def __round__(self, n=None):
        return m_round(self, n)

    def __floor__(self):
        return m_floor(self)

    def __pos__(self):
        return self


class SymReal(_Num):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __add__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(radd(self.z, to_real(o)))

    def __radd__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(radd(to_real(o), self.z))

    def __sub__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(rsub(self.z, to_real(o)))

    def __rsub__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(rsub(to_real(o), self.z))

    def __mul__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(rmul(self.z, to_real(o)))

    def __rmul__(self, o):
        if not _ok(o):
            return NotImplemented
        return SymReal(rmul(to_real(o), self.z))

    def __neg__(self):
        return SymReal(rmul(z3.RealVal(-1), self.z))


class SymInt(_Num):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _bin(self, o, fi, fr):
        if not _ok(o):
            return NotImplemented
        if isinstance(o, (SymInt, builtins.int)) and not isinstance(o, builtins.bool):
            return SymInt(fi(self.z, to_int(o)))
        return SymReal(fr(to_real(self), to_real(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, radd)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: radd(b, a))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, rsub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: rsub(b, a))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, rmul)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, lambda a, b: rmul(b, a))

    def __neg__(self):
        return SymInt(-self.z)


def mkreal(v):
    return v if isinstance(v, SymReal) else SymReal(to_real(v))


def ite(c, a, b):
    """Symbolic if-then-else over number-like values."""
    if isinstance(c, builtins.bool):
        return a if c else b
    cz = to_bool(c)
    if isinstance(a, (SymInt, builtins.int)) and isinstance(b, (SymInt, builtins.int)):
        return SymInt(z3.If(cz, to_int(a), to_int(b)))
    return SymReal(z3.If(cz, to_real(a), to_real(b)))


# ---------------------------------------------------------------- functions
def any_sym(*vs):
    return builtins.any(is_sym(v) for v in vs)


def m_abs(x):
    if not is_sym(x):
        return builtins.abs(x)
    if isinstance(x, SymInt):
        return SymInt(z3.If(x.z >= 0, x.z, -x.z))
    z = to_real(x)
    return SymReal(z3.If(z >= 0, z, -z))


def _sos(z):
    """Syntactically a sum of squares."""
    n = numeral(z)
    if n is not None:
        return n >= 0
    if z3.is_add(z):
        return builtins.all(_sos(c) for c in z.children())
    if z3.is_mul(z):
        cs = z.children()
        if len(cs) == 2 and cs[0].eq(cs[1]):
            return True
        n = numeral(cs[0])
        if n is not None and n >= 0 and len(cs) == 3 and cs[1].eq(cs[2]):
            return True
        return builtins.all(_sos(c) for c in cs)
    return False


def m_sqrt(x):
    z = to_real(x)
    n = numeral(z3.simplify(z))
    if n is not None and n >= 0:
        import math

        a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if a * a == n.numerator and b * b == n.denominator:
            return SymReal(rv(Fraction(a, b)))
    if not _sos(z) and eng().branch(z < 0):
        raise DomainError("sqrt of a negative number")
    return SymReal(eng().app_sqrt(z))


def _pi_multiple(z):
    """k such that z == k*pi syntactically, else None."""
    s = z3.simplify(z, som=True)
    n = numeral(s)
    if n is not None:
        return Fraction(0) if n == 0 else None
    if s.eq(PI):
        return Fraction(1)
    if z3.is_mul(s) and s.num_args() == 2:
        a = numeral(s.arg(0))
        if a is not None and s.arg(1).eq(PI):
            return a
    return None


def _neg_lead(s):
    """True when the (simplified) term is syntactically negative."""
    if z3.is_mul(s):
        n = numeral(s.arg(0))
        return n is not None and n < 0
    if z3.is_add(s):
        return builtins.all(_neg_lead(c) for c in s.children())
    n = numeral(s)
    return n is not None and n < 0


_SIN = {0: 0, 1: 1, 2: 0, 3: -1}


def _trig(x, which):
    z = to_real(x)
    k = _pi_multiple(z)
    if k is not None and (2 * k).denominator == 1:
        q = int(2 * k) % 4
        return SymReal(z3.RealVal(_SIN[q] if which == "sin" else _SIN[(q + 1) % 4]))
    s = z3.simplify(z, som=True)
    q = 0
    if z3.is_add(s):
        # whole quarter turns
        rest = []
        for c in s.children():
            k = _pi_multiple(c)
            if k is not None and k != 0 and (2 * k).denominator == 1:
                q += int(2 * k)
            else:
                rest.append(c)
        if q:
            s = z3.simplify(z3.Sum(*rest) if len(rest) > 1 else rest[0], som=True)
    neg = _neg_lead(s)
    if neg:
        s = z3.simplify(-s, som=True)
    sn, cn = eng().app_trig(s)
    if neg:
        sn = -sn
    # sin(a + q pi/2), cos(a + q pi/2)
    sn, cn = [(sn, cn), (cn, -sn), (-sn, -cn), (-cn, sn)][q % 4]
    return SymReal(cn if which == "cos" else sn)


def m_sin(x):
    return _trig(x, "sin")


def m_cos(x):
    return _trig(x, "cos")


def m_tan(x):
    z = to_real(x)
    return SymReal(eng().app_tan(z))


def m_atan2(y, x):
    return SymReal(eng().app_atan2(to_real(y), to_real(x)))


def m_atan(x):
    return m_atan2(x, SymReal(z3.RealVal(1)))


def pi_val():
    return SymReal(PI)


def m_deg2rad(x):
    return SymReal(rmul(to_real(x), rmul(rv(Fraction(1, 180)), PI)))


def m_rad2deg(x):
    return SymReal(rmul(to_real(x), z3.RealVal(180)) / PI)


def m_pow(b, e):
    if not is_sym(e):
        fe = frac(e)
        if fe.denominator == 1 and -8 <= fe <= 12:
            n = int(fe)
            if n == 0:
                return SymReal(z3.RealVal(1)) if not isinstance(b, SymInt) else SymInt(z3.IntVal(1))
            r = b
            for _ in builtins.range(builtins.abs(n) - 1):
                r = r * b
            if n < 0:
                return SymReal(z3.RealVal(1)) / r
            return r
        if fe == Fraction(1, 2):
            return m_sqrt(b)
        if fe == Fraction(3, 2):
            return m_sqrt(b) * b
        if fe == Fraction(-1, 2):
            return SymReal(z3.RealVal(1)) / m_sqrt(b)
    return SymReal(eng().app_pow(to_real(b), to_real(e)))


def m_floor(x):
    if isinstance(x, SymInt):
        return x
    return SymInt(z3.ToInt(to_real(x)))


def m_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    return SymReal(eng().app_round(to_real(x), 0 if n is None else n))


def m_min(*a):
    r = a[0]
    for b in a[1:]:
        r = ite(b < r, b, r) if any_sym(b, r) else builtins.min(r, b)
    return r


def m_max(*a):
    r = a[0]
    for b in a[1:]:
        r = ite(b > r, b, r) if any_sym(b, r) else builtins.max(r, b)
    return r

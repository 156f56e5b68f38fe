"""Contracts of geometry.vector."""
from ..reg import contract

V = "geometry.vector:Vector3."


def cs(v):
    return [v.x, v.y, v.z]


def untouched(c, name, v, old):
    c.check_vec(name + " leaves its operand unchanged", v, old)


@contract("vec.construct", ["P01"], [V + "__init__", V + "from_coordinates", V + "vec"])
def construct(c):
    """Constructors store exactly the given coordinates."""
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    V3 = c.M.vector.Vector3
    v = V3(x, y, z)
    c.check_vec("Vector3(x, y, z)", v, (x, y, z))
    w = V3(v)
    c.check_vec("Vector3(v)", w, (x, y, z))
    c.check("Vector3(v) is a new object", w is not v)
    c.check_vec("Vector3(x=, y=, z=)", V3(x=x, y=y, z=z), (x, y, z))
    c.check_vec("missing coordinates are zero", V3(x), (x, 0, 0))
    c.check_vec("missing z is zero", V3(x, y), (x, y, 0))
    c.check_vec("from_coordinates", V3.from_coordinates([x, y, z]), (x, y, z))
    a = v.vec
    for k, e in enumerate((x, y, z)):
        c.check(f"vec[{k}]", c.eq(a[k], e))
    c.check("a non-number is rejected", c.raises(lambda: V3("1", 2, 3)))
    c.check("None is rejected", c.raises(lambda: V3(None, 2, 3)))
    c.check("no arguments is rejected", c.raises(lambda: V3()))


@contract("vec.arith", ["P01"], [V + m for m in ("__add__", "__sub__", "__neg__", "__mul__", "__rmul__", "__truediv__")])
def arith(c):
    """+, -, unary -, scaling and division are componentwise and pure."""
    a, b, k = c.vec("a"), c.vec("b"), c.real("k")
    A, B = cs(a), cs(b)
    c.check_vec("a + b", a + b, [p + q for p, q in zip(A, B)])
    c.check_vec("a - b", a - b, [p - q for p, q in zip(A, B)])
    c.check_vec("-a", -a, [-p for p in A])
    c.check_vec("a * k", a * k, [p * k for p in A])
    c.check_vec("k * a", k * a, [p * k for p in A])
    c.check_vec("2 * a", 2 * a, [2 * p for p in A])
    d = c.real("d", nonzero=True)
    c.check_vec("a / d", a / d, [p / d for p in A])
    c.check_vec("a + b - b", a + b - b, A)
    untouched(c, "arithmetic", a, A)
    untouched(c, "arithmetic (right)", b, B)
    s = a + b
    c.check("a + b is a new vector", s is not a and s is not b)
    c.check("a * k is a new vector", (a * k) is not a)
    for nm, f in (("add", lambda: a + 1.0), ("sub", lambda: a - 1.0)):
        c.check(f"{nm} of a non-vector is rejected", c.raises(f))


@contract("vec.inplace", ["P01"], [V + m for m in ("__imul__", "__itruediv__", "normalize")])
def inplace(c):
    """In-place scaling updates exactly the target."""
    a, k = c.vec("a"), c.real("k")
    A = cs(a)
    w = c.M.vector.Vector3(a)
    alias = w
    w *= k
    c.check_vec("v *= k", w, [p * k for p in A])
    c.check("v *= k keeps the object", w is alias)
    d = c.real("d", nonzero=True)
    u = c.M.vector.Vector3(a)
    alias = u
    u /= d
    c.check_vec("v /= d", u, [p / d for p in A])
    c.check("v /= d keeps the object", u is alias)
    c.check_vec("the copied-from vector is unchanged", a, A)
    m = c.norm(a)
    c.assume(m > (0 if c.symbolic else 1e-6))
    n = c.M.vector.Vector3(a)
    n.normalize()
    c.check_vec("normalize", n, [p / m for p in A])
    c.check("|normalize| == 1", c.eq(n.x * n.x + n.y * n.y + n.z * n.z, 1))


@contract("vec.norms", ["P01"], [V + m for m in ("__abs__", "norm", "unit", "dot")] + ["geometry.vector:cross_product"])
def norms(c):
    """Magnitude, unit vector, dot and cross product."""
    a, b = c.vec("a"), c.vec("b")
    A, B = cs(a), cs(b)
    sq = A[0] * A[0] + A[1] * A[1] + A[2] * A[2]
    c.check("abs(a)^2 == a.a", c.eq(abs(a) * abs(a), sq))
    c.check("abs(a) >= 0", abs(a) >= 0)
    c.check("norm^2 == a.a", c.eq(a.norm * a.norm, sq))
    c.check("norm >= 0", a.norm >= 0)
    c.check("a.b", c.eq(a.dot(b), A[0] * B[0] + A[1] * B[1] + A[2] * B[2]))
    c.check("a.b == b.a", c.eq(a.dot(b), b.dot(a)))
    x = c.M.vector.cross_product(a, b)
    c.check_vec("a x b", x, (A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]))
    c.check("dot of a non-vector is rejected", c.raises(lambda: a.dot(1.0)))
    untouched(c, "products", a, A)
    untouched(c, "products (right)", b, B)
    c.assume(abs(a) > (0 if c.symbolic else 1e-6))
    u = a.unit
    c.check("|unit| == 1", c.eq(u.x * u.x + u.y * u.y + u.z * u.z, 1))
    m = abs(a)
    c.check_vec("unit * |a| == a", u * m, A)
    k = 1 if c.symbolic else c.choice("scale", [1, 1e-9, 1e9])
    w = (a * k).unit
    c.check_vec("unit vectors do not depend on the length", w, cs(u))


@contract("vec.compare", ["P01"], [V + "__eq__", "geometry.vector:approximately_equal_vectors"])
def compare(c):
    """Equality is exact and componentwise; approximate equality is the
    componentwise mixed tolerance."""
    a, b = c.vec("a"), c.vec("b")
    A, B = cs(a), cs(b)
    c.check("a == b", bool(a == b) == bool(c.And(*[p == q for p, q in zip(A, B)])))
    c.check("v == copy", bool(a == c.M.vector.Vector3(a)))
    c.check("comparison with a non-vector is rejected", c.raises(lambda: a == 1.0))
    f = c.M.vector.approximately_equal_vectors
    r, t = c.real("rtol", 0, 1), c.real("atol", 0, 1)
    near = c.And(*[c.abs(p - q) <= t + r * c.abs(q) for p, q in zip(A, B)])
    c.check("approximately_equal_vectors", bool(f(a, b, r, t)) == bool(near))
    c.check("a vector approximately equals itself", bool(f(a, a)))
    dflt = c.And(*[c.abs(p - q) <= 1e-5 + 1e-2 * c.abs(q) for p, q in zip(A, B)])
    c.check("default tolerances", bool(f(a, b)) == bool(dflt))


@contract("vec.frames", ["P02"], [V + "transform_to_global_frame", V + "transform_to_local_frame"])
def frames(c):
    """Local/global change of frame is the stated linear map; the two are
    inverse for an orthonormal frame."""
    p, n, t1, t2, o = [c.vec(q) for q in ("p", "n", "t1", "t2", "o")]
    P, N, T1, T2, O = map(cs, (p, n, t1, t2, o))
    V3 = c.M.vector.Vector3
    with_c = c.flag("with_origin")
    g = V3(p)
    r = g.transform_to_global_frame(n, t1, t2, o) if with_c else g.transform_to_global_frame(n, t1, t2)
    c.check_vec("to global", g, [P[0] * N[i] + P[1] * T1[i] + P[2] * T2[i] + (O[i] if with_c else 0) for i in range(3)])
    c.check("to global returns the vector itself", r is g)
    l = V3(p)
    q = l.transform_to_local_frame(n, t1, t2, o) if with_c else l.transform_to_local_frame(n, t1, t2)
    D = [P[i] - (O[i] if with_c else 0) for i in range(3)]
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    c.check_vec("to local", q, [dot(D, N), dot(D, T1), dot(D, T2)])
    for nm, v, old in (("n", n, N), ("t1", t1, T1), ("t2", t2, T2), ("origin", o, O), ("source", p, P)):
        c.check_vec(f"frame argument {nm} unchanged", v, old)


@contract("vec.roundtrip", ["P02"], [V + "transform_to_global_frame", V + "transform_to_local_frame"])
def roundtrip(c):
    """to_local(to_global(p)) == p and back, for every orthonormal frame."""
    V3 = c.M.vector.Vector3
    p, o = c.vec("p"), c.vec("o")
    P = cs(p)
    if c.symbolic:
        n, t1, t2 = c.vec("n"), c.vec("t1"), c.vec("t2")
        rows = [cs(n), cs(t1), cs(t2)]
        dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
        for i in range(3):
            for j in range(i, 3):
                c.assume(dot(rows[i], rows[j]) == (1 if i == j else 0))
        for i in range(3):
            # the transpose of an orthogonal matrix is orthogonal
            for j in range(i, 3):
                c.assume(rows[0][i] * rows[0][j] + rows[1][i] * rows[1][j] + rows[2][i] * rows[2][j] == (1 if i == j else 0))
    else:
        import numpy as np
        m = np.array([[c.real(f"m{i}{j}") for j in range(3)] for i in range(3)])
        q, _ = np.linalg.qr(m + 3 * np.eye(3))
        n, t1, t2 = [V3(*map(float, q[i])) for i in range(3)]
    a = V3(p).transform_to_global_frame(n, t1, t2, o).transform_to_local_frame(n, t1, t2, o)
    c.check_vec("local(global(p)) == p", a, P)
    b = V3(p).transform_to_local_frame(n, t1, t2, o).transform_to_global_frame(n, t1, t2, o)
    c.check_vec("global(local(p)) == p", b, P)

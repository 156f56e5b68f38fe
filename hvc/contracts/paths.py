"""Contracts of the basic paths in geometry.path."""
from ..reg import contract

P = "geometry.path:"


def cs(v):
    return [v.x, v.y, v.z]


def lerp(A, B, t):
    return [a * (1 - t) + b * t for a, b in zip(A, B)]


def scramble(c, v):
    """Change a vector in place after it has been handed over."""
    v *= 3.0
    v._x = v._x + 1.0


@contract("path.line", ["P03", "P25"], [P + "Line." + m for m in ("__init__", "__call__", "length", "__add__")])
def line(c):
    p0, p1, o, t = c.vec("p0"), c.vec("p1"), c.vec("o"), c.real("t")
    A, B, O = cs(p0), cs(p1), cs(o)
    L = c.M.path.Line(p0, p1)
    c.check_vec("line(t) is the affine interpolation", L(t), lerp(A, B, t))
    c.check_vec("line(0) is the first point", L(0.0), A)
    c.check_vec("line(1) is the second point", L(1.0), B)
    l = L.length()
    c.check("length^2", c.eq(l * l, sum((a - b) * (a - b) for a, b in zip(A, B))))
    c.check("length >= 0", l >= 0)
    M = L + o
    c.check_vec("line + offset", M(t), [a + b for a, b in zip(lerp(A, B, t), O)])
    c.check("line + non-vector is refused", c.raises(lambda: L + 1.0))
    c.check_vec("the original line is not moved", L(t), lerp(A, B, t))
    q = L(t)
    scramble(c, q)
    q = L(0.0)
    scramble(c, q)
    q = L(1.0)
    scramble(c, q)
    c.check_vec("modifying a returned point does not change the line", L(t), lerp(A, B, t))
    scramble(c, p0)
    scramble(c, p1)
    c.check_vec("modifying the end points afterwards does not change the line", L(t), lerp(A, B, t))


class Casteljau:
    """The de Casteljau triangle of arbitrarily many control points."""

    def __init__(self, c, pts, t):
        self.c, self.pts, self.t = c, pts, t

    def __call__(self, k, i):
        import z3
        from ..sym import SymReal, SymInt, to_int
        c = self.c
        kz, iz = z3.simplify(to_int(k)), z3.simplify(to_int(i))
        key = ("D", kz.get_id(), iz.get_id())
        f = [z3.Function(f"D{a}", z3.IntSort(), z3.IntSort(), z3.RealSort()) for a in range(3)]
        if key not in c.E.cache:
            c.E.cache[key] = (kz, iz)
            b = cs(c.getitem(self.pts, SymInt(iz)))
            t = self.t.z
            for a in range(3):
                c.E.axiom(z3.Implies(kz == 0, f[a](kz, iz) == b[a].z))
                c.E.axiom(z3.Implies(kz >= 1, f[a](kz, iz) == f[a](kz - 1, iz) * (1 - t) + f[a](kz - 1, iz + 1) * t))
        return c.M.vector.Vector3(*[SymReal(g(kz, iz)) for g in f])


def bernstein(pts, t):
    from math import comb
    n = len(pts) - 1
    return [sum(comb(n, i) * t**i * (1 - t) ** (n - i) * cs(p)[a] for i, p in enumerate(pts)) for a in range(3)]


@contract("path.bezier", ["P03"], [P + "Bezier.__init__", P + "Bezier.__call__"], cost=3)
def bezier(c):
    """For any number of control points the loops compute the de Casteljau
    triangle; the box and end point clauses follow by induction over it."""
    lo, hi = c.vec("lo"), c.vec("hi")
    V = c.M.vector.Vector3
    if c.symbolic:
        for a in "xyz":
            c.assume(getattr(lo, a) <= getattr(hi, a))
        pts = c.seq("B", 1, lambda i: V(*[c.real("B." + a, at=i, lo=getattr(lo, a), hi=getattr(hi, a)) for a in "xyz"]))
    else:
        pts = c.seq("B", 1, lambda i: c.vec("B", at=i), sample=(1, 14 if c.rare() else 7))
        lo = V(*[min(getattr(p, a) for p in pts) for a in "xyz"])
        hi = V(*[max(getattr(p, a) for p in pts) for a in "xyz"])
    which = c.choice("t", ["inside", "start", "end"])
    t = {"inside": c.unit("t"), "start": 0.0, "end": 1.0}[which]
    if c.symbolic and which != "inside":
        from ..sym import mkreal
        t = mkreal(t)
    bz = c.M.path.Bezier(pts)
    n = c.length(pts) - 1
    if c.symbolic:
        D = Casteljau(c, pts, t)
        from ..coll import HvList

        def outer_state(k):
            return [HvList.sym(n + 1, lambda j: D(c.ite(k < n - j, k, n - j), j))]

        def inner_state(i):
            k = outer.ks[-1]
            D(k + 1, i)
            return [HvList.sym(n + 1, lambda j: D(c.ite(j < i, k + 1, c.ite(k < n - j, k, n - j)), j))]

        c.invariant("columns of the triangle", n, outer_state)
        outer = c.E.invariants[-1]
        c.invariant("entries of a column", lambda: n - outer.ks[-1] if outer.ks else n + 1000, inner_state)
    p = bz(t)
    if c.symbolic:
        spec = D(n, 0)
        zero = c.E.fresh("z", "int")
        c.check_vec("curve is the de Casteljau combination", p, D(n, c.E_zero()))
        if which == "start":
            for a in "xyz":
                c.induct_triangle(f"start {a}", lambda k, i: getattr(D(k, i), a) == getattr(c.getitem(pts, i), a), n)
        if which == "end":
            for a in "xyz":
                c.induct_triangle(f"end {a}", lambda k, i: getattr(D(k, i), a) == getattr(c.getitem(pts, i + k), a), n)
        for a in "xyz":
            c.induct_triangle(f"box {a}", lambda k, i: c.And(getattr(D(k, i), a) >= getattr(lo, a), getattr(D(k, i), a) <= getattr(hi, a)), n)
    else:
        c.check_vec("curve is the de Casteljau combination", p, bernstein(pts, t))
    for a in "xyz":
        e = 0 if c.symbolic else 1e-9 * (1 + abs(getattr(lo, a)) + abs(getattr(hi, a)))
        c.check(f"curve stays in the box [{a}]", c.And(getattr(p, a) >= getattr(lo, a) - e, getattr(p, a) <= getattr(hi, a) + e))
    if which == "start":
        c.check_vec("curve starts at the first point", p, c.getitem(pts, 0))
    if which == "end":
        c.check_vec("curve ends at the last point", p, c.getitem(pts, n))


@contract("path.bezier.small", ["P03", "P25"], [P + "Bezier.__init__", P + "Bezier.__call__"])
def bezier_small(c):
    """One to four control points, closed form; copies and purity."""
    n = c.choice("n", [1, 2, 3, 4])
    pts = [c.vec(f"b{i}") for i in range(n)]
    B = [cs(p) for p in pts]
    t = c.real("t")
    u = 1 - t
    bz = c.M.path.Bezier(pts)
    W = {1: [1], 2: [u, t], 3: [u * u, 2 * u * t, t * t], 4: [u * u * u, 3 * u * u * t, 3 * u * t * t, t * t * t]}[n]
    want = [sum(w * b[a] for w, b in zip(W, B)) for a in range(3)]
    q = bz(t)
    c.check_vec("Bernstein form", q, want)
    c.check_vec("evaluated again", bz(t), want)
    scramble(c, q)
    scramble(c, bz(0.0))
    scramble(c, bz(1.0))
    c.check_vec("modifying a returned point does not change the curve", bz(t), want)
    for p in pts:
        scramble(c, p)
    c.check_vec("modifying the control points afterwards does not change the curve", bz(t), want)
    c.check("a list of non-points is refused", c.raises(lambda: c.M.path.Bezier(["a"]), ValueError))


def polyline_inputs(c):
    segs = c.seq("seg", 1, lambda i: c.apath("seg", at=i), sample=(1, 4))
    return segs


def shares(c, segs, pairs=lambda n, i: []):
    """Total length and the facts about the breakpoints."""
    n = c.length(segs)
    L = lambda k: c.getitem(segs, k).length()
    T = c.total(n, L, rep=segs)
    if c.symbolic:
        i = c.any_index(n)
        c.prefix(n, L, i, rep=segs)
        c.monotone_prefix("segment lengths are positive", n, L,
                          [(0, n), (0, i), (i, i + 1), (i + 1, n), (i, n), (0, i + 1)] + pairs(n, i), rep=segs)
    return n, L, T


@contract("path.polyline", ["P04"], [P + "Polyline." + m for m in ("__init__", "reset_breakpoints", "__call__", "length")], cost=3)
def polyline(c):
    segs = polyline_inputs(c)
    k = c.index("k", c.length(segs))
    n, L, T = shares(c, segs, lambda n, i: [(k, n), (k + 1, n), (0, k), (i + 1, k), (i, k), (k + 1, i), (k, i)])
    lo, hi = c.prefix(n, L, k, rep=segs), c.prefix(n, L, k + 1, rep=segs)
    pl = c.M.path.Polyline(segs)
    c.check("length is the sum of the segment lengths", c.eq(pl.length(), T))
    u = c.unit("u")
    c.assume(c.Or(u > 0, c.eq(k, 0)))
    t = (lo + u * (hi - lo)) / T
    p = pl(t)
    c.single_term("only the segment containing the parameter contributes", k)
    c.check_vec("value within the share of segment k", p, c.getitem(segs, k)(u))


@contract("path.polyline.ends", ["P04"], [P + "Polyline." + m for m in ("__init__", "reset_breakpoints", "__call__")], cost=2)
def polyline_ends(c):
    segs = polyline_inputs(c)
    n, L, T = shares(c, segs, lambda n, i: [(i, n - 1), (i + 1, n - 1), (n - 1, n), (1, n), (1, i)])
    c.prefix(n, L, n - 1, rep=segs)
    c.prefix(n, L, 0, rep=segs)
    pl = c.M.path.Polyline(segs)
    if c.flag("end"):
        p = pl(1.0)
        c.single_term("only the last segment contributes", n - 1)
        c.check_vec("ends at the end of the last segment", p, c.getitem(segs, n - 1)(1.0))
    else:
        p = pl(0.0)
        c.single_term("only the first segment contributes", 0)
        c.check_vec("starts at the start of the first segment", p, c.getitem(segs, 0)(0.0))


@contract("path.polyline.closed", ["P04"], [P + "Polyline." + m for m in ("__init__", "reset_breakpoints", "__call__")], cost=3)
def polyline_closed(c):
    """A closed polyline returns to its start (within the closing tolerance),
    and a closing segment is only added when the segments leave a gap."""
    segs = polyline_inputs(c)
    tol = c.real("tol", lo=0, hi=1)
    n, L, T = shares(c, segs, lambda n, i: [(i, n - 1), (i + 1, n - 1), (n - 1, n), (1, n), (1, i)])
    for q in (n - 1, 0, n):
        c.prefix(n, L, q, rep=segs)
    p0, p1 = c.getitem(segs, 0)(0.0), c.getitem(segs, n - 1)(1.0)
    gap = c.norm(p1 - p0)
    if c.symbolic:
        i = c.any_index(n + 1)
        c.prefix(n, L, i, rep=segs)
        c.prefix(n, L, i - 1, rep=segs)
        c.monotone_prefix("breakpoints increase", n, L, [(0, i), (i, i + 1), (i + 1, n), (i, n), (0, i + 1)], rep=segs)
        from ..coll import HvList
    else:
        if c.flag("already closed"):
            # make the last segment end exactly where the first one starts
            last = c.getitem(segs, n - 1)
            d = p0 - p1
            class Shifted(c.M.path.Path):
                def __repr__(s): return "Shifted"
                def __call__(s, t): return last(t) + d * t
            segs[n - 1] = Shifted()
            p1 = segs[n - 1](1.0)
            gap = c.norm(p1 - p0)
        # rounding decides about gaps this small
        c.assume(gap > 1e-9 or tol > 1e-9)
    pl = c.M.path.Polyline(segs, closed=True, tolerance=tol)
    closes = gap > tol
    which = c.choice("end", ["start", "end"])
    if bool(closes):
        c.check("one closing segment is added", c.eq(c.length(pl.segments), n + 1))
        if which == "start":
            p = pl(0.0)
            c.single_term("only the first segment contributes", 0)
            c.check_vec("starts at the start of the first segment", p, p0)
        else:
            p = pl(1.0)
            c.single_term("only the closing segment contributes", n)
            c.check_vec("ends where it starts", p, p0)
    else:
        c.check("no closing segment is added", c.eq(c.length(pl.segments), n))
        p = pl(1.0) if which == "end" else pl(0.0)
        c.single_term("one segment contributes", n - 1 if which == "end" else 0)
        c.check_vec("ends at the end of the last segment", p, p1 if which == "end" else p0)


def slope(f, at):
    """Direction (3/2 of the derivative) of a cubic at one of its ends, from four of its points."""
    a, b, d, e = [f(t) for t in ((0.0, 0.25, 0.5, 0.75) if at == 0 else (1.0, 0.75, 0.5, 0.25))]
    return (-11 * a + 18 * b - 9 * d + 2 * e) * (1 if at == 0 else -1)


def bend(f, at):
    """Second derivative of a cubic at one of its ends, from four of its points."""
    a, b, d, e = [f(t) for t in ((0.0, 0.25, 0.5, 0.75) if at == 0 else (1.0, 0.75, 0.5, 0.25))]
    return 16 * (2 * a - 5 * b + 4 * d - e)


@contract("path.spline", ["P04"], [P + "Spline.__init__"], cost=2, stubs=["path.polyline"])
def spline(c):
    """The segments of a spline join the given points in order, whatever the
    inner weight points the iteration settles on."""
    pts = c.seq("pt", 2, lambda i: c.vec("pt", at=i), sample=(2, 6))
    n = c.length(pts)
    closed = c.flag("closed")
    gap = c.norm(c.getitem(pts, 0) - c.getitem(pts, n - 1))
    adds = bool(gap > 1e-10) if closed else False
    m = n if adds else n - 1
    if c.symbolic:
        c.symbolic_ranges(20)
        c.invariant("weight points (sweeps)", 50, lambda k: [c.any_vectors(m + 1)])
        c.invariant("weight points (one sweep)", lambda: m - 1, lambda k: [c.any_vectors(m + 1)])
    else:
        c.assume(all(c.norm(pts[i + 1] - pts[i]) > 1e-3 for i in range(n - 1)))
    sp = c.M.path.Spline(pts, closed=True) if closed else c.M.path.Spline(pts)
    k = c.index("k", n - 1)
    seg = c.getitem(sp.segments, k)
    c.check("one segment per pair of points", c.eq(c.length(sp.segments), m))
    c.check_vec("segment k starts at point k", seg(0.0), c.getitem(pts, k))
    c.check_vec("segment k ends at point k+1", seg(1.0), c.getitem(pts, k + 1))
    if c.symbolic:
        k = c.index("j", n - 2)
        seg = c.getitem(sp.segments, k)
    nxt = c.getitem(sp.segments, k + 1) if bool(k + 1 < n - 1) else None
    if nxt is not None:
        c.check_vec("no jump in curvature at point k+1", bend(seg, 1), bend(nxt, 0))
    if adds:
        last = c.getitem(sp.segments, n - 1)
        c.check_vec("the closing segment starts at the last point", last(0.0), c.getitem(pts, n - 1))
        c.check_vec("the closing segment ends at the first point", last(1.0), c.getitem(pts, 0))
    if not c.symbolic:
        c.check_vec("spline starts at the first point", sp(0.0), pts[0])
        c.check_vec("spline ends at the last point", sp(1.0), pts[0] if adds else pts[-1])


@contract("path.spline.smooth", ["P04"], [P + "Spline.__init__"], cost=3, stubs=["path.polyline"])
def spline_smooth(c):
    """The direction does not jump at an inner point: the two one-sided
    directions agree within the tolerance of the iteration."""
    pts = c.seq("pt", 3, lambda i: c.vec("pt", at=i), sample=(3, 6))
    n = c.length(pts)
    closed = c.flag("closed")
    gap = c.norm(c.getitem(pts, 0) - c.getitem(pts, n - 1))
    tol = c.real("tol", lo=1e-9, hi=0.1)
    adds = bool(gap > tol) if closed else False
    m = n if adds else n - 1
    j = c.index("j", m - 1) + 1
    if c.symbolic:
        def claims(k, lists, numbers):
            (d,), (top,) = lists, numbers
            w, p = [cs(c.getitem(d, j + q)) for q in (-1, 0, 1)], cs(c.getitem(pts, j))
            rest = [w[0][a] + 4 * w[1][a] + w[2][a] - 6 * p[a] for a in range(3)]
            yield top >= 0
            if bool(c.eq(j, k)):
                yield from [c.eq(r, 0) for r in rest]
            elif bool(j < k):
                yield from [f for r in rest for f in (r <= top, -r <= top)]

        c.symbolic_ranges(20)
        c.norm_bounds()
        c.invariant("weight points (sweeps)", 50, lambda k: [c.any_vectors(m + 1)],
                    stops="the weight points of a spline converge to the tolerance within 50 sweeps")
        c.invariant("weight points (one sweep)", lambda: m - 1, lambda k: [c.any_vectors(m + 1)], claims=claims)
    else:
        c.assume(all(c.norm(pts[i + 1] - pts[i]) > 1e-3 for i in range(n - 1)))
    sp = c.M.path.Spline(pts, closed, tolerance=tol)
    u, v = cs(slope(c.getitem(sp.segments, j - 1), 1)), cs(slope(c.getitem(sp.segments, j), 0))
    for k, a, b in zip("xyz", u, v):
        c.check(f"no jump in direction at an inner point [{k}]", c.And(a - b <= 2 * tol, b - a <= 2 * tol))


@contract("path.arc", ["P05"], [P + "Arc." + m for m in ("__init__", "__call__", "length", "evaluate_position_and_length")], cost=4)
def arc(c):
    """Every circular arc is given by its centre, an orthonormal frame, the
    radius and the swept angle between 0 and pi (exclusive)."""
    e1, e2, e3 = c.frame()
    m = c.vec("c")
    r, phi, t = c.pos("r"), c.real("phi", lo=0, hi=c.pi), c.real("t")
    c.assume(c.And(phi > (0 if c.symbolic else 1e-3), phi < c.pi - (0 if c.symbolic else 1e-3)))
    E1, E2, C = cs(e1), cs(e2), cs(m)
    cp, sp = c.cos(phi), c.sin(phi)
    A = [x + r * u for x, u in zip(C, E1)]
    B = [x + r * (cp * u + sp * v) for x, u, v in zip(C, E1, E2)]
    V = c.M.vector.Vector3
    a, b = V(*A), V(*B)
    c.hint_norm(r, r * r * sp, 1)
    c.hint_angle(phi, r)
    ar = c.M.path.Arc(a, b, m)
    ct, st = c.cos(phi * t), c.sin(phi * t)
    at = lambda co, si: [x + r * (co * u + si * v) for x, u, v in zip(C, E1, E2)]
    c.check_vec("uniform sweep of the smaller angle", ar(t), at(ct, st))
    c.check_vec("starts at the first point", ar(0.0), A)
    c.check_vec("ends at the second point", ar(1.0), B)
    c.check("length is radius times angle", c.eq(ar.length(), r * phi))
    q = ar(t)
    scramble(c, q)
    scramble(c, a)
    scramble(c, b)
    scramble(c, m)
    c.check_vec("later changes to the points do not alter the arc", ar(t), at(ct, st))


@contract("path.arc.refuse", ["P05"], [P + "Arc.evaluate_position_and_length"])
def arc_refuse(c):
    """Radii differing by more than 1e-5, or collinear points, are refused."""
    a, m = c.vec("a"), c.vec("c")
    A, C = cs(a), cs(m)
    V = c.M.vector.Vector3
    U = [x - y for x, y in zip(A, C)]
    t = c.unit("t")
    if c.flag("collinear"):
        k = c.choice("k", [1.0, -1.0])
        r2 = sum(u * u for u in U)
        c.assume(r2 > 1e-6)
        ar = c.M.path.Arc(a, V(*[x + k * u for x, u in zip(C, U)]), m)
        if c.symbolic or k == 1.0:
            c.check("collinear points are refused", c.raises(lambda: ar(t)))
    else:
        b = c.vec("b")
        r1, r2 = c.norm(a - m), c.norm(b - m)
        if not c.symbolic and c.flag("nearly the same radius"):
            c.assume(r2 > 1e-3)
            b = m + (b - m) * ((r1 + c.choice("gap", [2e-5, 1e-4, 1e-3])) / r2)
            r2 = c.norm(b - m)
        c.assume(c.Or(r1 - r2 > 1.1e-5, r2 - r1 > 1.1e-5))
        ar = c.M.path.Arc(a, b, m)
        c.check("different radii are refused", c.raises(lambda: ar(t)))
        c.check("different radii have no length", c.raises(lambda: ar.length()))

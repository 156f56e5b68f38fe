"""Contracts of paths derived from other paths or surfaces."""
from ..reg import contract
from .paths import P, cs, scramble

G = "geometry.geometry:"


def pure(c, what, fn, args, want):
    """fn(*args) gives want, again after other evaluations and after the
    returned point was modified."""
    q = fn(*args)
    c.check_vec(what, q, want)
    scramble(c, q)
    scramble(c, fn(*[0.0 for _ in args]))
    scramble(c, fn(*[1.0 for _ in args]))
    c.check_vec(what + " (again, after modifying returned points)", fn(*args), want)


@contract("path.subrange", ["P06", "P25"], [G + "SubRangedPath.__init__", G + "SubRangedPath.__call__", G + "ReversedPath.__init__"])
def subrange(c):
    p = c.apath("p")
    t, t0, t1 = c.real("t"), c.real("t0"), c.real("t1")
    s = c.M.geometry.SubRangedPath(p, t0, t1)
    pure(c, "sub-ranged path follows the path linearly", s, (t,), cs(p(t0 + t * (t1 - t0))))
    c.check_vec("starts at the first parameter", s(0.0), cs(p(t0)))
    c.check_vec("ends at the second parameter", s(1.0), cs(p(t1)))
    u0, u1 = c.real("u0"), c.real("u1")
    s2 = c.M.geometry.SubRangedPath(s, u0, u1)
    w = u0 + t * (u1 - u0)
    c.check_vec("sub-range of a sub-range", s2(t), cs(p(t0 + w * (t1 - t0))))
    r = c.M.geometry.ReversedPath(p)
    pure(c, "reversed path runs backwards", r, (t,), cs(p(1 - t)))
    c.check_vec("reversed twice", c.M.geometry.ReversedPath(r)(t), cs(p(t)))
    c.check_vec("reversed sub-range", c.M.geometry.ReversedPath(s)(t), cs(p(t0 + (1 - t) * (t1 - t0))))
    c.check("a reversed path is a path", isinstance(r, c.M.path.Path))
    c.check("something that is not a path is refused", c.raises(lambda: c.M.geometry.SubRangedPath(3.0, t0, t1)))


@contract("path.offset", ["P06", "P25"], [G + "OffsetPathFunction.__call__", G + "GeometricMeanPathFunction.__call__"])
def offset(c):
    p, q = c.apath("p"), c.apath("q")
    t = c.real("t")
    f = c.vecfun("f", ["x", "y"])
    o = c.M.geometry.OffsetPathFunction(p, f)
    a = p(t)
    d = f(x=a.x, y=a.y)
    pure(c, "offset path adds the offset at the point", o, (t,), [u + v for u, v in zip(cs(a), cs(d))])
    m = c.M.geometry.GeometricMeanPathFunction(p, q)
    b = q(t)
    pure(c, "mean path averages", m, (t,), [(u + v) / 2 for u, v in zip(cs(a), cs(b))])
    mo = c.M.geometry.GeometricMeanPathFunction(o, q)
    c.check_vec("mean with an offset path", mo(t), [(u + w + v) / 2 for u, v, w in zip(cs(a), cs(b), cs(d))])
    g = c.vecfun("g", ["x", "y"])
    oo = c.M.geometry.OffsetPathFunction(o, g)
    e = o(t)
    h = g(x=e.x, y=e.y)
    c.check_vec("offset of an offset path", oo(t), [u + v + w for u, v, w in zip(cs(a), cs(d), cs(h))])


@contract("path.sampled_length", ["P06"], [P + "Path.length"])
def sampled_length(c):
    """Triangle inequality over any number of samples."""
    p = c.apath("p")
    n = c.int("n", 1, sample=(1, 9))
    dt = 1.0 / n
    step = lambda k: c.norm(p((k + 1) * dt) - p(k * dt))
    S = c.total(n, step)
    L = c.M.path.Path.length(p, n)
    c.check("length is the sum of the chords", c.eq(L, S))
    if c.symbolic:
        k = c.fresh_index("k")
        P0 = p(0.0)
        chord = lambda k: c.norm(p(k * dt) - P0)
        sub = lambda a, b: [x - y for x, y in zip(cs(a), cs(b))]
        c.prefix(n, step, k)
        c.prefix(n, step, k + 1)
        c.triangle("next sample", sub(p(k * dt), P0), sub(p((k + 1) * dt), p(k * dt)))
        c.induct_at("distance from the start", lambda k: chord(k) <= c.prefix(n, step, k), n, k)
        c.check_vec("the last sample is the end", p(n * dt), cs(p(1.0)))
        c.check("distance of the ends", c.eq(chord(n), c.norm(p(1.0) - P0)))
    e = 0 if c.symbolic else 1e-9 * (1 + L)
    c.check("not shorter than the distance of the ends", L + e >= c.norm(p(1.0) - p(0.0)))
    c.check("not negative", L >= 0) if not c.symbolic else None


@contract("path.arclength", ["P06"], [P + "ArcLengthParameterizedPath." + m for m in ("__init__", "set_arc_lengths", "underlying_t", "__call__")], cost=3)
def arclength(c):
    p = c.recpath("p")
    n = c.int("n", 1, sample=(1, 9))
    dt = 1.0 / n
    step = lambda k: c.norm(p((k + 1) * dt) - p(k * dt))
    S = c.total(n, step)
    t1, t2 = c.unit("t1"), c.unit("t2")
    c.assume(t1 <= t2)
    if c.symbolic:
        i = c.any_index(n)
        c.assume(step(c.E_zero()) > 0)  # the first piece has a length
        for k in (c.E_zero(), c.E_zero() + 1, i, i + 1):
            c.prefix(n, step, k)
        c.monotone_prefix("chords are not negative", n, step, [(0, n), (1, n), (0, i), (i + 1, n), (i, n)], strict=False)
        c.lemma("some length", S > 0)
    else:
        c.assume(step(0) > 1e-3)
    a = c.M.path.ArcLengthParameterizedPath(p, n=n)
    which = c.choice("which", ["ends", "order", "share"])

    seg = []

    def ev(t):
        m = None
        q = a(t)
        u = p.ts[-1]
        if c.symbolic:
            m = c.segment()
            if m is not None:
                pairs = [(0, m), (m, m + 1), (m + 1, n), (1, m)]
                for o in seg:
                    pairs += [(o + 1, m), (m + 1, o), (o, m), (o + 1, m + 1)]
                c.monotone_prefix("chords are not negative", n, step, pairs, strict=False)
                seg.append(m)
        c.check_vec("returns the point of the underlying path", q, cs(p(u)))
        if m is not None:
            c.lemma("inside its piece", c.And(u * n >= m, u * n <= m + 1))
        c.check("stays on the path", c.And(u >= 0, u <= 1))
        return u

    if which == "ends":
        u = ev(0.0)
        if seg:
            before = c.prefix(n, step, seg[-1])
            c.lemma("nothing before the start", before <= 0)
            c.lemma("something after the first piece", c.Or(seg[-1] < 1, before > 0))
            c.lemma("first piece", c.eq(seg[-1], 0))
            c.lemma("nothing before the first piece", c.eq(c.prefix(n, step, seg[-1]), 0))
        c.check("starts at the start", c.eq(u, 0))
        c.check("ends at the end", c.eq(ev(1.0), 1))
    elif which == "order":
        u1, u2 = ev(t1), ev(t2)
        if len(seg) == 2 and bool(seg[0] < seg[1]):
            c.lemma("order of pieces", u1 * n <= u2 * n)
        elif len(seg) == 2:
            c.lemma("same piece", c.eq(seg[0], seg[1]))
            c.lemma("order within a piece", u1 * n <= u2 * n)
        c.check("same order", u1 <= u2 + (0 if c.symbolic else 1e-9))
    else:
        u = ev(t1)
        if c.symbolic:
            k = seg[-1] if seg else n - 1
        else:
            k = min(int(u * n + 1e-9), n - 1)
        lo, hi = c.prefix(n, step, k), c.prefix(n, step, k + 1)
        c.check("the piece holds the parameter", c.And(u * n >= k - (0 if c.symbolic else 1e-6), u * n <= k + 1))
        c.check("parameter is the share of the sampled length", c.eq(lo + (u * n - k) * (hi - lo), t1 * S))
    c.check("less than one sample is refused", c.raises(lambda: c.M.path.ArcLengthParameterizedPath(p, n=0)))
    c.check("something that is not a path is refused", c.raises(lambda: c.M.path.ArcLengthParameterizedPath(2.0)))


@contract("path.arclength.moved", ["P06"], [P + "ArcLengthParameterizedPath." + m for m in ("__init__", "set_arc_lengths", "underlying_t", "__call__")], cost=2)
def arclength_moved(c):
    """Displacing a path does not change its arc-length parameterisation."""
    p = c.recpath("p")
    d = c.vec("d")
    n = c.int("n", 1, sample=(1, 9))
    t = c.unit("t")
    dt = 1.0 / n
    step = lambda k: c.norm(p((k + 1) * dt) - p(k * dt))
    if c.symbolic:
        i = c.any_index(n)
        for k in (c.E_zero(), c.E_zero() + 1, i, i + 1):
            c.prefix(n, step, k)
        c.monotone_prefix("chords are not negative", n, step, [(0, n), (1, n), (0, i), (i + 1, n), (i, n)], strict=False)
    S = c.total(n, step)
    c.assume(step(0 if not c.symbolic else c.E_zero()) > (0 if c.symbolic else 1e-3))
    a = c.M.path.ArcLengthParameterizedPath(p, n=n)

    class Moved(c.M.path.Path):
        def __repr__(self):
            return "Moved"

        def __call__(self, t):
            return p(t) + d

    b = c.M.path.ArcLengthParameterizedPath(Moved(), n=n)
    u, v = a(t), b(t)
    u, v = p.ts[-2], p.ts[-1]
    if c.symbolic:
        m1, m2 = c.segments()
        if m1 is not None and m2 is not None:
            c.monotone_prefix("chords are not negative", n, step, [(m1 + 1, m2), (m2 + 1, m1), (m1, m2), (m1 + 1, m2 + 1)], strict=False)
            c.lemma("same piece", c.eq(m1, m2))
    c.check("same parameter", c.eq(u, v))


@contract("path.perimeter", ["P06"], [G + "SurfacePerimeter.__call__"])
def perimeter(c):
    """Quarter k of the parameter follows edge k (local parameter rounded to
    eight digits by the code, corners exact)."""
    s = c.recsurf("s")
    t = c.unit("t")
    p = c.M.geometry.SurfacePerimeter(s)
    q = p(t)
    r, v = s.ts[-1]
    c.check_vec("a point of the surface", q, cs(s(r, v)))
    tol = 1e-8
    k = c.choice("edge", [0, 1, 2, 3])
    u = 4 * t - k
    c.assume(c.And(u >= 0, u <= 1))
    want = [(u, 0), (1, u), (1 - u, 1), (0, 1 - u)][k]
    c.check("follows the edge [r]", c.close(r, want[0], tol))
    c.check("follows the edge [s]", c.close(v, want[1], tol))
    c.check("stays on the edge", c.eq([v, r, v, r][k], [0, 1, 1, 0][k]))
    for tt, (a, b) in ((0.0, (0, 0)), (0.25, (1, 0)), (0.5, (1, 1)), (0.75, (0, 1)), (1.0, (0, 0))):
        c.check_vec(f"corner at {tt}", p(tt), cs(s(a, b)))

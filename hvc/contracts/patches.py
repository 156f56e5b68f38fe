"""Contracts of the parametric surfaces."""
from ..reg import contract
from .derived import G, pure
from .paths import cs, lerp, scramble

S = "geometry.surface:"


# ------------------------------------------------------------- edge surfaces
def on_ellipse(c, what, p, a, b, side):
    """p = (0, y, z) lies on the quarter of (y/a)^2 + (z/b)^2 = 1 of that side."""
    x, y, z = p
    c.check(what + ": in the plane", c.eq(x, 0))
    c.check(what + ": on the ellipse", c.eq(y * y * b * b + z * z * a * a, a * a * b * b))
    e = 0 if c.symbolic else 1e-9 * (a + b)
    c.check(what + ": quadrant", c.And(y >= -e, z >= -e) if side == "bot" else c.And(y >= -e, z <= e))


@contract("path.ellipse", ["P07", "P25"], [G + "ElipsePath.__init__", G + "ElipsePath.__call__"], cost=1)
def ellipse(c):
    """Exact in between; at the pole of the tangent the library's huge finite
    value gives the semi-axis point to relative accuracy 1e-9."""
    o = c.vec("o")
    O = cs(o)
    th = c.real("thickness", nonzero=True)
    a = c.pos("width")
    b = c.abs(th)
    c.assume(c.And(b <= 1e6 * a, a <= 1e6 * b))
    r = c.unit("r")
    side = c.choice("side", ["top", "bot"])
    e = c.M.geometry.ElipsePath(o, th, a, side)
    which = c.choice("which", ["inside", "ends", "purity"])
    if which == "inside":
        q = e(r)
        on_ellipse(c, "point", [u - v for u, v in zip(cs(q), O)], a, b, side)
    elif which == "ends":
        tip, axis = (1.0, 0.0) if side == "top" else (0.0, 1.0)
        c.check_vec("runs through the width semi-axis", e(tip), [O[0], O[1] + a, O[2]])
        d = [u - v for u, v in zip(cs(e(axis)), O)]
        k = 1e-9 * (a + b)
        h = b if side == "bot" else -b
        c.check("thickness semi-axis [x]", c.eq(d[0], 0))
        c.check("thickness semi-axis [y]", c.And(d[1] <= k, d[1] >= -k))
        c.check("thickness semi-axis [z]", c.And(d[2] - h <= k, h - d[2] <= k))
    else:
        q = e(r)
        want = cs(q)
        scramble(c, q)
        scramble(c, e(0.0))
        c.check_vec("evaluated again", e(r), want)
        c.check("another side is refused", c.raises(lambda: c.M.geometry.ElipsePath(o, th, a, "left")(0.5)))
        u, v = e(0.0), e(0.001)
        c.check("the first sampled piece has a length", c.Or(u.x != v.x, u.y != v.y, u.z != v.z))


def le_angle(c, line, t):
    """Direction in plan view the ellipse is turned to."""
    if bool(t == 0):
        return 0, 1
    if bool(t == 1):
        return 1, 0
    d = 0.001
    for v in (1 - t, t):
        if bool(v < 0.001):
            d = v
    p, m = line(t + d), line(t - d)
    dx, dy = p.x - m.x, p.y - m.y
    n = c.sqrt(dx * dx + dy * dy)
    c.assume(n > (0 if c.symbolic else 1e-6))
    return -dy / n, dx / n


LE = dict(cost=4, stubs=["path.ellipse", "path.arclength"], tol=1e-6)


@contract("surf.leading_edge.top", ["P07", "P25"], [G + "LeadingEdgePatchFunction.__call__"], **LE)
def leading_edge_top(c):
    leading_edge(c, "top", False)


@contract("surf.leading_edge.bot", ["P07", "P25"], [G + "LeadingEdgePatchFunction.__call__"], **LE)
def leading_edge_bot(c):
    leading_edge(c, "bot", False)


@contract("surf.mean_leading_edge.top", ["P07", "P25"], [G + "MeanLeadingEdgePatchFunction.__call__"], **LE)
def mean_leading_edge_top(c):
    leading_edge(c, "top", True)


@contract("surf.mean_leading_edge.bot", ["P07", "P25"], [G + "MeanLeadingEdgePatchFunction.__call__"], **LE)
def mean_leading_edge_bot(c):
    leading_edge(c, "bot", True)


def leading_edge(c, side, mean):
    line, guide = c.apath("line"), c.apath("guide")
    t0, t1 = c.unit("t0"), c.unit("t1")
    tr, r = c.unit("t_raw"), c.unit("r")
    wf = c.afun("width", 1, pos=True)
    t = t1 - tr * (t1 - t0)
    p = line(t)
    if mean:
        th = p.z - guide(t).z
        s = c.M.geometry.MeanLeadingEdgePatchFunction(line, guide, wf, t0, t1, side)
    else:
        tf = c.vecfun("thickness", ["x", "y"])
        th = tf(x=p.x, y=p.y).z
        s = c.M.geometry.LeadingEdgePatchFunction(line, tf, wf, t0, t1, side)
    a, b = wf(t), c.abs(th)
    c.assume(b > (0 if c.symbolic else 1e-2))
    c.assume(c.And(b <= 1e6 * a, a <= 1e6 * b))
    ca, sa = le_angle(c, line, t)
    q = s(tr, r)
    d = [u - v for u, v in zip(cs(q), cs(p))]
    y = d[0] * ca + d[1] * sa
    c.check("displaced along the normal of the line", c.eq(d[0] * sa - d[1] * ca, 0))
    c.check("on the ellipse", c.eq(y * y * b * b + d[2] * d[2] * a * a, a * a * b * b))
    e = 0 if c.symbolic else 1e-6 * (1 + a + b)
    c.check("quadrant", c.And(y >= -e, d[2] >= -e) if side == "bot" else c.And(y >= -e, d[2] <= e))
    tip = s(tr, 1.0 if side == "top" else 0.0)
    c.check_vec("tip of the ellipse", tip, [p.x + a * ca, p.y + a * sa, p.z])
    k = 1e-5 * (a + b)
    h = b if side == "bot" else -b
    base = s(tr, 0.0 if side == "top" else 1.0)
    for nm, u, v in zip("xyz", cs(base), [p.x, p.y, p.z + h]):
        c.check(f"base of the ellipse [{nm}]", c.And(u - v <= k, v - u <= k))
    if not c.symbolic:
        c.check_vec("evaluated again", s(tr, r), cs(q))
        c.check("another side is refused", c.raises(lambda: c.M.geometry.MeanLeadingEdgePatchFunction(line, guide, wf, t0, t1, "left")(tr, r)))


@contract("surf.flat_leading_edge", ["P07", "P25"], [G + "FlatLeadingEdgePatchFunction.__call__"])
def flat_leading_edge(c):
    p, q = c.apath("p"), c.apath("q")
    t0, t1, tr, r = c.real("t0"), c.real("t1"), c.real("t_raw"), c.real("r")
    s = c.M.geometry.FlatLeadingEdgePatchFunction(p, q, t0, t1)
    t = t1 - tr * (t1 - t0)
    a, b = p(t), q(t)
    pure(c, "blends vertically", s, (tr, r), [a.x, a.y, a.z * (1 - r) + b.z * r])
    c.check_vec("starts on the first line", s(tr, 0.0), cs(a))


def coons(c, south, north, west, east, r, s):
    S_, N_, W_, E_ = [cs(p(v)) for p, v in ((south, r), (north, r), (west, s), (east, s))]
    p00, p10, p01, p11 = cs(south(0.0)), cs(south(1.0)), cs(north(0.0)), cs(north(1.0))
    return [(1 - s) * S_[k] + s * N_[k] + (1 - r) * W_[k] + r * E_[k]
            - ((1 - r) * (1 - s) * p00[k] + r * (1 - s) * p10[k] + (1 - r) * s * p01[k] + r * s * p11[k])
            for k in range(3)]


@contract("surf.trailing_edge", ["P07", "P25"], [G + "TrailingEdgePatch." + m for m in ("__init__", "preparation", "__call__")] + [G + "MeanTrailingEdgePatch." + m for m in ("__init__", "preparation", "__call__")] + [G + "TrailingEdgePath.__call__"])
def trailing_edge(c):
    te, mean = c.apath("te"), c.apath("mean")
    L, ang = c.real("flap_length"), c.real("flap_angle")
    r, s = c.real("r"), c.real("s")
    side = c.choice("side", ["top", "bot"])
    sn, cn = c.sin(ang), c.cos(ang)
    kind = c.choice("kind", ["mean", "corners", "path"])
    if kind == "path":
        A, B = c.vec("A"), c.vec("B")
        f = c.vecfun("f", ["x", "y"])
        p = c.M.geometry.TrailingEdgePath(A, B, f)
        b = lerp(cs(A), cs(B), r)
        o = f(x=b[0], y=b[1])
        pure(c, "trailing edge path", p, (r,), [u + v for u, v in zip(b, cs(o))])
        return
    if kind == "mean":
        P = c.M.geometry.MeanTrailingEdgePatch(mean, te, L, ang, side)
        m0, m1 = mean(0), mean(1)
        f0 = [m0.x - L * cn, m0.y, m0.z + L * sn]
        f1 = [m1.x - L * cn, m1.y, m1.z + L * sn]
    else:
        A, B = c.vec("A"), c.vec("B")
        P = c.M.geometry.TrailingEdgePatch(A, B, te, L, ang, side)
        f0 = [A.x - L, A.y, L * sn]
        f1 = [B.x - L, B.y, L * sn]
    flap = lerp(f0, f1, r)
    top = side == "top"
    pure(c, "joins the trailing edge line", P, (r, 1.0 if top else 0.0), cs(te(r)))
    c.check_vec("joins the flap line", P(r, 0.0 if top else 1.0), flap)
    e0, e1 = cs(te(0.0)), cs(te(1.0))
    a0, a1 = (f0, e0) if top else (e0, f0)
    b0, b1 = (f1, e1) if top else (e1, f1)
    c.check_vec("first side is straight", P(0.0, s), lerp(a0, a1, s))
    c.check_vec("second side is straight", P(1.0, s), lerp(b0, b1, s))
    c.check("another side is refused", c.raises(lambda: c.M.geometry.MeanTrailingEdgePatch(mean, te, L, ang, "left")))
    c.check("another side is refused by corners", c.raises(lambda: c.M.geometry.TrailingEdgePatch(c.vec("A"), c.vec("B"), te, L, ang, "left")))


# ------------------------------------------------------------ Coons patches
def edge(c, name, a, b):
    """A curve of any shape from a to b that can be modified afterwards."""
    bump = c.apath(name)
    V = c.M.vector.Vector3

    class Edge(c.M.path.Path):
        def __init__(self):
            self.a, self.b, self.lift = V(a.x, a.y, a.z), V(b.x, b.y, b.z), 1.0

        def __repr__(self):
            return name

        def __call__(self, t):
            return self.a * (1 - t) + self.b * t + bump(t) * (self.lift * t * (1 - t))

    return Edge()


def spoil(c, e):
    scramble(c, e.a)
    scramble(c, e.b)
    e.lift = 2.0


@contract("surf.coons.edges", ["P08", "P25"], [S + "CoonsPatch." + m for m in ("__init__", "__call__", "__add__", "__sub__")], cost=2)
def coons_edges(c):
    p00, p10, p01, p11 = [c.vec(n) for n in ("p00", "p10", "p01", "p11")]
    so, no, we, ea = edge(c, "south", p00, p10), edge(c, "north", p01, p11), edge(c, "west", p00, p01), edge(c, "east", p10, p11)
    r, s = c.real("r"), c.real("s")
    want = coons(c, so, no, we, ea, r, s)
    ends = [cs(so(r)), cs(no(r)), cs(we(s)), cs(ea(s))]
    P = c.M.surface.CoonsPatch(north=no, south=so, west=we, east=ea)
    which = c.choice("which", ["value", "edges", "displaced", "later changes"])
    if which == "value":
        pure(c, "bilinearly blended", P, (r, s), want)
    elif which == "edges":
        c.check_vec("south edge", P(r, 0.0), ends[0])
        c.check_vec("north edge", P(r, 1.0), ends[1])
        c.check_vec("west edge", P(0.0, s), ends[2])
        c.check_vec("east edge", P(1.0, s), ends[3])
    elif which == "displaced":
        d, e = c.vec("d"), c.vec("e")
        D, F = cs(d), cs(e)
        A = P + d
        B = A - e
        c.check_vec("added vector", A(r, s), [u + v for u, v in zip(want, D)])
        c.check_vec("subtracted vector", B(r, s), [u + v - w for u, v, w in zip(want, D, F)])
        c.check_vec("original stays", P(r, s), want)
        scramble(c, d)
        scramble(c, e)
        c.check_vec("displaced copies keep their displacement", A(r, s), [u + v for u, v in zip(want, D)])
        c.check_vec("both", B(r, s), [u + v - w for u, v, w in zip(want, D, F)])
        c.check("adding a number is refused", c.raises(lambda: P + 1.0))
        c.check("subtracting a number is refused", c.raises(lambda: P - 1.0))
        Q = c.M.surface.CoonsPatch(north=no, south=so, west=we, east=ea)
        c.check_vec("a later patch is not displaced", Q(r, s), want)
    else:
        for e in (so, no, we, ea):
            spoil(c, e)
        c.check_vec("edges modified afterwards", P(r, s), want)


@contract("surf.coons.open", ["P08"], [S + "CoonsPatch.__init__"])
def coons_open(c):
    """A gap beyond the closing tolerance at any one corner is refused."""
    p = {n: c.vec(n) for n in ("p00", "p10", "p01", "p11")}
    g = c.vec("gap")
    q = c.choice("corner", ["p00", "p10", "p01", "p11"])
    k = c.choice("axis", ["x", "y", "z"])
    v = getattr(p[q], k)
    d = getattr(g, k)
    c.assume(c.abs(d) > 0.02 * c.abs(v) + 2e-5)
    late = c.flag("second edge")

    def at(n, second):
        return p[n] + g if n == q and second == late else p[n]

    so, no = edge(c, "south", at("p00", 0), at("p10", 0)), edge(c, "north", at("p01", 0), at("p11", 0))
    we, ea = edge(c, "west", at("p00", 1), at("p01", 1)), edge(c, "east", at("p10", 1), at("p11", 1))
    C = c.M.surface.CoonsPatch
    c.check("edges that do not meet are refused", c.raises(lambda: C(north=no, south=so, west=we, east=ea)))
    c.check("three edges are refused", c.raises(lambda: C(north=no, south=so, west=we)))
    c.check("three corners are refused", c.raises(lambda: C(p00=p["p00"], p10=p["p10"], p01=p["p01"])))
    c.check("nothing is refused", c.raises(lambda: C()))


@contract("surf.coons.corners", ["P08", "P25"], [S + "CoonsPatch." + m for m in ("__init__", "__call__", "__add__", "__sub__")])
def coons_corners(c):
    p00, p10, p01, p11 = v = [c.vec(n) for n in ("p00", "p10", "p01", "p11")]
    r, s = c.real("r"), c.real("s")
    A, B, C_, D = [cs(x) for x in v]
    want = lerp(lerp(A, B, r), lerp(C_, D, r), s)
    P = c.M.surface.CoonsPatch(p00=p00, p10=p10, p11=p11, p01=p01)
    pure(c, "bilinear interpolation of the corners", P, (r, s), want)
    for nm, (a, b), w in (("p00", (0.0, 0.0), A), ("p10", (1.0, 0.0), B), ("p01", (0.0, 1.0), C_), ("p11", (1.0, 1.0), D)):
        c.check_vec("corner " + nm, P(a, b), w)
    d = c.vec("d")
    E = cs(d)
    c.check_vec("added vector", (P + d)(r, s), [u + w for u, w in zip(want, E)])
    c.check_vec("subtracted vector", (P - d)(r, s), [u - w for u, w in zip(want, E)])
    for x in v + [d]:
        scramble(c, x)
    c.check_vec("corners modified afterwards", P(r, s), want)
    o = c.vec("o")
    O = cs(o)
    Q = c.M.surface.CoonsPatch(p00=c.M.vector.Vector3(*A), p10=c.M.vector.Vector3(*B), p11=c.M.vector.Vector3(*D), p01=c.M.vector.Vector3(*C_), offset=o)
    c.check_vec("constructed with an offset", Q(r, s), [u + w for u, w in zip(want, O)])


# ---------------------------------------------------------- transformations
def rot(axis, v, sn, cn):
    x, y, z = v
    if axis == "x":
        return [x, y * cn - z * sn, y * sn + z * cn]
    if axis == "y":
        return [x * cn + z * sn, y, z * cn - x * sn]
    return [x * cn - y * sn, x * sn + y * cn, z]


def plus(u, v):
    return [a + b for a, b in zip(u, v)]


def minus(u, v):
    return [a - b for a, b in zip(u, v)]


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


@contract("surf.rotated", ["P09", "P25"], [G + "RotatedPatch.__init__", G + "RotatedPatch.__call__"], cost=2)
def rotated(c):
    u = c.asurf("u")
    ang = c.real("angle")
    o = c.vec("o")
    r, s, r2, s2 = c.real("r"), c.real("s"), c.real("r2"), c.real("s2")
    axis = c.choice("axis", ["x", "y", "z"])
    name = axis.upper() if c.flag("upper case") else axis
    O = cs(o)
    sn, cn = c.sin(ang), c.cos(ang)
    p, q = cs(u(r, s)), cs(u(r2, s2))
    P = c.M.geometry.RotatedPatch(u, ang, axis=name, point=o)
    pure(c, "rotated about the point", P, (r, s), plus(rot(axis, minus(p, O), sn, cn), O))
    D = c.M.geometry.RotatedPatch(u, ang, axis=name)
    pure(c, "rotated about the origin", D, (r, s), rot(axis, p, sn, cn))
    if axis == "x":
        c.check_vec("rotated about the x axis unless told otherwise", c.M.geometry.RotatedPatch(u, ang)(r, s), rot("x", p, sn, cn))
    a, b = cs(P(r, s)), cs(P(r2, s2))
    c.check("distances are preserved", c.eq(dot(minus(a, b), minus(a, b)), dot(minus(p, q), minus(p, q))))
    B = c.M.geometry.RotatedPatch(P, -ang, axis=name, point=c.M.vector.Vector3(*O))
    c.check_vec("rotating back", B(r, s), p)
    c.check_vec("the point is not changed", o, O)


@contract("surf.mirrored", ["P09", "P25"], [G + "MirroredPatch.__init__", G + "MirroredPatch.__call__"])
def mirrored(c):
    u = c.asurf("u")
    r, s = c.real("r"), c.real("s")
    axis = c.choice("axis", ["x", "y", "z"])
    name = axis.upper() if c.flag("upper case") else axis
    p = cs(u(r, s))
    want = [-v if k == axis else v for k, v in zip("xyz", p)]
    m = c.M.geometry.MirroredPatch(u, axis=name)
    pure(c, "negates the coordinate", m, (r, s), want)
    c.check_vec("mirrored twice", c.M.geometry.MirroredPatch(m, axis=axis)(r, s), p)
    d = c.M.geometry.MirroredPatch(u)
    c.check_vec("mirrored without an axis name", d(r, s), [-p[0], p[1], p[2]])
    c.check_vec("the surface stays", u(r, s), p)


@contract("surf.offset", ["P09", "P25"], [G + "OffsetPatchFunction.__init__", G + "OffsetPatchFunction.__call__"])
def offset_patch(c):
    u = c.asurf("u")
    r, s = c.real("r"), c.real("s")
    f = c.vecfun("f", ["x", "y", "z"])
    p = cs(u(r, s))
    d = f(*p)
    O = c.M.geometry.OffsetPatchFunction(u, f)
    want = plus(p, cs(d))
    pure(c, "adds the offset at the point", O, (r, s), want)
    c.check_vec("offset twice", c.M.geometry.OffsetPatchFunction(O, f)(r, s), plus(want, cs(f(*want))))
    c.check_vec("the surface stays", u(r, s), p)


@contract("surf.curved", ["P09", "P25"], [G + "CurvedPatch.__init__", G + "CurvedPatch.__call__"])
def curved(c):
    u = c.asurf("u")
    r, s = c.real("r"), c.real("s")
    f, g = c.afun("f", 2), c.afun("g", 2)
    x, y, z = p = cs(u(r, s))
    F, m = f(x, y), g(x, y)
    w = c.sqrt(1 + m * m)
    k = c.choice("direction", ["x", "y"])
    P = c.M.geometry.CurvedPatch(u, direction=k, fun=f, fun_dash=g)
    want = [x - z * m / w, y, F + z / w] if k == "x" else [x, y - z * m / w, F + z / w]
    pure(c, "lifted along the normal", P, (r, s), want)
    c.check_vec("the surface stays", u(r, s), p)
    C = c.M.geometry.CurvedPatch
    c.check("a missing function is refused", c.raises(lambda: C(u, direction=k, fun_dash=g)(r, s)))
    c.check("a missing slope is refused", c.raises(lambda: C(u, direction=k, fun=f)(r, s)))

"""Contracts of the prepared shapes: circles, ogive noses, thickness functions."""
from ..reg import contract
from .vectors import cs

S = "components.common:"


@contract("shape.circle", ["P26"], [S + "circle_patch"], stubs=["path.arc"], cost=2)
def circle(c):
    m, R = c.vec("c"), c.pos("r")
    C = cs(m)
    t = c.unit("t")
    P = c.M.common.circle_patch(m, R)
    ring = [P(t, 0.0), P(1.0, t), P(t, 1.0), P(0.0, t)]
    for nm, q in zip(("south", "east", "north", "west"), ring):
        x, y, z = cs(q)
        c.check(f"{nm} edge lies in the plane of the circle", c.eq(z, C[2]))
        d = (x - C[0]) ** 2 + (y - C[1]) ** 2
        c.check(f"{nm} edge lies on the circle", c.eq(d, R * R) if c.symbolic else abs(c.sqrt(d) - R) <= 1e-6 * (R + 1))
    s = c.unit("s")
    c.check("the whole patch lies in the plane of the circle", c.eq(P(t, s).z, C[2]))
    corners = [cs(P(a, b)) for a, b in ((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0))]
    for p, q in zip(corners, corners[1:] + corners[:1]):
        u, v = [[a - b for a, b in zip(k, C)] for k in (p, q)]
        c.check("the corners are a quarter turn apart", c.eq(u[0] * v[0] + u[1] * v[1], 0))
        c.check("and run around the circle", u[0] * v[1] - u[1] * v[0] > 0)
    c.check_vec("the centre is not changed", m, C)


@contract("shape.ogive", ["P26"], [S + "OgiveNose.__init__"], stubs=["path.arc", "path.polyline"], cost=2)
def ogive(c):
    """Nose radius, ogive radius and height are given by the tangent angle at
    the joint of the two arcs, which covers all r_n < h < r_o."""
    rn, d, L = c.pos("r_n"), c.pos("r_o - r_n"), c.pos("L_o")
    a = c.real("angle", lo=0 if c.symbolic else 0.05, hi=c.pi / 2 if c.symbolic else 1.5)
    c.assume(c.And(a > 0, 2 * a < c.pi))
    sn, cn = c.sin(a), c.cos(a)
    ro = rn + d
    h = ro - d * cn
    c.hint_root(d * sn, rn * sn)
    N = c.int("resolution", 1, sample=(1, 4))
    k = c.M.common.OgiveNose(h, rn, ro, L, stl_resolution=N, name="nose")
    c.check("settings are kept", c.And(c.eq(k.stl_resolution, N), k.name == "nose"))
    line = k.revolve_line
    tip, base = [d * sn + rn, 0, 0], [-L, 0, 0]
    cap = lambda p: c.eq((p[0] - d * sn) ** 2 + p[1] ** 2, rn * rn)
    bow = lambda p: c.eq(p[0] ** 2 + (p[1] - h + ro) ** 2, ro * ro)
    joint = [(d + rn) * sn, rn * cn, 0]
    if c.symbolic:
        segs = [s for _, s in c.each(line.segments)]
        c.check("four pieces", len(segs) == 4)
        t = c.unit("t")
        ends = [(s(0.0), s(1.0)) for s in segs]
        at = [s(t) for s in segs]
        pts = [cs(p) for p in at]
        c.check_vec("starts at the tip", ends[0][0], tip)
        c.check_vec("ends on the axis", ends[3][1], base)
        c.check_vec("cap and ogive meet where they have the same tangent", ends[0][1], joint)
        for (_, p), (q, _) in zip(ends, ends[1:]):
            c.check_vec("pieces join", p, q)
        c.check_vec("ogive ends at full height, along the axis", ends[1][1], [0, h, 0])
        c.check("cap has the nose radius about a centre on the axis", cap(pts[0]))
        c.check("ogive has the ogive radius", bow(pts[1]))
        c.check_vec("body runs along the axis", at[2], [-L * t, h, 0])
        c.check_vec("base is closed", at[3], [-L, h * (1 - t), 0])
        for p in pts:
            c.check("profile is plane", c.eq(p[2], 0))
        return
    c.check_vec("starts at the tip", line(0.0), tip)
    c.check_vec("ends on the axis", line(1.0), base)
    for i in range(21):
        x, y, z = p = cs(line(i / 20))
        e = 1e-6 * (1 + ro)
        c.check("profile is plane", c.eq(z, 0))
        if x >= joint[0] + e:
            c.check("cap has the nose radius about a centre on the axis", cap(p))
        elif e <= x <= joint[0] - e:
            c.check("ogive has the ogive radius", bow(p))
        elif -L + e <= x <= -e:
            c.check("body runs along the axis", c.eq(y, h))
        elif x < 0:
            c.check("base is closed", x >= -L - e and -e <= y <= h + e)
        c.check("profile does not cross the axis", y >= -e)


@contract("shape.thickness", ["P26"], [S + "uniform_thickness_function", S + "leading_edge_width_function"])
def thickness(c):
    T = c.real("thickness")
    side = c.choice("side", ["top", "bot"])
    f = c.M.common.uniform_thickness_function(T, side)
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    for q in (f(x, y), f(x, y, z), f(x=x, y=y)):
        c.check_vec("half the thickness to its side", q, [0, 0, -T / 2 if side == "top" else T / 2])
    w, r = c.M.common.leading_edge_width_function, c.unit("r")
    c.check("the standard leading edge has a width everywhere", w(r) > 0)
    c.check("and is symmetric", c.eq(w(r), w(1 - r)))

"""Contracts of revolved, conical, cube and sphere surfaces."""
from ..reg import contract
from .derived import G, pure
from .paths import cs, lerp, scramble
from .patches import dot, minus, plus


@contract("surf.cone", ["P10", "P25"], [G + "ConePatch.__init__", G + "ConePatch.__call__"])
def cone(c):
    x0, x1, r0, r1, a0, a1, r, s = [c.real(n) for n in ("x0", "x1", "r0", "r1", "a0", "a1", "r", "s")]
    P = c.M.geometry.ConePatch(x0, x1, r0, r1, a0, a1)
    a = a0 * (1 - s) + a1 * s
    sn, cn = c.sin(a), c.cos(a)
    A, B = [x0, r0 * cn, r0 * sn], [x1, r1 * cn, r1 * sn]
    pure(c, "linear between the rings", P, (r, s), lerp(A, B, r))
    c.check_vec("first ring", P(0.0, s), A)
    c.check_vec("second ring", P(1.0, s), B)
    y, z = P(r, s).y, P(r, s).z
    rho = r0 * (1 - r) + r1 * r
    c.check("radius", c.eq(y * y + z * z, rho * rho))


@contract("surf.revolved", ["P10", "P25"], [G + "RevolvedPatch.__init__", G + "RevolvedPatch.__call__"])
def revolved(c):
    l = c.apath("line")
    a0, a1, r, s = [c.real(n) for n in ("a0", "a1", "r", "s")]
    P = c.M.geometry.RevolvedPatch(l, a0, a1)
    a = a0 * (1 - s) + a1 * s
    sn, cn = c.sin(a), c.cos(a)
    p = l(r)
    pure(c, "turned about the x axis", P, (r, s), [p.x, p.y * cn + p.z * sn, p.z * cn - p.y * sn])
    q = P(r, s)
    c.check("radius", c.eq(q.y * q.y + q.z * q.z, p.y * p.y + p.z * p.z))
    F = c.M.geometry.RevolvedPatch(l)
    c.check_vec("a full turn by default: start", F(r, 0.0), cs(p))
    c.check_vec("a full turn by default: half", F(r, 0.5), [p.x, -p.y, -p.z])
    c.check_vec("a full turn by default: end", F(r, 1.0), cs(p))


@contract("comp.revolved", ["P10", "P16"], ["components.revolved:RevolvedComponent.__init__", "components.revolved:RevolvedComponent.generate_patches"])
def revolved_component(c):
    l = c.apath("line")
    r, s = c.real("r"), c.real("s")
    k = c.M.revolved.RevolvedComponent(l, stl_resolution=3, name="nose")
    k.generate_patches()
    ps = list(k.patches.values())
    c.check("four quarters", len(ps) == 4)
    for i in range(4):
        c.check_vec(f"meridian {i}", ps[i](r, 1.0), cs(ps[(i + 1) % 4](r, 0.0)))
        p, q = l(r), ps[i](r, s)
        c.check("axial position", c.eq(q.x, p.x))
        c.check("radius", c.eq(q.y * q.y + q.z * q.z, p.y * p.y + p.z * p.z))
        c.check_vec(f"start of quarter {i}", ps[i](r, 0.0), [p.x] + [[p.y, p.z], [p.z, -p.y], [-p.y, -p.z], [-p.z, p.y]][i])
        a = (i + s) * c.pi / 2
        sn, cn = c.sin(a), c.cos(a)
        c.check_vec("turns by a quarter at a uniform rate", q, [p.x, p.y * cn + p.z * sn, p.z * cn - p.y * sn])
    k.generate_patches()
    c.check("generated again", len(k.patches) == 4)


# ----------------------------------------------------------- cube and sphere
FACES = {"east": ("x", 1), "west": ("x", -1), "north": ("y", 1), "south": ("y", -1), "top": ("z", 1), "bottom": ("z", -1)}
# every edge of the solid: face and its side, neighbour and its side
SIDES = {"r0": lambda t: (0.0, t), "r1": lambda t: (1.0, t), "s0": lambda t: (t, 0.0), "s1": lambda t: (t, 1.0)}


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def neighbour(c, faces, name, side):
    """Face sharing this side, and how: decided at the ends of the side."""
    def ends(f, k):
        return [tuple(round(float(v), 9) for v in CORNER(f, *SIDES[k](t))) for t in (0.0, 1.0)]

    a = ends(name, side)
    for f in FACES:
        for k in SIDES:
            if f != name:
                b = ends(f, k)
                if b == a:
                    return f, k, False
                if b[::-1] == a:
                    return f, k, True


def CORNER(face, r, s):
    """The outward-facing parametrisation of the faces of the unit cube."""
    u, v = 2 * r - 1, 2 * s - 1
    return {"east": (1, u, v), "west": (-1, v, u), "north": (v, 1, u), "south": (u, -1, v),
            "top": (u, v, 1), "bottom": (v, u, -1)}[face]


def solid(c, cls, face, size, centre):
    r, s, t = c.unit("r"), c.unit("s"), c.unit("t")
    P = getattr(c.M.geometry, cls)(size, centre, face)
    C = cs(centre)
    pts = {}
    for side in SIDES:
        f, k, rev = neighbour(c, None, face, side)
        Q = getattr(c.M.geometry, cls)(size, centre, f)
        c.check_vec(f"edge {side} shared", P(*SIDES[side](t)), cs(Q(*SIDES[k](1 - t if rev else t))))
    c.check("an unknown face is refused", c.raises(lambda: getattr(c.M.geometry, cls)(size, centre, "front")(r, s)))
    return P, C, r, s


@contract("surf.cube", ["P11", "P25"], [G + "CubePatch.__init__", G + "CubePatch.__call__"])
def cube(c):
    a, o = c.pos("a"), c.vec("centre")
    face = c.choice("face", list(FACES))
    axis, sg = FACES[face]
    P, C, r, s = solid(c, "CubePatch", face, a, o)
    q = minus(cs(P(r, s)), C)
    k = "xyz".index(axis)
    c.check("on its side of the cube", c.eq(q[k], sg * a))
    e = 0 if c.symbolic else 1e-9 * (1 + a)
    for j in range(3):
        c.check(f"within the cube [{j}]", c.And(q[j] <= a + e, q[j] >= -a - e))
    n = cross(minus(cs(P(1.0, s)), cs(P(0.0, s))), minus(cs(P(r, 1.0)), cs(P(r, 0.0))))
    c.check("faces outwards", dot(n, q) > 0)
    pure(c, "same point", P, (r, s), plus(q, C))
    c.check_vec("centre stays", o, C)


@contract("surf.sphere", ["P11", "P25"], [G + "SpherePatch.__init__", G + "SpherePatch.__call__"], cost=2)
def sphere(c):
    a, o = c.pos("radius"), c.vec("centre")
    face = c.choice("face", list(FACES))
    axis, sg = FACES[face]
    P, C, r, s = solid(c, "SpherePatch", face, a, o)
    q = minus(cs(P(r, s)), C)
    c.check("at the radius from the centre", c.eq(dot(q, q), a * a))
    k = "xyz".index(axis)
    c.check("on its side", sg * q[k] > 0)
    pure(c, "same point", P, (r, s), plus(q, C))
    c.check_vec("centre stays", o, C)


@contract("comp.solid", ["P11"], ["components.polygon:" + k + m for k in ("Cube", "Sphere") for m in (".__init__", ".generate_patches")])
def solid_component(c):
    """The components consist of the six faces, of their own size and place."""
    a, o, r, s = c.pos("size"), c.vec("centre"), c.unit("r"), c.unit("s")
    kind, face = c.choice("kind", ["Cube", "Sphere"]), c.choice("face", list(FACES))
    placed = c.flag("placed")
    k = getattr(c.M.polygon, kind)(a, centre=o, stl_resolution=3) if placed else getattr(c.M.polygon, kind)(a)
    if not placed:
        o = c.M.vector.Vector3(0.0, 0.0, 0.0)
    C = cs(o)
    k.generate_patches()
    if c.flag("generated again"):
        k.generate_patches()
    c.check("six faces", sorted(k.patches) == sorted(FACES))
    P = getattr(c.M.geometry, kind + "Patch")(a, o, face)
    c.check_vec("the face", k.patches[face](r, s), cs(P(r, s)))
    c.check_vec("centre stays", o, C)


@contract("surf.sphere.outward", ["P11"], [G + "SpherePatch.__call__"], cost=2)
def sphere_outward(c):
    """Chords along the two parameters, seen along the axis of the face, turn
    counter-clockwise, so every mesh triangle faces outwards."""
    a, o = c.pos("radius"), c.vec("centre")
    face = c.choice("face", list(FACES))
    axis, sg = FACES[face]
    r, s, r2, s2 = c.unit("r"), c.unit("s"), c.unit("r2"), c.unit("s2")
    c.assume(c.And(r + (0 if c.symbolic else 1e-3) < r2, s + (0 if c.symbolic else 1e-3) < s2))
    P = c.M.geometry.SpherePatch(a, o, face)
    p0, p1, p2 = cs(P(r, s)), cs(P(r2, s)), cs(P(r, s2))
    if c.symbolic:
        f = lambda v: c.sqrt(0.5 - (2 * v - 1) * (2 * v - 1) / 6)
        A, A2, B, B2 = f(s), f(s2), f(r), f(r2)
        x, x2, y, y2 = 2 * r - 1, 2 * r2 - 1, 2 * s - 1, 2 * s2 - 1
        for nm, u in (("A", A), ("A2", A2), ("B", B), ("B2", B2)):
            c.lemma(nm + " bounded below", u > 0.5)
        for nm, u, u2, w, w2 in (("A", A, A2, y, y2), ("B", B, B2, x, x2)):
            c.lemma(nm + " difference of squares", c.eq(6 * (u2 - u) * (u2 + u), (w - w2) * (w + w2)))
            c.lemma(nm + " rises slowly", 3 * (u2 - u) <= w2 - w)
            c.lemma(nm + " falls slowly", 3 * (u - u2) <= w2 - w)
        dx, dy = x2 - x, y2 - y
        for nm, w, v in (("x", x * (A2 - A), dy), ("y", y * (B2 - B), dx)):
            c.lemma(f"small skew in {nm}", c.And(3 * w <= v, -3 * w <= v))
        big, small = dx * A * (dy * B), x * (A2 - A) * (y * (B2 - B))
        c.lemma("main term", 4 * big >= dx * dy)
        c.lemma("skew term", 9 * small <= dx * dy)
        c.lemma("area", dx * dy > 0)
        c.lemma("positive", big - small > 0)
    n = cross(minus(p1, p0), minus(p2, p0))
    k = "xyz".index(axis)
    if c.symbolic:
        c.lemma("area seen along the axis", c.eq(sg * n[k], a * a * (big - small)))
    c.check("turns outwards", sg * n[k] > 0)

"""Callee contracts used in place of bodies.

Every stub is named after the contract that proves the body satisfies it, so
that a check which relies on a stub also re-verifies that contract.
"""
from .coll import HvList

STUBS = {}


def stub(name):
    def deco(f):
        STUBS[name] = f
        return f

    return deco


def install(E, M, ct):
    for name in ct.opts.get("stubs", ()):
        STUBS[name](E, M, ct)


def reset(E):
    pass


@stub("path.polyline")
def polyline_init(E, M, ct):
    """Polyline(segments, closed): keeps the segments in order (the closing
    segment and evaluation are the business of path.polyline.closed)."""

    def init(self, segments, closed=False, tolerance=1.0e-10):
        E.used.add("path.polyline")
        E.used.add("path.polyline.closed")
        E.used.add("path.polyline.ends")
        self.segments = segments if isinstance(segments, HvList) else HvList(segments)
        self.isclosed = closed

    M.path.Polyline.__init__ = init


@stub("path.polyline.two")
def polyline_two(E, M, ct):
    """Polyline of two lines: each covers its share of 0..1 (path.polyline);
    of the shares only the range is kept."""
    import z3

    from .sym import SymReal, Unsupported, mkreal, to_bool, to_real

    def init(self, segments, closed=False, tolerance=1.0e-10):
        segs = list(segments)
        if closed or len(segs) != 2 or not all(isinstance(s, M.path.Line) for s in segs):
            raise Unsupported("polyline of other segments")
        E.used.add("path.polyline")
        for s in segs:
            a, b = s(0.0), s(1.0)
            E.check("callee precondition: segments have a length", (a.x != b.x) | (a.y != b.y) | (a.z != b.z))
        self.segments, self.isclosed = segs, False
        self.share = E.fresh("share")
        E.assume((self.share > 0) & (self.share < 1))
        E.root_hints.append(self.share)

    def call(self, t):
        t, k = mkreal(t), self.share
        E.check("callee precondition: parameter within 0 and 1", (t >= 0) & (t <= 1))
        first = to_bool(t <= k)
        v = E._decided(z3.simplify(first))
        if v is None and not E.searching:
            v = E.branch(first)
        u = SymReal(E.normal(to_real(t / k)))
        w = SymReal(E.normal(to_real((t - k) / (1 - k))))
        if v is not None:
            return self.segments[0](u) if v else self.segments[1](w)
        p, q = self.segments[0](u), self.segments[1](w)
        return M.vector.Vector3(*[SymReal(z3.If(first, to_real(x), to_real(y)))
                                  for x, y in ((p.x, q.x), (p.y, q.y), (p.z, q.z))])

    M.path.Polyline.__init__ = init
    M.path.Polyline.__call__ = call


@stub("path.arclength")
def arclength(E, M, ct):
    """ArcLengthParameterizedPath(p)(t) == p(u) with 0 <= u <= 1, u(0) == 0,
    u(1) == 1 (path.arclength) and u depending on the shape of p only, not on
    its position (path.arclength.moved)."""
    import z3

    from .sym import SymReal, Unsupported, m_abs, mkreal, to_bool, to_real

    G = M.geometry

    class ArcLength(M.path.Path):
        def __init__(self, underlying_path, n=1000):
            E.used.add("path.arclength")
            E.used.add("path.arclength.moved")
            if not isinstance(underlying_path, M.path.Path):
                raise NotImplementedError("underlying_path should be a type of Path")
            self.underlying_path = underlying_path
            if isinstance(underlying_path, G.ElipsePath) and n == 1000 and "path.ellipse" in ct.opts["stubs"]:
                return  # clause of path.ellipse
            p0, p1 = underlying_path(0.0), underlying_path(1.0 / n)
            E.check("callee precondition: the first piece of the path has a length",
                    (p0.x != p1.x) | (p0.y != p1.y) | (p0.z != p1.z))

        def __repr__(self):
            return "ArcLength"

        def __call__(self, t):
            p = self.underlying_path
            t = mkreal(t)
            E.check("callee precondition: parameter within 0 and 1", (t >= 0) & (t <= 1))
            if isinstance(p, G.ElipsePath):
                name = f"arc_u:{p.side}"
                args = [m_abs(mkreal(p.thickness)), mkreal(p.LE_width), t]
            else:
                raise Unsupported("arc length of this path")
            zs = [E.normal(to_real(a)) for a in args]
            f = z3.Function(name, *([z3.RealSort()] * 4))
            u = f(*zs)
            key = ("arc_u", u.get_id())
            if key not in E.cache:
                E.cache[key] = (u,)
                E.funcs.setdefault(name, []).append((zs, [u]))
                E.axiom(z3.And(u >= 0, u <= 1, z3.Implies(zs[2] == 0, u == 0), z3.Implies(zs[2] == 1, u == 1)))
            return p(SymReal(z3.If(zs[2] == 0, z3.RealVal(0), z3.If(zs[2] == 1, z3.RealVal(1), u)))
                     if not z3.is_rational_value(zs[2]) else t)

    for m in (M.geometry, M.wing, M.fin, M.path):
        if hasattr(m, "ArcLengthParameterizedPath"):
            m.ArcLengthParameterizedPath = ArcLength


@stub("path.arc")
def arc(E, M, ct):
    """Arc(a, b, c): every point has the distance of a from c and lies in the
    plane of the three, the ends are a and b (path.arc)."""
    import z3

    from .sym import SymReal, mkreal, to_real

    V = M.vector.Vector3
    sub = lambda u, v: [mkreal(p) - mkreal(q) for p, q in zip((u.x, u.y, u.z), (v.x, v.y, v.z))]
    dot = lambda u, v: sum(p * q for p, q in zip(u, v))
    cross = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    def call(self, t):
        E.used.add("path.arc")
        u, v = sub(self.a, self.c), sub(self.b, self.c)
        n = cross(u, v)
        E.check("callee precondition: equal radii", dot(u, u) == dot(v, v))
        E.check("callee precondition: ends not in line with the centre", (n[0] != 0) | (n[1] != 0) | (n[2] != 0))
        t = mkreal(t)
        zs = [E.normal(to_real(q)) for q in (*[w for p in (self.a, self.b, self.c) for w in (p.x, p.y, p.z)], t)]
        if z3.is_rational_value(zs[-1]) and zs[-1].as_fraction() in (0, 1):
            return V(self.a) if zs[-1].as_fraction() == 0 else V(self.b)
        w = [z3.Function(f"arc_{k}", *([z3.RealSort()] * 11))(*zs) for k in "xyz"]
        p = V(*[SymReal(q) for q in w])
        key = ("arc", w[0].get_id())
        if key not in E.cache:
            E.cache[key] = (w,)
            d = sub(p, self.c)
            E.axiom((dot(d, d) == dot(u, u)).z)
            E.axiom((dot(d, n) == 0).z)
            for at, q in ((0, self.a), (1, self.b)):
                E.axiom(z3.Implies(zs[-1] == at, z3.And(*[x == to_real(y) for x, y in zip(w, (q.x, q.y, q.z))])))
        return p

    M.path.Arc.__call__ = call


@stub("path.ellipse")
def ellipse(E, M, ct):
    """ElipsePath: see path.ellipse (point on the quarter ellipse, ends)."""
    import z3

    from .sym import SymReal, m_abs, mkreal, rv, to_bool, to_real
    from fractions import Fraction

    V = M.vector.Vector3

    def call(self, r):
        E.used.add("path.ellipse")
        if self.side not in ("top", "bot"):
            raise Exception("Value of 'side' not supported")
        a, b, r = mkreal(self.LE_width), m_abs(mkreal(self.thickness)), mkreal(r)
        E.check("callee precondition: width, thickness and parameter",
                (a > 0) & (b > 0) & (r >= 0) & (r <= 1) & (b <= 1000000 * a) & (a <= 1000000 * b))
        zs = [E.normal(to_real(v)) for v in (b, a, r)]
        y, z = [z3.Function(f"ellipse_{k}:{self.side}", *([z3.RealSort()] * 4))(*zs) for k in "yz"]
        key = ("ellipse", y.get_id())
        if key not in E.cache:
            E.cache[key] = (y, z)
            bz, az, rz = zs
            tip, axis = (1, 0) if self.side == "top" else (0, 1)
            k = rv(Fraction(1, 10 ** 9)) * (az + bz)
            h = bz if self.side == "bot" else -bz
            E.axiom(z3.And(y * y * bz * bz + z * z * az * az == az * az * bz * bz, y >= 0,
                           z >= 0 if self.side == "bot" else z <= 0))
            E.axiom(z3.Implies(rz == tip, z3.And(y == az, z == 0)))
            E.axiom(z3.Implies(rz == axis, z3.And(y <= k, z - h <= k, h - z <= k)))
        return self.centre + V(0.0, SymReal(y), SymReal(z))

    M.geometry.ElipsePath.__call__ = call


@stub("mesh.surface")
def mesh_surface(E, M, ct):
    """surfce_to_stl: the mesh is determined by the arguments as mesh.surface
    says; only they are kept."""
    from .shims import SymMesh

    def surfce_to_stl(parametric_surface, triangles_per_edge_r, triangles_per_edge_s, si=1.0, sj=1.0,
                      mirror_y=False, i_clustering_func=None, j_clustering_func=None, verbosity=0):
        E.used.add("mesh.surface")
        m = SymMesh()
        m.args = dict(patch=parametric_surface, nr=triangles_per_edge_r, ns=triangles_per_edge_s, si=si, sj=sj,
                      mirror=mirror_y, fi=i_clustering_func or None, fj=j_clustering_func or None)
        return m

    for m in (M.utilities, M.component):
        m.surfce_to_stl = surfce_to_stl

"""Contracts of clustering functions and surface meshing."""
from ..reg import contract
from .paths import P, cs
from .derived import G

U = "utilities:"


# ---------------------------------------------------------------- clustering
def ends(c):
    k = c.choice("ends", ["none", "first", "second", "both"])
    return {"none": (False, False), "first": (True, False), "second": (False, True), "both": (True, True)}[k]


def factor(c, e):
    b = c.real("beta", lo=0, hi=None if c.symbolic else 5)
    c.assume(b != 1)
    if not c.symbolic:
        b = near_one(c, b)
        c.assume(abs(b - 1) > 1e-7)
    return b


def near_one(c, b):
    """The stretching is strongest for factors just above one."""
    return b if c.mv or not c.rare() else 1 + 10 ** -(1 + abs(b))


CL = [P + "roberts", P + "clustered_roberts", P + "RobertsFunction.__init__", P + "RobertsFunction.__call__"]


@contract("cluster.roberts", ["P14"], CL + [P + "LinearFunction.__call__"], cost=2)
def roberts(c):
    e0, e1 = ends(c)
    b = factor(c, (e0, e1))
    f = c.M.path.RobertsFunction(e0, e1, b)
    x, y = c.unit("x"), c.unit("y")
    c.assume(x < y)
    if not c.symbolic:
        c.assume(y - x > 1e-6)
    c.check("0 at 0", c.eq(f(0.0), 0))
    c.check("1 at 1", c.eq(f(1.0), 1))
    u, v = f(x), f(y)
    if c.symbolic and (e0 or e1) and bool(b > 1):
        # explicit values of the two stretching factors
        q = (b + 1) / (b - 1)
        al = 0.5 if e0 and e1 else 0.0
        w = lambda t: c.pow(q, ((1 - t if e0 and not e1 else t) - al) / (1 - al))
        p1, p2 = w(x), w(y)
        c.lemma("stretching factors are positive", c.And(p1 > 0, p2 > 0))
        c.lemma("stretching is monotone", p1 > p2 if e0 and not e1 else p1 < p2)
        n = lambda p: (b + 2 * al) * p - b + 2 * al
        d = lambda p: (2 * al + 1) * (1 + p)
        g = lambda p: 1 - n(p) / d(p) if e0 and not e1 else n(p) / d(p)
        c.lemma("first value", c.eq(u, g(p1)))
        c.lemma("second value", c.eq(v, g(p2)))
        c.lemma("cross product", (n(p2) * d(p1) - n(p1) * d(p2)) * (-1 if e0 and not e1 else 1) > 0)
    c.check("strictly increasing", u < v)
    if not (e0 or e1) or bool(b < 1):
        c.check("identity without clustering", c.eq(u, x))
    c.check("linear function is the identity", c.eq(c.M.path.LinearFunction()(x), x))


@contract("cluster.dense", ["P14"], CL, cost=2)
def dense(c):
    """Equal steps become strictly shorter towards the selected end."""
    e0, e1 = c.choice("ends", [(True, False), (False, True), (True, True)])
    b = c.real("beta", lo=1, hi=None if c.symbolic else 5)
    if not c.symbolic:
        b = near_one(c, b)
    c.assume(b > 1 if c.symbolic else b > 1.00001)
    x, y = c.unit("x"), c.unit("y")
    c.assume(x < y)
    if not c.symbolic:
        c.assume(y - x > 1e-2)
    both, up = e0 and e1, e1
    if both:
        up = c.flag("second half")
        c.assume(x >= 0.5 if up else y <= 0.5)
    f = c.M.path.RobertsFunction(e0, e1, b)
    m = (x + y) / 2
    u, v, w = f(x), f(m), f(y)
    if c.symbolic:
        q = (b + 1) / (b - 1)
        al = 0.5 if both else 0.0
        z = lambda t: c.pow(q, ((t if e1 else 1 - t) - al) / (1 - al))
        p, r, k = z(x), z(y), z(m)
        c.lemma("positive", c.And(p > 0, r > 0, k > 0))
        c.lemma("geometric mean", c.eq(p * r, k * k))
        c.lemma("stretched" if up else "shrunk", k > 1 if up or not e1 else k < 1)
        c.lemma("distinct", p < r if e1 else p > r)
        c.lemma("mean", p + r > 2 * k)
        g = lambda p: b * (p - 1) / (p + 1)
        h = (lambda p: (1 + g(p)) / 2) if both else g if e1 else (lambda p: 1 - g(p))
        for n, a, e in (("first", u, p), ("middle", v, k), ("last", w, r)):
            c.lemma(n + " value", c.eq(a, h(e)))
        G = lambda p: (p - 1) / (p + 1)
        c.lemma("sum", c.eq(G(p) + G(r), 2 * (k * k - 1) / (k * k + 1 + p + r)))
        c.lemma("double", c.eq(2 * G(k), 2 * (k * k - 1) / (k * k + 1 + 2 * k)))
        c.lemma("concave", 2 * G(k) > G(p) + G(r) if up or not e1 else 2 * G(k) < G(p) + G(r))
    c.check("steps shrink towards the selected end", w - v < v - u if up else w - v > v - u)


@contract("cluster.mirror", ["P14"], CL)
def mirror(c):
    b = factor(c, None)
    x = c.unit("x")
    f, g = c.M.path.RobertsFunction(True, False, b), c.M.path.RobertsFunction(False, True, b)
    c.check("clustering at one end mirrors the other", c.eq(f(x), 1 - g(1 - x)))
    h = c.M.path.RobertsFunction(True, True, b)
    u, v = h(x), h(1 - x)
    if c.symbolic and bool(b > 1):
        q = (b + 1) / (b - 1)
        p1, p2 = c.pow(q, 2 * x - 1), c.pow(q, 1 - 2 * x)
        c.lemma("inverse factors", c.eq(p1 * p2, 1))
        c.lemma("positive factors", c.And(p1 > 0, p2 > 0))
        n = lambda p: (b + 1) * p - b + 1
        c.lemma("first", c.eq(u, n(p1) / (2 * (1 + p1))))
        c.lemma("second", c.eq(v, n(p2) / (2 * (1 + p2))))
        c.lemma("cleared", c.eq(n(p1) * (1 + p2) + n(p2) * (1 + p1), 2 * (1 + p1) * (1 + p2)))
    c.check("clustering at both ends is symmetric", c.eq(u + v, 1))


@contract("cluster.distribute", ["P14"], CL + [P + "distribute_points", P + "LinearFunction.distribute_parameter_values", P + "RobertsFunction.distribute_parameter_values"])
def distribute(c):
    e0, e1 = ends(c)
    b = factor(c, None)
    t1, t2 = c.real("t1"), c.real("t2")
    n = c.int("n", 1, sample=(1, 9))
    f = c.M.path.RobertsFunction(e0, e1, b)
    X = c.M.path.distribute_points(t1, t2, n, e0, e1, b)
    c.check("number of points", c.eq(c.length(X), n + 1))
    k = c.index("k", n + 1)
    u = c.getitem(X, k)
    q = f(c.toreal(k) / n)
    c.check("point k is the clustered share", c.eq(u, (1 - q) * t1 + q * t2))
    c.check("starts at the first limit", c.eq(c.getitem(X, c.E_zero() if c.symbolic else 0), t1))
    c.check("ends at the second limit", c.eq(c.getitem(X, n), t2))
    Y = f.distribute_parameter_values(n + 1)
    c.check("number of parameter values", c.eq(c.length(Y), n + 1))
    c.check("parameter value k", c.eq(c.getitem(Y, k), q))
    Z = c.M.path.LinearFunction().distribute_parameter_values(n + 1)
    c.check("number of uniform values", c.eq(c.length(Z), n + 1))
    c.check("uniform value k", c.eq(c.getitem(Z, k), c.toreal(k) / n))


# ------------------------------------------------------------------- meshing
@contract("mesh.surface", ["P13"], [U + "surfce_to_stl", U + "default_vertex_func"], cost=2, tol=1e-5)
def mesh_surface(c):
    s = c.asurf("s")
    ni, nj = c.int("ni", 1, sample=(1, 5)), c.int("nj", 1, sample=(1, 5))
    mirror = c.flag("mirror")
    kind = c.choice("nodes", ["default", "spaced", "clustered", "first clustered", "second clustered"])
    kw = {}
    fr = lambda v: v
    fs = lambda v: v
    if kind == "spaced":
        si, sj = c.pos("si", hi=6), c.pos("sj", hi=6)
        kw.update(si=si, sj=sj)
        fr, fs = (lambda v: c.pow(v, si)), (lambda v: c.pow(v, sj))
    if kind in ("clustered", "first clustered"):
        fr = c.afun("ci", 1)
        kw["i_clustering_func"] = fr
    if kind in ("clustered", "second clustered"):
        fs = c.afun("cj", 1)
        kw["j_clustering_func"] = fs
    if mirror:
        kw["mirror_y"] = True
    m = c.M.utilities.surfce_to_stl(s, ni, nj, **kw)
    c.check("number of triangles", c.eq(c.ntri(m), 4 * ni * nj))
    y = -1 if mirror else 1
    R = lambda i: fr(c.toreal(i) / ni)
    S = lambda j: fs(c.toreal(j) / nj)
    if kind in ("default", "spaced"):
        c.check("node parameters start at 0", c.And(c.eq(fr(0.0), 0), c.eq(fs(0.0), 0)))
        c.check("node parameters end at 1", c.And(c.eq(fr(1.0), 1), c.eq(fs(1.0), 1)))
    for i, j in c.cells(m, ni, nj):
        p = {(a, b): cs(s(R(i + a), S(j + b))) for a in (0, 1) for b in (0, 1)}
        mid = [sum(p[q][k] for q in p) / 4 for k in range(3)]
        ring = [(0, 0), (1, 0), (1, 1), (0, 1)]
        t = 4 * (i * nj + j)
        for q in range(4):
            want = [p[ring[q]], p[ring[(q + 1) % 4]], mid]
            for v in range(3):
                w = want[v]
                got = c.tri(m, t + q, v)
                for k, e in zip("xyz", zip(got, [w[0], y * w[1], w[2]])):
                    c.check(f"triangle {q} vertex {v} [{k}]", c.eq(*e))

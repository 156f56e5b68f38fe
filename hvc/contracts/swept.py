"""Contracts of swept surfaces and swept components."""
from ..reg import contract
from .paths import cs

G = "geometry.geometry:"
SC = "components.swept:SweptComponent."


def blend(a, b, w):
    return [x * (1 - w) + y * w for x, y in zip(a, b)]


def between(c):
    where = c.choice("where", ["at", "between", "at the next"])
    if where != "between":
        return 0 if where == "at" else 1
    w = c.unit("w")
    c.assume(w > 0)
    c.assume(w < 1)
    return w


@contract("swept.edges", ["P12"], [G + "SweptPatchfromEdges.__init__", G + "SweptPatchfromEdges.__call__"])
def swept_edges(c):
    """Any number of edges."""
    n = c.int("edges", 2, sample=(2, 6))
    edges = c.seq("edge", 2, lambda i: c.apath("edge", at=i), n=n)
    k = c.index("k", n - 1)
    w, s = between(c), c.unit("s")
    r = (c.toreal(k) + w) / c.toreal(n - 1)
    c.witness(0, k, k + 1, n - 1)
    p = c.M.geometry.SweptPatchfromEdges(edges) if c.flag("positional") else c.M.geometry.SweptPatchfromEdges(edges=edges)
    q = p(r, s)
    c.instantiate(k, k + 1)
    a, b = c.getitem(edges, k), c.getitem(edges, k + 1)
    c.check_vec("linear blend of the neighbouring edges", q, blend(cs(a(s)), cs(b(s)), w))


def along(axis):
    def swept_patch(c):
        """Any number of cross-sections, in order along the sweep axis."""
        n = c.int("sections", 2, sample=(2, 5))
        secs = c.seq("section", 2, lambda i: c.asurf("section", at=i), n=n)
        at = lambda f: getattr(f(0, 0), axis)
        o = lambda i: at(c.getitem(secs, i))
        k = c.index("k", n - 1)
        c.witness(0, n - 1, k, k + 1, k + 2)
        c.increasing(secs, at)
        r, s = c.unit("r"), c.unit("s")
        first, last = o(0), o(n - 1)
        dist = first + r * (last - first)
        c.assume(o(k) <= dist)
        c.assume(dist <= o(k + 1))
        P = c.M.geometry.SweptPatch
        p = P(secs, axis) if axis != "z" else P(cross_sections=secs)
        q = p(r, s)
        per = lambda i: cs(c.M.geometry.SurfacePerimeter(c.getitem(secs, i))(s))
        c.uses("path.perimeter")
        w = (dist - o(k)) / (o(k + 1) - o(k))
        want = blend(per(k), per(k + 1), w)
        for a, x in zip("xyz", want):
            if a == axis:
                c.check("position along the sweep", c.eq(getattr(q, a), dist))
            else:
                c.check("linear blend of the neighbouring perimeters", c.eq(getattr(q, a), x))

    return swept_patch


for _a in "xyz":
    contract("swept.patch." + _a, ["P12"], [G + "SweptPatch.__init__", G + "SweptPatch.__call__"], cost=40, timeout=8000)(along(_a))


@contract("swept.patch.flat", ["P12"], [G + "SweptPatch.__init__"])
def swept_patch_flat(c):
    """No variation along the sweep axis: refused; otherwise accepted."""
    axis = c.choice("axis", ["x", "y", "z"])
    level = c.real("level")
    same = c.flag("all at one level")

    def section(i):
        f = c.asurf("section", at=i)
        return lambda r, s: level_at(c, f(r, s), axis, level) if same else f(r, s)

    n = c.int("sections", 2, sample=(2, 4))
    secs = c.seq("section", 2, section, n=n)
    at = lambda f: getattr(f(0, 0), axis)
    c.witness(0, n - 1)
    if not same:
        c.assume(at(c.getitem(secs, 0)) != at(c.getitem(secs, n - 1)))
    made = not c.raises(lambda: c.M.geometry.SweptPatch(secs, sweep_axis=axis), Exception)
    c.check("refused when there is nothing to sweep along" if same else "accepted otherwise", made != same)


def level_at(c, p, axis, level):
    q = {a: getattr(p, a) for a in "xyz"}
    q[axis] = level
    return c.M.vector.Vector3(**q)


def nxt(c, j, m):
    return c.ite(j < m - 1, j + 1, 0)


def sections(c, n, m, dev=None, counts=None):
    """n cross-sections of m edges each, each a closed loop."""

    def section(i):
        def edge(j):
            e = c.apath("edge", at=c.pair(i, j))
            a = cs(c.vec("corner", at=c.pair(i, j)))
            b = cs(c.vec("corner", at=c.pair(i, nxt(c, j, m))))
            d = dev(i, j) if dev else [0, 0, 0]
            e0, e1 = cs(e(0)), cs(e(1))

            def f(t):
                q = cs(e(t))
                return c.M.vector.Vector3(*[x + (1 - t) * (u - p) + t * (v + w - r)
                                            for x, u, v, w, p, r in zip(q, a, b, d, e0, e1)])

            return f

        return c.seq("edges", 1, edge, n=counts(i) if counts else m)

    return c.seq("sections", 2, section, n=n)


@contract("swept.accept", ["P12"], [SC + "__init__", SC + "_check_options"])
def accept(c):
    n = c.int("n", 2, sample=(2, 4))
    closed = c.flag("closed ends")
    m = 4 if closed else c.int("m", 2, sample=(2, 5))
    k = c.M.swept.SweptComponent(cross_sections=sections(c, n, m), close_ends=closed)
    c.check("closed loops with equal edge counts are accepted", c.eq(k.n_slices, n))


@contract("swept.refuse", ["P12"], [SC + "__init__", SC + "_check_options"])
def refuse(c):
    """Whatever is accepted has equal edge counts and closed loops."""
    n = c.int("n", 2, sample=(2, 4))
    why = c.choice("why", ["count", "open", "ends", "resolution"])
    K = c.M.swept.SweptComponent
    m = 4 if why == "resolution" else c.int("m", 2, sample=(2, 5))
    if why == "ends":
        c.assume(c.Or(m < 4, m > 4))
        c.check("closed ends need four edges", c.raises(lambda: K(sections(c, n, m))))
    elif why == "resolution":
        res = {e: c.int(e, 1, sample=(1, 3)) for e in ("e0", "e1", "e2", "e3", "sweep")}
        c.assume(c.Or(c.Not(c.eq(res["e0"], res["e2"])), c.Not(c.eq(res["e1"], res["e3"]))))
        c.check("closed ends need the same resolution on opposite edges",
                c.raises(lambda: K(sections(c, n, m), stl_resolution=res)))
    elif why == "count":
        counts = lambda i: m + c.int("more", 0, at=i, sample=(0, 1))
        secs = sections(c, n, m, counts=counts)
        if not c.raises(lambda: K(secs, False)):
            for i, e in c.each(secs):
                c.check("accepted: equal edge counts", c.eq(c.length(e), c.length(c.getitem(secs, 0))))
    else:
        dev = lambda i, j: [c.int("open", 0, 1, at=c.pair(i, j), sample=(0, 1)) * x for x in cs(c.vec("gap", at=c.pair(i, j)))]
        if not c.symbolic:
            # a single gap of any size along any of the axes
            where = (c.int("section", 0, sample=(0, 3)) % n, c.int("edge", 0, sample=(0, 4)) % m)
            axes = c.choice("along", [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 0, 0)])
            size = c.choice("size", [1.0, 1e-2, 1e-5, 1e-8])
            dev = lambda i, j: [size * a * x if (i, j) == where else 0 for a, x in zip(axes, cs(c.vec("gap")))]
        secs = sections(c, n, m, dev=dev)
        if not c.raises(lambda: K(cross_sections=secs, close_ends=False)):
            for i, sec in c.each(secs):
                for j, e in c.each(sec):
                    c.instantiate(j)
                    p, q = cs(e(1)), cs(c.getitem(sec, nxt(c, j, m))(0))
                    for u, v in zip(p, q):
                        c.check("accepted: loops closed", c.And(u - v <= 1e-12, v - u <= 1e-12))


@contract("swept.sides", ["P12", "P16"], [SC + "generate_patches"])
def sides(c):
    """Any number of sections and edges: one side surface per edge."""
    n = c.int("n", 2, sample=(2, 4))
    m = c.int("m", 2, sample=(2, 5))
    secs = sections(c, n, m)
    if not c.symbolic and c.flag("a section twice"):
        secs[n - 1] = secs[0]
    N = c.int("resolution", 1, sample=(1, 4))
    per_edge = c.flag("per edge")
    if per_edge:
        res = c.numbered("e", m, lambda i: c.int("of edge", 1, at=i, sample=(1, 4)))
        res["sweep"] = N
    k = c.M.swept.SweptComponent(secs, close_ends=False, stl_resolution=res if per_edge else N)
    k.generate_patches()
    if c.flag("generated again"):
        k.generate_patches()
    c.check("one side surface per edge", c.eq(c.length(k.patches), m))
    at, s, w = c.index("k", n - 1), c.unit("s"), between(c)
    c.witness(0, at, at + 1, n - 1)
    r = (c.toreal(at) + w) / c.toreal(n - 1)
    for j, key, p in c.entries(k.patches):
        e = lambda i, q=j: c.getitem(c.getitem(secs, i), q)
        q = p(r, s)
        c.instantiate(at, at + 1)
        c.check_vec("side surface blends its edges", q, blend(cs(e(at)(s)), cs(e(at + 1)(s)), w))
        c.check("resolution", c.And(c.eq(k.patch_res_r[key], N),
                                    c.eq(k.patch_res_s[key], c.int("of edge", 1, at=j, sample=(1, 4)) if per_edge else N)))


@contract("swept.caps", ["P12", "P16"], [SC + "generate_patches"])
def caps(c):
    """Any number of sections of four edges, closed ends."""
    n = c.int("n", 2, sample=(2, 4))
    secs = sections(c, n, 4)
    N = c.int("resolution", 1, sample=(1, 4))
    part = c.choice("part", [0, 1, 2, 3, 4])
    per_edge = c.flag("per edge") and part == 4
    if per_edge:
        a, b, w = [c.int("res " + e, 1, sample=(1, 4)) for e in ("a", "b", "sweep")]
        res = {"e0": a, "e1": b, "e2": a, "e3": b, "sweep": w}
        k = c.M.swept.SweptComponent(secs, stl_resolution=res)
    else:
        k = c.M.swept.SweptComponent(cross_sections=secs, stl_resolution=N)
    k.generate_patches()
    c.check("four sides and two caps", c.eq(c.length(k.patches), 6))
    t = c.unit("t")
    e = lambda i, j: c.getitem(c.getitem(secs, i), j)
    c.witness(0, n - 1)
    for j in range(4):
        key = f"swept_patch_{j}"
        p = k.patches[key]
        if not per_edge and j == part:
            c.check_vec("sides start at the first cross-section", p(0, t), cs(e(0, j)(t)))
            c.check_vec("sides end at the last cross-section", p(1, t), cs(e(n - 1, j)(t)))
        want = (res["sweep"], res[f"e{j}"]) if per_edge else (N, N)
        c.check("resolution of the sides", c.And(c.eq(k.patch_res_r[key], want[0]), c.eq(k.patch_res_s[key], want[1])))
    for end, i in (("0", 0), ("1", n - 1)):
        if part < 4:
            break
        key = "swept_patch_end_" + end
        p = k.patches[key]
        s, e_, n_, w_ = [cs(q) for q in (p(t, 0), p(1, t), p(t, 1), p(0, t))]
        u = 1 - t
        if end == "0":
            want = [(s, e(i, 0)(t)), (e_, e(i, 1)(t)), (n_, e(i, 2)(u)), (w_, e(i, 3)(u))]
        else:
            want = [(s, e(i, 0)(u)), (e_, e(i, 3)(u)), (n_, e(i, 2)(t)), (w_, e(i, 1)(t))]
        for got, exp in want:
            c.check_vec("caps reproduce the cross-section", c.M.vector.Vector3(*got), cs(exp))
        want = (res["e0"], res["e1"]) if per_edge else (N, N)
        c.check("resolution of the caps", c.And(c.eq(k.patch_res_r[key], want[0]), c.eq(k.patch_res_s[key], want[1])))


@contract("swept.seams", ["P12"], [G + "SweptPatchfromEdges.__call__", SC + "generate_patches"])
def seams(c):
    """Neighbouring sides meet wherever their edges do."""
    n = c.int("n", 2, sample=(2, 4))
    m = c.int("m", 2, sample=(2, 5))
    secs = sections(c, n, m)
    k = c.M.swept.SweptComponent(secs, close_ends=False)
    k.generate_patches()
    at, w = c.index("k", n - 1), between(c)
    c.witness(0, at, at + 1, n - 1)
    r = (c.toreal(at) + w) / c.toreal(n - 1)
    corner = lambda i, j: cs(c.vec("corner", at=c.pair(i, j)))
    for j, key, p in c.entries(k.patches):
        a, b = p(r, 0), p(r, 1)
        c.instantiate(at, at + 1)
        c.check_vec("seam towards the previous side", a, blend(corner(at, j), corner(at + 1, j), w))
        c.check_vec("seam towards the next side", b, blend(corner(at, nxt(c, j, m)), corner(at + 1, nxt(c, j, m)), w))

"""Contracts of components: transformations, meshes, composites, copies."""
from ..reg import contract
from .paths import cs, scramble
from .patches import minus, plus, rot

C = "components.component:Component."


def make(c, patches=None, **kw):
    """A component whose nominal patches are given."""

    class K(c.M.component.Component):
        componenttype = "wing"
        nominal = None

        def generate_patches(self):
            self.patches = c.hv_dict(self.nominal)

    k = K(**kw)
    k.nominal = patches if patches is not None else c.mapping("patch", lambda i: c.asurf("patch", at=i))
    k.generate_patches()
    k.verbosity = 0
    k._multiprocess = False
    return k


def turn(c, axis, angle):
    a = angle * c.pi / 180
    sn, cn = c.sin(a), c.cos(a)
    return lambda p: rot(axis, p, sn, cn)


def shift(o):
    return lambda p: plus(p, o)


def lift(f):
    return lambda p: plus(p, cs(f(*p)))


def bend(c, k, f, g):
    def m(p):
        x, y, z = p
        F, d = f(x, y), g(x, y)
        w = c.sqrt(1 + d * d)
        return [x - z * d / w, y, F + z / w] if k == "x" else [x, y - z * d / w, F + z / w]

    return m


def flip(axis):
    return lambda p: [-v if k == axis else v for k, v in zip("xyz", p)]


def remesh(c, what, k, n=1):
    """The mesh corresponds to the current patches."""
    c.mesh_is(what + ": mesh", k.mesh, [(key, p, n, n, {}) for key, p in c.each(k.patches)])


def mapped(c, what, k, before, fn, r, s):
    """Same patch names as before, each mapped by fn."""
    c.check(what + ": number of patches", c.eq(c.length(k.patches), c.length(before)))
    for key, p in c.each(k.patches):
        c.check(what + ": same names", key in before)
        if key in before:
            c.check_vec(what + ": patch", p(r, s), fn(cs(before[key](r, s))))


@contract("comp.steps", ["P15", "P25"], [C + m for m in ("rotate", "translate", "curve", "apply_modifier", "_reset_mesh")], stubs=["mesh.surface"])
def steps(c):
    k = make(c, stl_resolution=1)
    before = c.hv_dict(k.patches)
    r, s = c.real("r"), c.real("s")
    meshed = c.flag("meshed before")
    if meshed:
        remesh(c, "before", k)
    which = c.choice("step", ["rotate", "rotate default", "translate vector", "translate function", "curve", "curve twice", "curve none", "modifier", "modifier none"])
    if which == "rotate":
        ang = c.real("angle")
        ax = c.choice("axis", ["x", "y", "z"])
        k.rotate(ang, ax) if c.flag("positional") else k.rotate(angle=ang, axis=ax.upper())
        fn = turn(c, ax, ang)
    elif which == "rotate default":
        ang = c.real("angle")
        k.rotate(angle=ang)
        fn = turn(c, "y", ang)
    elif which == "translate vector":
        o = c.vec("o")
        O = cs(o)
        k.translate(o)
        fn = shift(O)
    elif which == "translate function":
        f = c.vecfun("f", ["x", "y", "z"])
        k.translate(f)
        fn = lift(f)
    elif which == "curve":
        f, g = c.afun("f", 2), c.afun("g", 2)
        ax = c.choice("axis", ["x", "y"])
        k._curvatures = c.hv_list([(ax, f, g)])
        k.curve()
        fn = bend(c, ax, f, g)
    elif which == "curve twice":
        f1, g1, f2, g2 = [c.afun(n, 2) for n in ("f1", "g1", "f2", "g2")]
        a, b = c.choice("axes", [("x", "y"), ("y", "x"), ("x", "x")])
        k._curvatures = c.hv_list([(a, f1, g1), (b, f2, g2)])
        k.curve()
        point = lambda q: (lambda r, s: c.M.vector.Vector3(*q))
        CP = c.M.geometry.CurvedPatch
        fn = lambda q: cs(CP(CP(point(q), a, f1, g1), b, f2, g2)(r, s))
        c.uses("surf.curved")
    elif which == "modifier":
        f = c.vecfun("f", ["x", "y", "z"])
        k._modifier_function = f
        k.apply_modifier()
        fn = lift(f)
    else:
        k.curve() if which == "curve none" else k.apply_modifier()
        fn = lambda p: p
    mapped(c, which, k, before, fn, r, s)
    if meshed:
        remesh(c, which, k)
    c.check("the patches handed over are not replaced", c.eq(c.length(k.nominal), c.length(before)))
    for key, p in c.each(before):
        c.check_vec("surfaces handed over stay", k.nominal[key](r, s), cs(p(r, s)))


@contract("comp.reflect", ["P15"], [C + "reflect"], stubs=["mesh.surface"])
def reflect(c):
    k = make(c, stl_resolution=1)
    before = c.hv_dict(k.patches)
    r, s = c.real("r"), c.real("s")
    meshed = c.flag("meshed before")
    if meshed:
        remesh(c, "before", k)
    ax = c.choice("axis", ["x", "y", "z", None])
    append = c.choice("append", [True, False, None])
    if append is None:
        append = True  # unless switched off
    else:
        k._append_reflection = append
    if c.flag("by argument"):
        k.reflect(ax) if ax is not None else k.reflect()
    else:
        k._reflection_axis = ax
        k.reflect()
    if ax is None:
        mapped(c, "no axis", k, before, lambda p: p, r, s)
        return
    if meshed:
        remesh(c, "reflected", k)
    if append:
        c.check("twice as many patches", c.eq(c.length(k.patches), 2 * c.length(before)))
        for key, p in c.each(before):
            c.check("original patches stay", key in k.patches)
            c.check_vec("original patch", k.patches[key](r, s), cs(p(r, s)))
        new = [(key, p) for key, p in c.each(k.patches) if key not in before]
    else:
        c.check("as many patches", c.eq(c.length(k.patches), c.length(before)))
        new = list(c.each(k.patches))
    if c.symbolic:
        c.check("one mirrored copy per patch", len(new) == 1)
        src = [p for _, p in c.each(before)]
    else:
        src = [p for _, p in c.each(before)]
        c.check("one mirrored copy per patch", len(new) == len(src))
    for (key, p), q in zip(new, src):
        c.check_vec("mirrored copy", p(r, s), flip(ax)(cs(q(r, s))))


@contract("comp.reflect.again", ["P15"], [C + "reflect"])
def reflect_again(c):
    """Reflecting an already reflected component keeps all its patches."""
    n = c.int("n", 1, sample=(1, 3))
    k = make(c, patches=c.mapping("patch", lambda i: c.asurf("patch", at=i), n=n))
    before = c.hv_dict(k.patches)
    r, s = c.real("r"), c.real("s")
    a, b = c.choice("axes", [("y", "z"), ("y", "y"), ("x", "y")])
    k.reflect(a)
    k.reflect(b)
    c.check("four times as many patches", c.eq(c.length(k.patches), 4 * n))
    A, B = flip(a), flip(b)
    want = [lambda p: p, A, B, lambda p: B(A(p))]
    if c.symbolic:
        images = [cs(p(r, s)) for _, p in c.each(k.patches)]
        c.check("four images of each patch", len(images) == 4)
        groups = [(images, [cs(p(r, s)) for _, p in c.each(before)][0])]
    else:
        images = [cs(p(r, s)) for p in k.patches.values()]
        groups = [(images[i::n], cs(p(r, s))) for i, p in enumerate(before.values())]
    for got, p in groups:
        for w in want:
            q = w(p)
            c.check("every image is there", c.Or(*[c.And(*[c.eq(u, v) for u, v in zip(g, q)]) for g in got]))


@contract("comp.transform", ["P15"], [C + "transform"])
def transform(c):
    """Any number of steps: each is applied exactly once, in order."""
    k = make(c)
    ops = c.seq("op", 0, lambda i: ("rotate", c.real("angle", at=i), "x"), sample=(0, 5))
    log = c.recorder()
    c.watch(log, k, "rotate")
    k._transformations = ops
    k.transform()
    n = 0
    for i, op, evs in c.rounds(log, ops, k):
        c.check("applied exactly once", len(evs) == 1)
        if len(evs) == 1:
            name, a, kw = evs[0]
            c.check("with its arguments", len(a) + len(kw) == 2)
            c.check("angle", c.eq(a[0] if a else kw["angle"], op[1]))
            c.check("axis", (a[1] if len(a) > 1 else kw["axis"]) == op[2])


@contract("comp.transform.order", ["P15", "P25"], [C + "transform"])
def transform_order(c):
    k = make(c)
    before = c.hv_dict(k.patches)
    r, s = c.real("r"), c.real("s")
    a1, a2 = c.real("a1"), c.real("a2")
    o, f = c.vec("o"), c.vecfun("f", ["x", "y", "z"])
    O = cs(o)
    ops = {"rotate": (("rotate", a1, "z"), turn(c, "z", a1)), "rotate x": (("rotate", a2, "x"), turn(c, "x", a2)),
           "translate": (("translate", o), shift(O)), "function": (("translate", f), lift(f))}
    seq = c.choice("sequence", [(), ("rotate",), ("rotate", "translate"), ("translate", "rotate"), ("function", "rotate x", "rotate"),
                                ("rotate", "rotate x", "translate"), ("translate", "translate")])
    k._transformations = c.hv_list([ops[q][0] for q in seq])
    k.transform()

    def fn(p):
        for q in seq:
            p = ops[q][1](p)
        return p

    mapped(c, "+".join(seq) or "none", k, before, fn, r, s)


# ------------------------------------------------------------------ meshing
def clusters(c, k):
    fi, fj = c.afun("fi", 1, lo=0, hi=1), c.afun("fj", 1, lo=0, hi=1)
    cl = {}
    if c.flag("i clustering"):
        cl["i_clustering_func"] = fi
    if c.flag("j clustering"):
        cl["j_clustering_func"] = fj
    if c.flag("separately"):
        for n, f in sorted(cl.items(), reverse=c.flag("j first")):
            k.add_clustering_options(**{n: f})
    else:
        k.add_clustering_options(**cl)
    return cl


@contract("comp.mesh", ["P16", "P15"], [C + m for m in ("surface", "mesh", "add_clustering_options")], stubs=["mesh.surface"])
def mesh(c):
    n = c.int("resolution", 1, sample=(1, 3))
    k = make(c, stl_resolution=n)
    before = c.hv_dict(k.patches)
    how = c.choice("how", ["own", "requested", "per edge"])
    if how == "requested" and c.flag("meshed before"):
        k._multiprocess = False
        remesh(c, "first", k, n)
    cl = clusters(c, k)
    k._multiprocess = c.flag("workers") if c.symbolic else c.flag("workers") and c.rare()
    if how == "per edge" or c.flag("patches with numbers of their own"):
        k.patch_res_r = c.per_key(before, "res_r", lambda nm, i: c.int(nm, 1, at=i, sample=(1, 3)))
        k.patch_res_s = c.per_key(before, "res_s", lambda nm, i: c.int(nm, 1, at=i, sample=(1, 3)))
        if how == "requested":
            k.stl_resolution = "edges"
    if how == "requested":
        m = c.int("requested", 1, sample=(1, 3))
        k.surface(resolution=m) if c.flag("keyword") else k.surface(m)
        want = [(key, p, m, m, cl) for key, p in c.each(before)]
    elif how == "per edge":
        k.stl_resolution = "edges"
        want = [(key, p, k.patch_res_r[key], k.patch_res_s[key], cl) for key, p in c.each(before)]
    else:
        if c.flag("surfaces first"):
            k.surface()
        want = [(key, p, n, n, cl) for key, p in c.each(before)]
    c.mesh_is("mesh", k.mesh, want)
    c.mesh_is("mesh asked for again", k.mesh, want)
    c.check("patches stay", c.eq(c.length(k.patches), c.length(before)))
    for key, p in c.each(before):
        c.mesh_is("surface of a patch", k.surfaces[key], [("",) + w[1:] for w in want if w[0] == key])


@contract("comp.mesh.none", ["P16"], [C + "surface"])
def mesh_none(c):
    k = make(c, patches={}, stl_resolution=c.int("n", 1, sample=(1, 3)))
    c.check("meshing without patches is refused", c.raises(lambda: k.surface()))
    c.check("asking for the mesh without patches is refused", c.raises(lambda: k.mesh))


@contract("comp.mesh.reflected", ["P16", "P15"], [C + "reflect", C + "surface"], stubs=["mesh.surface"])
def mesh_reflected(c):
    """Mirrored patches are meshed like their originals."""
    k = make(c, stl_resolution="edges")
    before = c.hv_dict(k.patches)
    k.patch_res_r = c.per_key(before, "res_r", lambda nm, i: c.int(nm, 1, at=i, sample=(1, 3)))
    k.patch_res_s = c.per_key(before, "res_s", lambda nm, i: c.int(nm, 1, at=i, sample=(1, 3)))
    rr, rs = c.hv_dict(k.patch_res_r), c.hv_dict(k.patch_res_s)
    k._reflection_axis = "y"
    k._append_reflection = c.flag("append")
    k.reflect()
    res = [(rr[key], rs[key]) for key, _ in c.each(before)]
    new = [(key, p) for key, p in c.each(k.patches)]
    res = res * (len(new) // len(res))
    c.mesh_is("mesh", k.mesh, [(key, p, a, b, {}) for (key, p), (a, b) in zip(new, res)])


@contract("comp.to_stl", ["P16", "P18"], [C + "to_stl"], stubs=["mesh.surface"])
def to_stl(c):
    k = make(c, stl_resolution=1)
    ghost = c.flag("ghost")
    if ghost:
        k._ghost = True
    named = c.flag("named")
    files = c.stl_files(lambda d: k.to_stl(d + "/one.stl") if named else k.to_stl())
    if ghost or not named:
        c.check("nothing written", len(files) == 0)
    else:
        c.check("one file", list(files) == ["one.stl"])
        for f, m in files.items():
            c.mesh_is("file", m, [(key, p, 1, 1, {}) for key, p in c.each(k.patches)])


COMP = ["wing:Wing", "fin:Fin", "swept:SweptComponent", "revolved:RevolvedComponent", "composite:CompositeComponent",
        "polygon:Cube", "polygon:Sphere"]


@contract("comp.settings", ["P16"], ["components." + k + ".__init__" for k in COMP] + [C + "__init__"], stubs=["mesh.surface"])
def settings(c):
    """Components of every kind mesh at the resolution they were made with."""
    M, V = c.M, c.M.vector.Vector3
    N = c.int("resolution", 1, sample=(1, 4))
    kw = dict(stl_resolution=N, verbosity=c.choice("verbosity", [0, 1]), name="part")
    o, x, y = V(0.0, 0.0, 0.0), V(1.0, 0.0, 0.0), V(0.0, 1.0, 0.0)
    flat = lambda *a, **k: V(0.0, 0.0, 0.1)
    kind = c.choice("kind", ["wing", "fin", "swept", "revolved", "composite", "cube", "sphere"])
    if kind == "wing":
        k = M.wing.Wing(o, x, y, V(1.0, 1.0, 0.0), M.path.Line(o, y), t_B1=0.2, t_B2=0.8, top_tf=flat, bot_tf=flat, **kw)
    elif kind == "fin":
        k = M.fin.Fin(o, x, y, V(1.0, 1.0, 0.0), 0.1, 0.0, flat, flat, **kw)
    elif kind == "swept":
        e = [M.path.Line(a, b) for a, b in ((o, x), (x, y), (y, o))]
        k = M.swept.SweptComponent(c.hv_list([c.hv_list(e), c.hv_list(e)]), close_ends=False, **kw)
    elif kind == "revolved":
        k = M.revolved.RevolvedComponent(M.path.Line(x, y), **kw)
    elif kind == "composite":
        k = M.composite.CompositeComponent(**kw)
    else:
        k = getattr(M.polygon, kind.capitalize())(1.0, o, **kw)
    k._multiprocess = False
    k.patches = c.mapping("patch", lambda i: c.asurf("patch", at=i))
    remesh(c, kind, k, N)
    c.check("keeps its name", k.name == "part")


# --------------------------------------------------------------- composites
def child(c, i, **kw):
    n = c.int("patches", 1, at=i, sample=(1, 3))
    return make(c, patches=c.mapping("patch", lambda j: c.asurf("patch", at=c.pair(i, j)), n=n), **kw)


CC = "components.composite:CompositeComponent."


@contract("comp.composite", ["P22"], [CC + "__init__", CC + "add_component", CC + "generate_patches"])
def composite(c):
    K = c.M.composite.CompositeComponent(stl_resolution=2, name="both")
    K.verbosity = c.choice("verbosity", [0, 1])
    how = c.choice("options", ["none", "curve", "reflect", "replace", "transform", "curve reflect transform",
                                 "curve replace", "replace transform", "curve transform"])
    has = lambda *o: any(x in how.split() for x in o)
    again = c.flag("again")
    r, s = c.real("r"), c.real("s")
    children = c.seq("child", 1, lambda i: child(c, i), sample=(1, 3))
    if has("curve"):
        f, g = c.afun("f", 2), c.afun("g", 2)
    ang = lambda i: c.real("angle", at=i)

    def opts(i):
        o = {}
        if has("curve"):
            o["curvatures"] = c.hv_list([("x", f, g)])
        if has("reflect", "replace"):
            o["reflection_axis"] = "y"
        if has("replace"):
            o["append_reflection"] = False
        if has("transform"):
            o["transformations"] = c.hv_list([("rotate", ang(i), "z"), ("translate", c.vec("o", at=i))])
        return o

    for i, ch in c.loop(children):
        K.add_component(ch, **opts(i))
    K.generate_patches()
    if again:
        K.generate_patches()
    point = lambda q: (lambda r, s: c.M.vector.Vector3(*q))

    def bent(q):
        if not has("curve"):
            return q
        c.uses("surf.curved")
        return cs(c.M.geometry.CurvedPatch(point(q), "x", f, g)(r, s))

    def moved(i, q):
        if not has("transform"):
            return q
        return shift(cs(c.vec("o", at=i)))(turn(c, "z", ang(i))(q))

    want = []
    for i, ch in c.each(children):
        for key, p in c.each(ch.nominal):
            q = bent(cs(p(r, s)))
            if not has("replace"):
                want.append((i, key, moved(i, q)))
        for key, p in c.each(ch.nominal):
            q = bent(cs(p(r, s)))
            if has("reflect", "replace"):
                want.append((i, key, moved(i, flip("y")(q))))
    got = list(c.each(K.patches))
    c.check("exactly the patches of the children", len(got) == len(want))
    if len(got) == len(want):
        for (k, p), (i, key, q) in zip(got, want):
            c.check("one family per child and patch", c.families(k) == c.families(key, children))
            c.check_vec("patch", p(r, s), q)


@contract("comp.composite.refuse", ["P22"], [CC + "add_component"])
def composite_refuse(c):
    K = c.M.composite.CompositeComponent()
    K.verbosity = 0
    t = c.choice("type", ["composite", "nose", "", None, "Wing", "body", "fin", "wing", "swept", "revolved", "cube", "sphere"])
    k = make(c)
    k.componenttype = t
    if t in ("fin", "wing", "swept", "revolved", "cube", "sphere"):
        K.add_component(k)
        c.check("added", len(K.components) == 1 and K.components[0] is k)
    else:
        c.check("unsupported type is refused", c.raises(lambda: K.add_component(k)))
        c.check("and not added", len(K.components) == 0)


@contract("comp.deepcopy", ["P25"], [C + "__deepcopy__"])
def deep_copy(c):
    M = c.M
    V = M.vector.Vector3
    L = M.path.Line(V(c.real("x0"), c.real("y0"), c.real("z0")), V(c.real("x1"), c.real("y1"), c.real("z1")))
    patch = M.geometry.RotatedPatch(M.geometry.RevolvedPatch(L, 0.0, 1.0), c.real("angle"), axis="x")
    r, s = c.real("r"), c.real("s")
    k = make(c, patches={"a": patch, "b": c.asurf("b")}, params={"p": c.real("p"), "q": c.hv_list([1, 2])}, stl_resolution=3, name="wing")
    k.generate_patches()
    k.patches["own"] = patch
    k._transformations = c.hv_list([("rotate", c.real("t"), "z")])
    k.patch_res_r = c.hv_dict({"a": 2})
    f = c.afun("f", 1)
    k.add_clustering_options(i_clustering_func=f)
    k.params["owner"] = k
    d = c.deepcopy(k)
    c.check("a copy refers to itself where the original does", d.params["owner"] is d and k.params["owner"] is k)
    c.check("same kind", type(d) is type(k) and d is not k)
    c.check("same settings", d.name == "wing" and d.stl_resolution == 3 and d._clustering["i_clustering_func"] is f)
    c.check("same parameters", bool(c.eq(d.params["p"], k.params["p"])))
    names = ["a", "b", "own"]
    c.check("same patches", list(d.patches) == names)
    want = {n: cs(k.patches[n](r, s)) for n in names}
    for n in names:
        c.check_vec("same patch", d.patches[n](r, s), want[n])
    first, second = (k, d) if c.flag("change the original") else (d, k)
    # change one of the two in every way
    first.rotate(c.real("u"), "y")
    first.translate(c.vec("o"))
    first.patches["more"] = c.asurf("more")
    first.params["p"] = 0.0
    first.params["q"].append(3)
    first._transformations.append(("rotate", 1.0, "x"))
    first.patch_res_r["a"] = 9
    first.add_clustering_options(i_clustering_func=c.afun("g", 1))
    first.name = "other"
    c.check("patches of the other stay", list(second.patches) == names)
    for n in names:
        c.check_vec("patch of the other", second.patches[n](r, s), want[n])
    c.check("parameters of the other", c.eq(second.params["p"], c.real("p")))
    c.check("lists of the other", len(second.params["q"]) == 2 and len(second._transformations) == 1)
    c.check("resolutions of the other", second.patch_res_r["a"] == 2)
    c.check("clustering of the other", second._clustering["i_clustering_func"] is f)
    c.check("name of the other", second.name == "wing")
    # the curve the copy is built from
    if second is d:
        scramble(c, L.p0)
        for n in names:
            c.check_vec("patch of the copy after changing the curve", d.patches[n](r, s), want[n])

"""Contracts of the vehicle: generation, transformations, registry, export."""
from ..reg import contract
from .components import child, flip, make, remesh, shift, turn
from .paths import cs
from .patches import plus

W = "vehicle:Vehicle."
TYPES = ["wing", "fin", "swept", "revolved", "composite"]


def vehicle(c, comps=None):
    v = c.M.vehicle.Vehicle()
    v.verbosity = 0
    if comps is not None:
        v.components = comps
    return v


def point(c, q):
    return lambda r, s: c.M.vector.Vector3(*q)


@contract("veh.generate", ["P17"], [W + "generate", W + "transform", W + "add_vehicle_transformations"])
def generate(c):
    """Any number of components with any number of patches each."""
    steps = c.choice("steps", ["none", "modifier", "curve", "offset", "reflect", "replace", "transform", "vehicle",
                               "modifier curve", "curve offset", "offset reflect", "reflect transform", "transform vehicle",
                               "modifier offset", "offset transform", "all"])
    has = lambda k: k in steps.split() or steps == "all" and k != "replace"
    r, s = c.real("r"), c.real("s")
    comps = c.seq("comp", 1, lambda i: child(c, i), sample=(1, 3))
    f = c.vecfun("f", ["x", "y", "z"])
    F, G = c.afun("F", 2), c.afun("G", 2)
    a = lambda i: c.real("angle", at=i)
    o = lambda i: c.vec("offset", at=i)
    b, w = c.real("b"), c.vec("w")
    Wv = cs(w)
    ax = c.choice("axis", ["x", "y", "z"]) if has("reflect") or has("replace") else None
    for i, k in c.loop(comps):
        if has("modifier"):
            k._modifier_function = f
        if has("curve"):
            k._curvatures = c.hv_list([("x", F, G)])
        if has("reflect") or has("replace"):
            k._reflection_axis = ax
            k._append_reflection = has("reflect")
        if has("transform"):
            k._transformations = c.hv_list([("rotate", a(i), "z"), ("translate", o(i))])
        k._ghost = False
    v = vehicle(c, comps)
    off = 0
    if has("offset"):
        off = c.real("off")
        v.vehicle_angle_offset = off
    if has("vehicle"):
        T = [("translate", w), ("rotate", b, "x")]
        how = c.choice("given", ["list", "one by one", "separate lists"])
        if how == "list":
            v.add_vehicle_transformations(c.hv_list(T))
        else:
            for t in T:
                v.add_vehicle_transformations(t if how == "one by one" else c.hv_list([t]))
    v.generate()
    if c.flag("generated again"):
        v.generate()

    def before_mirror(q):
        if has("modifier"):
            q = plus(q, cs(f(*q)))
        if has("curve"):
            c.uses("surf.curved")
            q = cs(c.M.geometry.CurvedPatch(point(c, q), "x", F, G)(r, s))
        if has("offset"):
            q = turn(c, "y", off)(q)
        return q

    def after(i, q):
        if has("transform"):
            q = shift(cs(o(i)))(turn(c, "z", a(i))(q))
        if has("vehicle"):
            q = turn(c, "x", b)(shift(Wv)(q))
        return q

    for i, k in c.each(comps):
        want = []
        if not has("replace"):
            want += [after(i, before_mirror(cs(p(r, s)))) for _, p in c.each(k.nominal)]
        if has("reflect") or has("replace"):
            want += [after(i, flip(ax)(before_mirror(cs(p(r, s))))) for _, p in c.each(k.nominal)]
        got = [p for _, p in c.each(k.patches)]
        c.check("number of patches", len(got) == len(want))
        if len(got) == len(want):
            for p, q in zip(got, want):
                c.check_vec("patch", p(r, s), q)


@contract("veh.generate.once", ["P17"], [W + "generate"])
def generate_once(c):
    log = c.recorder()

    def mk(i):
        k = make(c)
        c.watch(log, k, "generate_patches")
        k._ghost = i == 0 if c.concrete else False
        return k

    comps = c.seq("comp", 1, mk, sample=(1, 3))
    v = vehicle(c, comps)
    v.verbosity = c.choice("verbosity", [0, 1, 2])
    v.generate()
    for i, k in c.each(comps):
        c.check("each component is built once", len(c.calls(log, k, comps)) == 1)


@contract("veh.transform", ["P17"], [W + "transform"])
def transform(c):
    """Any number of components and of transformations."""
    log = c.recorder()

    def mk(i):
        k = make(c)
        c.watch(log, k, "rotate")
        k._ghost = c.choice("ghost", [False, True]) if c.symbolic else i % 2 == 1
        return k

    comps = c.seq("comp", 1, mk, sample=(1, 3))
    ops = c.seq("op", 0, lambda i: ("rotate", c.real("angle", at=i), "x"), sample=(0, 4))
    v = vehicle(c, comps)
    v._generated = True
    v.transform(ops)
    for _, k in c.each(comps):
        for i, op, evs in c.rounds(log, ops, k, comps):
            c.check("applied exactly once", len(evs) == 1)
            if len(evs) == 1:
                name, a, kw = evs[0]
                c.check("with its arguments", len(a) + len(kw) == 2)
                c.check("angle", c.eq(a[0] if a else kw["angle"], op[1]))
                c.check("axis", (a[1] if len(a) > 1 else kw["axis"]) == op[2])


@contract("veh.transform.mesh", ["P17", "P15"], [W + "transform"], stubs=["mesh.surface"])
def transform_mesh(c):
    r, s = c.real("r"), c.real("s")
    comps = c.seq("comp", 1, lambda i: child(c, i, stl_resolution=1), sample=(1, 3))
    for _, k in c.loop(comps):
        k._ghost = c.flag("ghost")
    v = vehicle(c, comps)
    a, b, o = c.real("a"), c.real("b"), c.vec("o")
    O = cs(o)
    ops = [("rotate", a, "z"), ("translate", o), ("rotate", b, "x")]
    c.check("refused before generation", c.raises(lambda: v.transform(c.hv_list(ops))))
    v.generate()
    meshed = c.flag("meshed before")
    if meshed:
        for _, k in c.loop(comps):
            k.mesh
    which = c.choice("given", ["list", "tuple", "twice"])
    if which == "list":
        v.transform(c.hv_list(ops))
        fn = lambda q: turn(c, "x", b)(shift(O)(turn(c, "z", a)(q)))
    elif which == "tuple":
        v.transform(ops[0])
        fn = turn(c, "z", a)
    else:
        v.transform(c.hv_list(ops[:1]))
        v.transform(c.hv_list(ops[2:]))
        fn = lambda q: turn(c, "x", b)(turn(c, "z", a)(q))
    for i, k in c.each(comps):
        c.check("number of patches", c.eq(c.length(k.patches), c.length(k.nominal)))
        for key, p in c.each(k.nominal):
            c.check_vec("patch", k.patches[key](r, s), fn(cs(p(r, s))))
        if meshed:
            remesh(c, "transformed", k)


# ----------------------------------------------------------- registry, export
@contract("veh.add", ["P18"], [W + "add_component"], max_paths=3000)
def add(c):
    """One more component on a vehicle with any number of them."""
    M = c.M
    v = vehicle(c)
    v.verbosity = c.choice("verbosity", [0, 1])
    t = c.choice("type", TYPES)
    n = c.int("before", 0, sample=(0, 3))
    olds = c.history(v, t, n, lambda i: make(c))
    # and perhaps one of another type
    other = make(c) if c.flag("another type") else None
    if other is not None:
        other.componenttype = "fin" if t == "wing" else "wing"
        v.add_component(other, name="other")
        n_all = n + 1
    else:
        n_all = n
    k = make(c)
    k.componenttype = t
    named = c.choice("name", ["given", "own", "both", "none"])
    if named in ("own", "both"):
        k.name = "own"
    opt = c.choice("options", ["none", "all", "no append", "ghost"])
    F, G, mod, cl = c.afun("F", 2), c.afun("G", 2), c.vecfun("f", ["x", "y", "z"]), c.afun("cl", 1)
    kw = {}
    if named in ("given", "both"):
        kw["name"] = "given"
    curves, steps = c.hv_list([("x", F, G)]), c.hv_list([("rotate", c.real("a"), "x")])
    if opt in ("all", "no append"):
        kw.update(reflection_axis="y", curvatures=curves, transformations=steps, modifier_function=mod,
                  clustering={"i_clustering_func": cl})
    if opt == "no append":
        kw["append_reflection"] = False
    if opt == "ghost":
        kw["ghost"] = True
    # the component may have been part of another vehicle
    k._ghost = c.flag("ghost before")
    if k._ghost and opt in ("all", "no append"):
        k._reflection_axis, k._curvatures, k._modifier_function = "x", c.hv_list([]), c.vecfun("e", ["x", "y", "z"])
        k._transformations = c.hv_list([("rotate", 1, "z")])
        k.add_clustering_options(i_clustering_func=c.afun("cl before", 1))
    v.add_component(k, **kw)
    want = {"given": "given", "both": "given", "own": "own"}.get(named) or c.text(t, "_", n + 1)
    c.check("registered last, after those before", c.eq(c.length(v.components), n_all + 1) & (c.last(v.components) is k))
    c.check("registered under its name", want in v._named_components and v._named_components[want] is k)
    c.check("registered once", c.eq(c.length(v._named_components), n_all + 1))
    num = c.text(t, "_", n + 1)
    c.check("numbered within its type", num in v._enumerated_components and v._enumerated_components[num] is k)
    for name, old in olds:
        c.check("others keep their registration", name in v._named_components and v._named_components[name] is old)
        c.check("others keep their options", old._reflection_axis is None and old._curvatures is None and len(old._transformations) == 0
                and old._modifier_function is None and len(old._clustering) == 0 and not old._ghost and old.name is None)
    if other is not None:
        c.check("others keep their registration", "other" in v._named_components and v._named_components["other"] is other)
    all_ = opt in ("all", "no append")
    c.check("name", k.name == kw.get("name", "own" if named == "own" else None))
    c.check("reflection", k._reflection_axis == ("y" if all_ else None) and k._append_reflection == (opt != "no append"))
    c.check("curvatures", (k._curvatures is curves) if all_ else k._curvatures is None)
    c.check("transformations", (k._transformations is steps) if all_ else len(k._transformations) == 0)
    c.check("modifier", (k._modifier_function is mod) if all_ else k._modifier_function is None)
    c.check("clustering", (len(k._clustering) == 1 and k._clustering["i_clustering_func"] is cl) if all_ else len(k._clustering) == 0)
    c.check("ghost flag", bool(k._ghost) == (opt == "ghost"))


@contract("veh.add.refuse", ["P18"], [W + "add_component"])
def add_refuse(c):
    v = vehicle(c)
    t = c.choice("type", ["nose", "", None, "Wing", "body", "cube", "sphere"] + TYPES)
    k = make(c)
    k.componenttype = t
    if t in TYPES:
        v.add_component(k)
        c.check("added", len(v.components) == 1)
    elif t in ("cube", "sphere"):
        return
    else:
        c.check("unknown type is refused", c.raises(lambda: v.add_component(k)))
        c.check("and not registered", len(v.components) == 0 and len(v._named_components) == 0)


@contract("veh.to_stl", ["P18"], [W + "to_stl", W + "configure"], stubs=["mesh.surface"])
def to_stl(c):
    """Any number and mix of components."""
    kinds = {}

    def mk(i):
        k = make(c, stl_resolution=1)
        t = c.choice("type", TYPES) if c.symbolic else c.choice(f"type{i}", TYPES[:2])
        named = c.flag("named") if c.symbolic else c.flag(f"named{i}")
        ghost = c.flag("ghost") if c.symbolic else c.flag(f"ghost{i}")
        kinds[0 if c.symbolic else i] = t
        k.componenttype = t
        k.name = c.label("Part", i) if named else None
        k._ghost = ghost
        return k

    comps = c.seq("comp", 1, mk, sample=(1, 5))
    count = c.tally(comps, TYPES, lambda j=0: kinds[j])
    v = vehicle(c, comps)
    v._generated = True
    prefix = c.choice("prefix", [None, "pre"])
    merge = c.choice("merge", [False, True, None])
    if merge is None:
        v.configure(name="craft", verbosity=0)
    else:
        v.name = "craft"
    merged = []
    c.patch(c.M.utilities, "merge_stls", lambda *a, **k: merged.append((a, k)))
    kw = {} if prefix is None else {"prefix": prefix}
    if merge is not None:
        kw["merge"] = merge
    files = c.stl_files(lambda d: v.to_stl(**kw), here=True, over=(comps,))
    listed = None
    if merge:
        c.check("merged once", len(merged) == 1)
        a, kw = merged[0]
        kw = dict(zip(("stl_files", "name"), a), **kw)
        c.check("merged file name", kw["name"] == (prefix or "craft"))
        listed = [x for _, x in c.each(kw["stl_files"])]
    else:
        c.check("not merged", len(merged) == 0)
    want = {}
    for i, k in c.each(comps):
        if k._ghost:
            continue
        if k.name:
            name = c.text(*([prefix, "-"] if prefix else []), k.name, ".stl")
        else:
            name = c.text(prefix or "craft", "-", k.componenttype, "-", count(k.componenttype, i), ".stl")
        want[name] = k
    c.check("one file per component that is no ghost, named as documented", sorted(files) == sorted(want))
    if listed is not None:
        c.check("merging uses the files written", list(listed) == list(want))
    for name, k in want.items():
        if name in files:
            c.mesh_is("file", files[name], [(key, p, 1, 1, {}) for key, p in c.each(k.patches)])


@contract("veh.non_ghost", ["P18"], [W + "get_non_ghost_components"])
def non_ghost(c):
    def mk(i):
        k = make(c)
        k._ghost = c.flag("ghost") if c.symbolic else c.flag(f"ghost{i}")
        k.name = c.choice("name" if c.symbolic else f"name{i}", [None, "part"])
        return k

    comps = c.mapping("comp", mk)
    v = vehicle(c)
    v._named_components = comps
    out = v.get_non_ghost_components()
    for key, k in c.each(comps):
        c.check("exactly the components that are no ghosts", (key in out) == (not k._ghost))
        if key in out:
            c.check("under their names", out[key] is k)

"""Contracts of the mass properties of a vehicle."""
from ..reg import contract
from .components import make
from .vehicle import vehicle

A = "utilities:assess_inertial_properties"


def bodies(c):
    """A vehicle with any number of named components, any meshes and densities."""
    own = c.choice("name carried by the components", [None, "unrelated"])

    def mk(i):
        k = make(c, patches=c.hv_dict({}))
        k.name = own
        k.mesh = c.solid("solid", i)
        k._ghost = False
        return k

    comps = c.mapping("comp", mk)
    v = vehicle(c)
    v._named_components = comps
    v._generated = True
    dens = c.per_key(comps, "density", lambda name, i: c.pos(name, at=i))
    for m in (comps, dens):
        c.not_named(m, "unrelated")
    dens["unrelated"] = c.pos("unrelated density")
    return v, comps, dens


@contract("mass.assess", ["P19"], [A])
def assess(c):
    v, comps, dens = bodies(c)
    log = []
    generated = c.flag("generated")
    v._generated = generated
    v.generate = lambda *a, **k: log.append((a, k))
    part = {}
    for key, k in c.each(comps):
        part[key] = k.mesh.get_mass_properties_with_density(dens[key]) + (c.area(k.mesh),)
    # the sums run over all components; part holds an arbitrary one of them
    total = lambda f: c.total_over(comps, lambda key: f(*part[key]))
    M = total(lambda vol, m, g, J, a: m)
    c.assume(M > (0 if c.symbolic else 0.2 * total(lambda vol, m, g, J, a: abs(m))))
    whole, each = c.M.utilities.assess_inertial_properties(vehicle=v, component_densities=dens)
    c.check("generated first, once, if needed", len(log) == (0 if generated else 1))
    c.check("volume is the sum", c.eq(whole["volume"], total(lambda vol, m, g, J, a: vol)))
    c.check("area is the sum", c.eq(whole["area"], total(lambda vol, m, g, J, a: a)))
    c.check("mass is the sum", c.eq(whole["mass"], M))
    G = [total(lambda vol, m, g, J, a, q=q: m * g[q]) / M for q in range(3)]
    for q in range(3):
        c.check("centre of gravity is the mass-weighted mean", c.eq(whole["cog"][q], G[q]))

    def moved(p, q):
        def term(vol, m, g, J, a):
            r = [g[w] - G[w] for w in range(3)]
            d = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
            return J[p][q] + m * ((d if p == q else 0) - r[p] * r[q])

        return term

    for p in range(3):
        for q in range(3):
            c.check("inertia about the common centre of gravity", c.eq(whole["moi"][p][q], total(moved(p, q))))
    for key, k in c.each(comps):
        vol, m, g, J, a = part[key]
        for name, want in (("volume", vol), ("mass", m), ("area", a)):
            c.check("components under their own name: " + name, key in each[name] and c.eq(each[name][key], want))
        for q in range(3):
            c.check("components under their own name: cog", c.eq(each["cog"][key][q], g[q]))
            for p in range(3):
                c.check("components under their own name: moi", c.eq(each["moi"][key][p][q], J[p][q]))
    for name in ("volume", "mass", "area", "cog", "moi"):
        c.check("no other names", c.eq(c.length(each[name]), c.length(comps)))


@contract("mass.analyse", ["P19"], ["vehicle:Vehicle.analyse", "vehicle:Vehicle.analyse_after_generating", "vehicle:Vehicle.generate"])
def analyse(c):
    v, comps, dens = bodies(c)
    c.not_named(comps, "vehicle")      # the summary names the whole so
    c.uses("mass.assess")
    m, vol, a = c.pos("m"), c.pos("v"), c.pos("a")
    cog, moi = object(), object()
    table = lambda nm: c.per_key(comps, nm, lambda name, i: c.pos(name, at=i))
    each = {"mass": table("pm"), "volume": table("pv"), "area": table("pa"), "cog": table("pc"), "moi": table("pi")}
    asked = []

    def fake(*args, **kw):
        kw = dict(zip(("vehicle", "component_densities"), args), **kw)
        asked.append(kw)
        return c.hv_dict({"mass": m, "volume": vol, "area": a, "cog": cog, "moi": moi}), c.hv_dict(each)

    c.patch(c.M.utilities, "assess_inertial_properties", fake)
    late = c.flag("after generating")
    if late:
        v._generated = False
        v.analyse_after_generating(dens)
        c.check("nothing evaluated before generating", len(asked) == 0)
        v.components = c.hv_list([])
        v.generate()
    else:
        out = v.analyse(dens)
        c.check("result: volume, mass, cog, inertia", c.eq(out[0], vol) & c.eq(out[1], m) & (out[2] is cog) & (out[3] is moi))
    c.check("evaluated once for this vehicle and these densities",
            len(asked) == 1 and asked[0]["vehicle"] is v and asked[0]["component_densities"] is dens)
    if late:
        res = v.analysis_results
        c.check("stored results", c.eq(res["volume"], vol) & c.eq(res["mass"], m) & (res["cog"] is cog) & (res["moi"] is moi))
    c.check("attributes", c.eq(v.volume, vol) & c.eq(v.mass, m) & c.eq(v.area, a) & (v.cog is cog) & (v.moi is moi))
    for col, want in (("mass", m), ("volume", vol), ("area", a)):
        c.check("component results kept", v.component_properties[col] is each[col])
        have = c.column(v._volmass, col)
        c.check("summary: vehicle row", "vehicle" in have and c.eq(have["vehicle"], want))
        c.check("summary: one row per component", c.eq(c.length(have), c.length(comps) + 1))
        for key, _ in c.each(comps):
            c.check("summary: component rows", key in have and c.eq(have[key], each[col][key]))


@contract("mass.files", ["P19"], ["vehicle:Vehicle.to_stl"], mode="bounded", samples=120)
def files(c):
    """Exporting an analysed vehicle writes the results next to the components."""
    import os
    import shutil
    import tempfile

    import numpy as np
    import pandas as pd

    k = iter(range(10 ** 6))
    num = lambda: c.real(f"v{next(k)}")
    v = vehicle(c)
    v.components = []
    v.name = c.choice("name", ["craft", "two words"])
    rows = ["vehicle", "wing_0", "fin", "wing_1", "Fin", "wing_10"][:c.int("rows", 1, sample=(1, 3))]
    analysed, props = c.flag("analysed"), c.flag("has properties")
    cog, moi = np.array([num() for _ in range(3)]), np.array([[num() for _ in range(3)] for _ in range(3)])
    vm = pd.DataFrame({col: [num() for _ in rows] for col in ("mass", "volume", "area")}, index=rows)
    if analysed:
        v.analysis_results = {"volume": vm["volume"].iloc[0], "mass": vm["mass"].iloc[0], "cog": cog.copy(), "moi": moi.copy()}
        v._volmass = vm.copy()
    want = {n: num() for n in ("range", "drag", "lift", "mass", "cost")[:c.int("properties", 1, sample=(1, 3))]} if props else {}
    for n, x in want.items():
        v.add_property(n, num()) if c.flag("twice") else None
        v.add_property(n, x)
        c.check("property kept", c.eq(v.properties[n], x))
    prefix = c.choice("prefix", [None, "p"])
    first = prefix or v.name
    top, cwd = tempfile.mkdtemp(prefix="hvc"), os.getcwd()
    close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12)
    try:
        os.chdir(top)
        if c.flag("directory there"):
            os.mkdir(f"{first}_properties")
        v.to_stl() if prefix is None else v.to_stl(prefix)
        at = lambda n: os.path.join(f"{first}_properties", f"{first}_{n}")
        made = set(os.listdir(f"{first}_properties")) if os.path.exists(f"{first}_properties") else set()
        names = (["volmass.csv", "cog.txt", "moi.txt"] if analysed else []) + (["properties.csv"] if props else [])
        c.check("exactly the files of the results there are", made == {f"{first}_{n}" for n in names})
        if analysed:
            got = pd.read_csv(at("volmass.csv"), index_col=0)
            c.check("volume and mass", list(got.columns) == list(vm.columns) and list(got.index) == rows and close(got.values, vm.values))
            c.check("centre of gravity", close(np.fromfile(at("cog.txt"), sep=","), cog))
            c.check("inertia", close(np.fromfile(at("moi.txt"), sep=","), moi.ravel()))
        if props:
            got = pd.read_csv(at("properties.csv"), index_col=0)
            c.check("properties", list(got.index) == list(want) and close(got.values[:, 0], list(want.values())))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)

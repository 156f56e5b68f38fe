"""Contracts of the sensitivity study."""
from ..reg import contract
from .components import make

U = "utilities:"
S = U + "SensitivityStudy."


def offsets(c, a, b, dp):
    """Columns of a comparison of mesh b with mesh a."""
    q = {k: (lambda t, v, k=k, j=j: a.vectors[t][v][j]) if not c.symbolic else (lambda t, v, j=j: a.vectors.get(t, v, j))
         for j, k in enumerate("xyz")}
    w = {k: (lambda t, v, k=k, j=j: b.vectors[t][v][j]) if not c.symbolic else (lambda t, v, j=j: b.vectors.get(t, v, j))
         for j, k in enumerate("xyz")}
    return q, {k: (lambda t, v, k=k: (w[k](t, v) - q[k](t, v)) / dp) for k in "xyz"}


@contract("sens.compare", ["P20"], [S + "_compare_meshes"])
def compare(c):
    n = c.int("triangles", 1, sample=(1, 4))
    a, b = c.trimesh("nominal", n, 0), c.trimesh("perturbed", n, 0)
    dp = c.real("dp")
    c.assume(c.Or(dp > 0, dp < 0))
    name = c.choice("parameter", ["p", "wing_span", "x"])
    df = c.M.utilities.SensitivityStudy._compare_meshes(a, b, dp, name)
    q, d = offsets(c, a, b, dp)
    cols = dict(q)
    cols.update({f"d{k}d{name}": d[k] for k in "xyz"})
    _, gap = offsets(c, a, b, 1)
    cols["magnitude"] = lambda t, v: c.sqrt(sum(gap[k](t, v) * gap[k](t, v) for k in "xyz"))
    c.vertices("comparison", df, n, cols)


@contract("sens.study", ["P20"], [S + "dvdp", S + "_combine", S + "_compare_meshes"])
def study(c):
    """Any number of parameters, components, triangles and properties."""
    params = c.mapping("param", lambda i: c.real("value", at=i), sample=(1, 3))
    for key, v in c.each(params):
        c.assume(c.Or(v > 0, v < 0) if c.symbolic else abs(v) > 1e-4)
    before = c.hv_dict(params)
    over = c.choice("overrides", [None, {}, {"fixed": 3, "other": 4}])
    given = c.flag("perturbation given")
    pert = c.real("perturbation") if given else 5
    c.assume(c.Or(pert > 0, pert < 0) if c.symbolic else abs(pert) > 1e-2)
    analysed, props = c.flag("analysed"), c.flag("has properties")
    rows = c.mapping("row", lambda i: None, sample=(1, 2))
    prop = c.mapping("property", lambda i: None, sample=(1, 2)) if props else c.hv_dict({})
    scale = 1 if c.symbolic else c.choice("scale of the properties", [1, 1000])
    made, written = [], []

    def count(j):
        return c.int("triangles", 1, at=j, sample=(1, 3))

    def instance(kw):
        new = c.changed(kw, before)
        c.check("at most one parameter changes", len(new) <= 1)
        name, p = "nominal", None
        for key, v in new.items():
            name, p = "perturbed", c.position(before, key)
            c.check("increased by the percentage", c.eq(v, before[key] * (1 + pert / 100)))
        idx = lambda j: j if p is None else c.pair(p, j)
        num = lambda what, j: c.real(f"{name} {what}", at=idx(j))
        v = c.record()
        v._named_components = c.mapping("comp", lambda j: c.record(mesh=c.trimesh(name, count(j), idx(j))), sample=(1, 3))
        v.analysis_results = c.hv_dict({k: num(k, 0) for k in ("volume", "mass", "cog", "moi")}) if analysed else None
        v._volmass = c.table({k: c.per_key(rows, name + k, lambda nm, j, k=k: num("row " + k, j)) for k in ("mass", "volume")})
        v.properties = c.per_key(prop, name + "prop", lambda nm, j: num("property", j) * scale)
        v.log = []
        v.generate = lambda *a, **k: v.log.append("generate")
        v.to_stl = lambda *a, **k: v.log.append((a, k))
        made.append((name, v, kw))
        return v

    class Gen:
        def __init__(self, **kw):
            self.kw = kw

        def create_instance(self):
            return instance(self.kw)

    st = c.M.utilities.SensitivityStudy(Gen, verbosity=0)
    kw = {}
    if over is not None:
        kw["overrides"] = over
    if given:
        kw["perturbation"] = pert
    write = c.flag("write STL")
    if not write:
        kw["write_nominal_stl"] = False
    elif c.flag("prefix"):
        kw["nominal_stl_prefix"] = "pre"
    out = st.dvdp(params, **kw)

    for key, v in c.each(before):
        c.check("the caller's parameters stay", key in params and c.eq(params[key], v))
    c.check("no parameters added", c.eq(c.length(params), c.length(before)))
    nom = [v for name, v, _ in made if name == "nominal"]
    c.check("one nominal vehicle", len(nom) == 1)
    nom = nom[0]
    c.check("nominal vehicle kept", st.nominal_vehicle_instance is nom)
    stl = [e for e in nom.log if e != "generate"]
    want = [((), {"prefix": kw.get("nominal_stl_prefix")})] if write else []
    c.check("nominal STL", stl == want)
    for name, v, k in made:
        c.check("every vehicle is generated", v.log[:1] == ["generate"])
        c.check("overrides are passed on", all(k.get(q) == x for q, x in (over or {}).items()))
    c.check("result kept", st.parameter_sensitivities is out)
    for key, p0 in c.each(before):
        p = c.position(before, key)
        dp = p0 * pert / 100
        num = lambda name, what, j: c.real(f"{name} {what}", at=j)
        diff = lambda what, j: (num("perturbed", what, c.pair(p, j)) - num("nominal", what, j)) / dp
        for ck, comp in c.each(nom._named_components):
            j = c.position(nom._named_components, ck)
            n = count(j)
            q, d = offsets(c, c.trimesh("nominal", n, j), c.trimesh("perturbed", n, c.pair(p, j)), dp)
            cols = {**q, **{f"d{a}d{key}": d[a] for a in "xyz"}}
            c.vertices("parameter", out[key][ck], n, cols)
            if c.symbolic:
                c.vertices("combined", st.component_sensitivities[ck], n, cols)
        if analysed:
            for what in ("volume", "mass", "cog", "moi"):
                c.check("analysis results", c.eq(st.scalar_sensitivities[key][what], diff(what, 0)))
            for what in ("volume", "mass"):
                col = c.column(st.component_scalar_sensitivities[key], what)
                for rk, _ in c.each(rows):
                    c.check("component analysis results", c.eq(col[rk], diff("row " + what, c.position(rows, rk))))
        for k, _ in c.each(prop):
            c.check("properties", c.eq(st.property_sensitivities[key][k], diff("property", c.position(prop, k)) * scale))
    if not c.symbolic:
        for ck, comp in c.each(nom._named_components):
            j = c.position(nom._named_components, ck)
            n = count(j)
            cols = {}
            for key, p0 in before.items():
                m = c.trimesh("perturbed", n, c.pair(c.position(before, key), j))
                q, d = offsets(c, c.trimesh("nominal", n, j), m, p0 * pert / 100)
                cols.update(q)
                cols.update({f"d{a}d{key}": d[a] for a in "xyz"})
            c.vertices("combined", st.component_sensitivities[ck], n, cols)
            c.check("combined columns", set(c.columns(st.component_sensitivities[ck])) == set(cols))


@contract("sens.generator", ["P20"], ["generator:Generator.__init__"])
def generator(c):
    """Keywords override the defaults of one generator only."""
    class Gen(c.M.generator.Generator):
        span, chord, flag = 1, 2, "default"

    names = c.choice("keywords", [(), ("span",), ("chord", "flag"), ("extra", "span", "chord")])
    vals = {k: c.real(k) for k in names}
    other = Gen()
    g = Gen(**vals)
    for k in ("span", "chord", "flag", "extra"):
        if k in vals:
            c.check("keywords override", hasattr(g, k) and c.eq(getattr(g, k), vals[k]))
        else:
            c.check("other defaults stay", getattr(g, k, None) == getattr(Gen, k, None))
        fresh = Gen()
        want = {"span": 1, "chord": 2, "flag": "default"}.get(k)
        for o in (other, fresh, Gen):
            c.check("other generators keep their defaults", getattr(o, k, None) == want)


@contract("sens.csv", ["P20"], [S + "to_csv"], mode="bounded", samples=120)
def csv(c):
    """The written files hold the tables of the study."""
    import os
    import shutil
    import tempfile

    import numpy as np
    import pandas as pd

    params = ["p", "wing_span", "q", "dx", "P", "p_2"][:c.int("params", 1, sample=(1, 3))]
    comps = ["wing_0", "fin_1", "wing_1", "body", "wing_10", "nose_2"][:c.int("comps", 1, sample=(1, 3))]
    k = iter(range(10 ** 6))
    num = lambda: c.real(f"v{next(k)}")
    st = c.M.utilities.SensitivityStudy(object, verbosity=0)
    empty = c.raises(st.to_csv, Exception)
    c.check("refused before a study", empty)
    cols = ["x", "y", "z"] + [f"d{a}d{p}" for p in params for a in "xyz"]
    tabs = {}
    for i, n in enumerate(comps):
        rows = c.int(f"rows{i}", 1, sample=(1, 4))
        tabs[n] = pd.DataFrame({a: [num() for _ in range(rows)] for a in cols})
    st.component_sensitivities = {n: t.copy() for n, t in tabs.items()}
    analysed, props = c.flag("analysed"), c.flag("has properties")
    if analysed:
        st.scalar_sensitivities = {p: {"volume": num(), "mass": num(), "cog": np.array([num() for _ in range(3)]),
                                       "moi": np.array([[num() for _ in range(3)] for _ in range(3)])} for p in params}
        st.component_scalar_sensitivities = {
            p: pd.DataFrame({"mass": [num() for _ in comps], "volume": [num() for _ in comps]}, index=comps) for p in params}
    else:
        st.scalar_sensitivities = {}
    st.property_sensitivities = {p: {"range": num(), "drag": num()} for p in params} if props else {}
    top = tempfile.mkdtemp(prefix="hvc")
    cwd = os.getcwd()
    same = lambda a, b: list(a.columns) == list(b.columns) and a.shape == b.shape and np.allclose(a.values, b.values, rtol=1e-12, atol=1e-12)
    try:
        os.chdir(top)
        where = c.choice("outdir", [None, "new", "old"])
        if where == "old":
            os.mkdir("old")
        path = st.to_csv() if where is None else st.to_csv(os.path.join(top, where))
        out = top if where is None else os.path.join(top, where)
        for n, t in tabs.items():
            c.check("one file per component", same(pd.read_csv(os.path.join(out, f"{n}_sensitivity.csv")), t))
        c.check("combined file", os.path.dirname(os.path.abspath(path)) == os.path.abspath(out)
                and same(pd.read_csv(path), pd.concat(list(tabs.values()))))
        d = os.path.join(out, "scalar_sensitivities")
        c.check("scalar results only where there are any", os.path.exists(d) == (analysed or props))
        if analysed:
            vm = pd.read_csv(os.path.join(d, "volmass_sensitivity.csv"), index_col=0)
            for p in params:
                for n in comps:
                    for what in ("mass", "volume"):
                        c.check("volume and mass", c.eq(vm[p][f"{n}_{what}"], st.component_scalar_sensitivities[p][what][n]))
                for what in ("cog", "moi"):
                    got = np.fromfile(os.path.join(d, f"{p}_{what}_sensitivity.txt"), sep=",")
                    c.check(what, np.allclose(got, st.scalar_sensitivities[p][what].ravel(), rtol=1e-12, atol=1e-12))
        if props:
            pr = pd.read_csv(os.path.join(d, "property_sensitivity.csv"), index_col=0)
            for p in params:
                for what in ("range", "drag"):
                    c.check("properties", c.eq(pr[p][what], st.property_sensitivities[p][what]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


@contract("sens.append", ["P21"], [U + "append_sensitivities_to_tri"], mode="bounded", samples=600)
def append(c):
    """Any points, parameters and files; any pattern of matches."""
    import os
    import shutil
    import tempfile
    import xml.etree.ElementTree as ET

    import numpy as np
    import pandas as pd

    names = ["p", "wing_span", "dx", "z", "q", "dzd", "a b", "P", "p_2"][:c.int("params", 1, sample=(1, 4))]
    cols = [f"d{a}d{p}" for p in names for a in "xyz"]
    kw = {}
    tol, tiny = 1e-5, 1e-8
    if c.flag("match tolerance given"):
        tol = kw["match_tolerance"] = c.choice("tolerance", [1e-3, 0.1, 1e-7])
    if c.flag("rounding tolerance given"):
        tiny = kw["rounding_tolerance"] = c.choice("rounding", [1e-3, 0.5, 1e-12])
    size = c.choice("size", [2.0, 50.0])
    value = lambda n: c.choice(n + "kind", [1, 1, 1, 0.3 * tiny, 0]) * c.real(n, lo=-1, hi=1) * size
    # data points on a lattice, so that at most one lies within the tolerance
    files, rows = [], []
    for f in range(c.int("files", 1, sample=(1, 3))):
        mine = []
        for r in range(c.int(f"rows{f}", 1, sample=(1, 4))):
            at = [len(rows) * 1.0, c.int(f"y{f}.{r}", -3, sample=(-3, 3)) * 0.7, c.int(f"z{f}.{r}", -3, sample=(-3, 3)) * 1.3]
            mine.append(at + [value(f"s{f}.{r}.{j}") for j in range(len(cols))])
            rows.append(mine[-1])
        files.append(mine)
    points, want, hits = [], [], 0
    for i in range(c.int("points", 1, sample=(1, 40 if c.rare() else 6))):
        r = c.int(f"of{i}", 0, sample=(0, len(rows) - 1)) % len(rows)
        off = [c.real(f"off{i}{a}", lo=-1, hi=1) for a in "xyz"]
        far = c.choice(f"far{i}", [None, None, 0, 1, 2])
        points.append([q + o * 0.9 * tol for q, o in zip(rows[r], off)])
        if far is None:
            hits += 1
            want.append([0.0 if abs(v) < tiny else v for v in rows[r][3:]])
        else:
            points[-1][far] += 2.5 * tol * (1 if off[far] > 0 else -1)
            want.append([0.0] * len(cols))
        c.assume(all(abs(abs(v) - tiny) > 1e-14 for v in rows[r][3:]))
    top = tempfile.mkdtemp(prefix="hvc")
    cwd = os.getcwd()
    try:
        os.chdir(top)
        paths = []
        for f, mine in enumerate(files):
            paths.append(f"comp_{f}_sensitivity.csv")
            pd.DataFrame(mine, columns=["x", "y", "z"] + cols).to_csv(paths[-1], index=False)
        tri = "Components.i.tri"
        if c.flag("tri given"):
            tri = kw["components_filepath"] = "sub.i.tri"
        gap = c.choice("blank lines", ["", "\n", " \n\n"])
        text = "\n" + gap + "".join(" " + " ".join(repr(v) for v in p) + "\n" for p in points) + gap
        open(tri, "w").write(
            '<?xml version="1.0"?><VTKFile><UnstructuredGrid><Piece><Points><DataArray type="Float64">'
            f'{text}</DataArray></Points><Cells><DataArray>0 1 2</DataArray></Cells></Piece></UnstructuredGrid></VTKFile>')
        comb = "all_components_sensitivity.csv"
        if c.flag("combined name given"):
            comb = kw["combined_sens_fn"] = "mine.csv"
        if c.flag("earlier combined file listed"):
            pd.DataFrame([[q + 1 for q in r] for r in rows], columns=["x", "y", "z"] + cols).to_csv(comb, index=False)
            paths.insert(c.int("where", 0, sample=(0, 3)) % (len(paths) + 1), comb)
        out = c.choice("outdir", [None, "new", "old"])
        if out == "old":
            os.mkdir("old")
        if out is not None:
            kw["outdir"] = out
        frac = c.M.utilities.append_sensitivities_to_tri(list(paths), verbosity=0, **kw)
        c.check("share of matched points", c.eq(frac, hits / len(points)))
        piece = ET.parse(tri).getroot()[0][0]
        c.check("the triangulation stays", piece[0][0].text == text and piece[1][0].text == "0 1 2")
        data = piece[2:]
        c.check("one entry per parameter", [d[0].attrib.get("Name") for d in data] == [f"{p}_sens" for p in names])
        close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-14)
        for q, d in enumerate(data):
            got = [[float(v) for v in l.split()] for l in d[0].text.splitlines() if l.strip()]
            c.check("values of every point in order", close(got, [w[3 * q:3 * q + 3] for w in want]))
        df = pd.read_csv(os.path.join(out or ".", comb))
        c.check("combined columns", list(df.columns) == ["x", "y", "z"] + cols)
        c.check("combined values", close(df.values, [p + w for p, w in zip(points, want)]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)

"""Contracts of the mesh check and the mesh repair of a component.

Both work on sets of floating point tuples, which the verifier does not model: bounded."""
from ..reg import contract
from .components import C, make

FACES = [[(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)], [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
         [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)], [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)],
         [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)], [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)]]


def solid(c, name):
    """Triangles of a closed body with whole numbered corners, oriented the same way throughout."""
    x = c.choice(name + " body", ["box", "tetrahedron"])
    q = lambda n, lo=-20, hi=20: c.int(n, lo, sample=(lo, hi))
    if x == "box":
        o, e = [q(f"{name} o{k}") for k in range(3)], [q(f"{name} e{k}", 1, 9) for k in range(3)]
        quads = [[tuple(o[k] + e[k] * p[k] for k in range(3)) for p in f] for f in FACES]
        return [t for f in quads for t in ((f[0], f[1], f[2]), (f[0], f[2], f[3]))]
    a, b, d, e = [tuple(q(f"{name} {n}{k}") for k in range(3)) for n in "abde"]
    u, v, w = [[p[k] - a[k] for k in range(3)] for p in (b, d, e)]
    c.assume(abs(sum(u[k] * (v[k - 2] * w[k - 1] - v[k - 1] * w[k - 2]) for k in range(3))) > 0)
    return [(a, b, d), (a, d, e), (a, e, b), (b, e, d)]


def spoil(c, tris, kind):
    i = c.int("which", 0, sample=(0, 40)) % len(tris)
    a, b, d = tris[i]
    if kind == "missing":
        return tris[:i] + tris[i + 1:]
    if kind == "turned":
        return tris[:i] + [(a, d, b)] + tris[i + 1:]
    if kind == "doubled":
        return tris + [tris[i]]
    if kind == "moved":
        k = c.int("along", 0, sample=(0, 2)) % 3
        a = tuple(v + (c.choice("by", [1, -1, 2]) if j == k else 0) for j, v in enumerate(a))
        return tris[:i] + [(a, b, d)] + tris[i + 1:]
    if kind == "twice":
        return tris + tris
    if kind == "flap":
        return tris + [(a, b, (a[0] + 30, b[1] + 31, d[2] + 32))]
    return tris


def load(c, tris):
    import numpy as np
    from stl import mesh

    k = make(c, patches={}, stl_resolution=2)
    data = np.zeros(len(tris), dtype=mesh.Mesh.dtype)
    data["vectors"] = tris
    k.mesh = mesh.Mesh(data, remove_empty_areas=False)
    return k


@contract("comp.check", ["P27"], [C + "stl_check"], mode="bounded", samples=600)
def check(c):
    tris = solid(c, "first")
    if c.flag("two bodies"):
        tris = tris + [tuple((p[0] + 100, p[1], p[2]) for p in t) for t in solid(c, "second")]
    tris = spoil(c, tris, c.choice("kind", ["closed", "closed", "missing", "turned", "doubled", "moved", "flap", "twice"]))
    order = c.int("start", 0, sample=(0, 40)) % len(tris)
    tris = [t[j:] + t[:j] for t, j in zip(tris[order:] + tris[:order], [0, 1, 2] * len(tris))]
    area = [0, 0, 0]
    edges = []
    for a, b, d in tris:
        u, v = [b[q] - a[q] for q in range(3)], [d[q] - a[q] for q in range(3)]
        c.assume(any(u[q - 2] * v[q - 1] != u[q - 1] * v[q - 2] for q in range(3)))
        for q in range(3):
            area[q] += u[q - 2] * v[q - 1] - u[q - 1] * v[q - 2]
        edges += [(a, b), (b, d), (d, a)]
    flat = area == [0, 0, 0]
    closed = len(set(edges)) == len(edges) and all((b, a) in set(edges) for a, b in edges)
    k = load(c, tris)
    before = k.mesh.vectors.copy()
    how = c.choice("how", ["all", "all", "area", "lines", "none"])
    if how == "all":
        got, want = k.stl_check(), flat and closed
    else:
        got = k.stl_check(project_area=how == "area", matching_lines=how == "lines")
        want = {"area": flat, "lines": closed, "none": True}[how]
    c.check("accepts exactly the closed meshes" if how == "all" else "accepts by " + how, bool(got) == want)
    c.check("the mesh stays", k.mesh.vectors.shape == before.shape and bool((k.mesh.vectors == before).all()))


@contract("comp.repair", ["P27"], [C + "stl_repair"], mode="bounded", samples=300)
def repair(c):
    tris = solid(c, "body")
    rounds = c.choice("distance", [None, 1e-3, 0.25])
    near = 1e-6 if rounds is None else rounds
    # coordinates of different corners are equal or at least one apart
    size = 1e-4 if rounds is None else 1.0
    moved = [[[v * size + near * 0.2 * c.real(f"m{i}.{j}.{k}", lo=-1, hi=1) for k, v in enumerate(p)]
              for j, p in enumerate(t)] for i, t in enumerate(tris)]
    k = load(c, moved)
    k.stl_repair() if rounds is None else k.stl_repair(rounds)
    out = k.mesh.vectors
    c.check("as many triangles", len(out) == len(tris))
    at = {}
    for t, o, m in zip(tris, out, moved):
        for p, q, w in zip(t, o, m):
            c.check("corners that were close are equal", at.setdefault(p, tuple(q)) == tuple(q))
            c.check("corners stay where they were", all(abs(float(a) - b) <= near for a, b in zip(q, w)))
    c.check("different corners stay apart", len(set(at.values())) == len(at))
    c.check("then accepted", bool(k.stl_check(project_area=False)))

"""Contracts of wing generation: neighbouring patches share their edges."""
from ..reg import contract
from .vectors import cs

W = "components.wing:Wing."
ALL = [W + m for m in ("__init__", "generate_patches", "_create_planform_patches", "_create_leading_edge", "_create_trailing_edge")]
OPT = dict(cost=3, stubs=["path.ellipse", "path.arclength"], tol=1e-6)


def wing(c, closed=False, affine=False, splits=False):
    """A wing with arbitrary planform, leading edge curve, vertical thickness,
    leading edge width, split parameters and flap."""
    V = c.M.vector.Vector3
    A0, A1, P = c.vec("A0"), c.vec("A1"), c.apath("line")
    if affine:
        k = [c.real(f"top{i}") for i in range(3)]
        g = [c.real(f"gap{i}", lo=(0.5 if i == 0 else -0.01) if not c.symbolic else None,
                    hi=(5 if i == 0 else 0.01) if not c.symbolic else None) for i in range(3)]
        ft = lambda x, y: k[0] + k[1] * x + k[2] * y
        gap = lambda x, y: g[0] + g[1] * x + g[2] * y
        for p in (P(0.0), P(1.0)):
            d = gap(p.x, p.y)
            c.assume(c.And(d >= 1e-3, d <= 10))
    else:
        ft, gap = c.afun("top", 2), c.afun("gap", 2, lo=1e-3, hi=10)
    top = lambda x, y, z=0: V(0.0, 0.0, ft(x, y))
    bot = lambda x, y, z=0: V(0.0, 0.0, ft(x, y) + gap(x, y))
    wf = c.afun("width", 1, lo=1e-3, hi=10)
    kw = {}
    # automatic split parameters are parameters like others: see wing.planform
    auto = c.choice("split", ["given", "first", "none"]) if splits or not c.symbolic else "given"
    if auto == "none":
        x0, x1 = P(0.0).x, P(1.0).x
        c.assume(c.Or(c.And(x0 < A1.x, x1 > A1.x), c.And(x0 > A1.x, x1 < A1.x)))
    else:
        kw["t_B1"] = c.unit("t_B1")
        if auto == "given":
            kw["t_B2"] = c.unit("t_B2")
    if closed:
        kw["close_wing"] = True
    L, ang = c.real("flap_length"), c.real("flap_angle")
    w = c.M.wing.Wing(A0=A0, A1=A1, TT=P(1.0), B0=P(0.0), Line_B0TT=P, top_tf=top, bot_tf=bot, LE_wf=wf,
                      flap_length=L, flap_angle=ang, verbosity=0, **kw)
    w.generate_patches()
    if splits:
        c.check("split parameters lie on the leading edge", c.And(w.t_B1 >= 0, w.t_B1 <= 1, w.t_B2 >= 0, w.t_B2 <= 1))
    return w.patches


def join(c, what, p, q, tol=0):
    """p and q are the same point; at the base of the leading edge ellipse up
    to the accuracy of the tangent there."""
    for nm, u, v in zip("xyz", cs(p), cs(q)):
        if tol and c.symbolic:
            c.check(f"{what} [{nm}]", c.And(u - v <= tol, v - u <= tol))
        else:
            c.check(f"{what} [{nm}]", c.eq(u, v))


K = 1e-7  # ellipses of at most 10 by 10, accurate to 1e-9


@contract("wing.planform", ["P23"], ALL, **OPT)
def planform(c):
    P = wing(c, splits=True)
    s = c.unit("s")
    join(c, "upper planform patches", P["top_patch_0"](0.0, s), P["top_patch_1"](1.0, s))
    join(c, "lower planform patches", P["bot_patch_0"](1.0, s), P["bot_patch_1"](0.0, s))


@contract("wing.leading_edge.base", ["P23"], ALL, **OPT)
def leading_edge_base(c):
    P = wing(c)
    s = c.unit("s")
    which = c.choice("seam", ["top0", "top1", "top2", "bot0", "bot1", "bot2"])
    i = which[-1]
    if which == "top2":
        join(c, "upper planform and front of leading edge", P["top_patch_1"](0.0, s), P["LE_top_patch_2"](s, 0.0), K)
    elif which == "bot2":
        join(c, "lower planform and front of leading edge", P["bot_patch_1"](1.0, s), P["LE_bot_patch_2"](s, 1.0), K)
    elif which[:3] == "top":
        join(c, "upper planform and leading edge", P[f"top_patch_{i}"](s, 1.0), P[f"LE_top_patch_{i}"](s, 0.0), K)
    else:
        join(c, "lower planform and leading edge", P[f"bot_patch_{i}"](s, 1.0), P[f"LE_bot_patch_{i}"](1 - s, 1.0), K)


@contract("wing.leading_edge.tip", ["P23"], ALL, **OPT)
def leading_edge_tip(c):
    P = wing(c)
    s = c.unit("s")
    i = c.choice("patch", [0, 1, 2])
    join(c, "upper and lower leading edge", P[f"LE_top_patch_{i}"](s, 1.0), P[f"LE_bot_patch_{i}"](s, 0.0))


@contract("wing.leading_edge.next", ["P23"], ALL, **OPT)
def leading_edge_next(c):
    P = wing(c)
    s = c.unit("s")
    i, k = c.choice("patch", [0, 1]), c.choice("side", ["top", "bot"])
    join(c, "successive leading edge patches", P[f"LE_{k}_patch_{i}"](0.0, s), P[f"LE_{k}_patch_{i + 1}"](1.0, s))


@contract("wing.trailing_edge", ["P23"], ALL, **OPT)
def trailing_edge(c):
    P = wing(c)
    s = c.unit("s")
    join(c, "upper planform and flap", P["top_patch_0"](1.0, s), P["TE_top_patch"](s, 1.0))
    join(c, "lower planform and flap", P["bot_patch_0"](0.0, s), P["TE_bot_patch"](s, 0.0))
    join(c, "tip of the flap", P["TE_top_patch"](s, 0.0), P["TE_bot_patch"](s, 1.0))
    cap = P["TELE_patch"]
    join(c, "upper flap and end cap", P["TE_top_patch"](1.0, 1 - s), cap(s, 0.0), K)
    join(c, "lower flap and end cap", P["TE_bot_patch"](1.0, 1 - s), cap(1.0, s), K)
    join(c, "upper leading edge and end cap", P["LE_top_patch_0"](1.0, s), cap(0.0, s), K)
    join(c, "lower leading edge and end cap", P["LE_bot_patch_0"](1.0, s), cap(s, 1.0), K)


def closing(c):
    P = wing(c, closed=True, affine=True)
    return P, [P[f"wing_close_{k}"] for k in ("top_patch0", "top_patch1", "bot_patch0", "bot_patch1")]


@contract("wing.closed.planform", ["P23"], ALL + [W + "_close_wing"], **OPT)
def closed_planform(c):
    """The closing surfaces, for thickness that varies linearly."""
    P, (t0, t1, b0, b1) = closing(c)
    s = c.unit("s")
    join(c, "upper planform, rear", t0(s, 0.0), P["top_patch_0"](1 - s, 0.0))
    join(c, "upper planform, front", t1(s, 0.0), P["top_patch_1"](1 - s, 0.0))
    join(c, "lower planform, rear", b0(s, 1.0), P["bot_patch_0"](s, 0.0))
    join(c, "lower planform, front", b1(s, 1.0), P["bot_patch_1"](s, 0.0))
    join(c, "rear halves", t0(s, 1.0), b0(s, 0.0))
    join(c, "front halves", t1(s, 1.0), b1(s, 0.0))
    join(c, "upper front and rear", t0(1.0, s), t1(0.0, s))
    join(c, "lower front and rear", b0(1.0, s), b1(0.0, s))


@contract("wing.closed.ends", ["P23"], ALL + [W + "_close_wing"], **OPT)
def closed_ends(c):
    P, (t0, t1, b0, b1) = closing(c)
    s = c.unit("s")
    ell, flap = P["interior_ellip"], P["interior_flap_patch"]
    join(c, "upper front and ellipse", t1(1.0, 1 - s), ell(s, 0.0), K)
    join(c, "lower front and ellipse", b1(1.0, s), ell(0.0, s), K)
    join(c, "upper leading edge and ellipse", P["LE_top_patch_2"](0.0, s), ell(1.0, s), K)
    join(c, "lower leading edge and ellipse", P["LE_bot_patch_2"](0.0, 1 - s), ell(s, 1.0), K)
    join(c, "upper rear and flap", t0(0.0, 1 - s), flap(0.0, s))
    join(c, "lower rear and flap", b0(0.0, s), flap(s, 0.0))
    join(c, "upper flap side", P["TE_top_patch"](0.0, 1 - s), flap(s, 1.0))
    join(c, "lower flap side", P["TE_bot_patch"](0.0, s), flap(1.0, s))

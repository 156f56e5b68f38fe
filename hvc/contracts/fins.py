"""Contracts of fin generation: neighbouring patches share their edges."""
from ..reg import contract
from .patches import minus, plus, rot
from .vectors import cs
from .wings import K, join

T = ["components.fin:Fin.__init__", "components.fin:Fin.generate_patches"]
# rounding of the corner parameter to six digits shifts the seams a little
OPT = dict(cost=3, stubs=["path.ellipse", "path.arclength", "path.polyline.two"], tol=1e-4)


def planform(c, flat=False):
    """Four points; the corner of the leading edge lies between its ends."""
    V = c.M.vector.Vector3
    p = [c.vec(f"p{i}") for i in range(4)]
    if flat:
        p = [V(q.x, q.y, 0.0) for q in p]
    c.assume(c.Or(c.And(p[1].x < p[2].x, p[2].x < p[3].x), c.And(p[1].x > p[2].x, p[2].x > p[3].x)))
    if c.symbolic:
        c.exact_rounding()
    else:
        c.assume(c.And(c.abs(p[2].x - p[1].x) > 1e-2, c.abs(p[3].x - p[2].x) > 1e-2))
    return p


def fin(c, p, h, wf, **kw):
    V = c.M.vector.Vector3
    f = c.M.fin.Fin(*[V(*cs(q)) for q in p], h, kw.pop("fin_angle", 0), lambda x, y, z=0: V(0.0, 0.0, -h / 2),
                    lambda x, y, z=0: V(0.0, 0.0, h / 2), LE_wf=wf, verbosity=0, **kw)
    f.generate_patches()
    return f.patches


def plain(c, kind=None):
    """A fin of uniform thickness before it is placed."""
    kind = kind or c.choice("rudder", ["flat", "sharp"])
    p = planform(c, kind == "sharp")
    h = c.real("thickness", lo=1e-3, hi=10)
    wf = c.afun("width", 1, lo=1e-3, hi=10)
    kw = {"rudder_type": kind}
    if kind == "sharp":
        kw.update(rudder_length=c.real("rudder_length"), rudder_angle=c.real("rudder_angle"))
    return fin(c, p, h, wf, **kw)


@contract("fin.sides", ["P24"], T, **OPT)
def sides(c):
    """The upper side and the leading edge."""
    P = plain(c, None if not c.symbolic else "flat")
    s = c.unit("s")
    if c.flag("front"):
        join(c, "upper side and front of leading edge", P["top_patch"](s, 1.0), P["LE_top_patch_1"](s, 0.0), K)
    else:
        join(c, "upper side and top of leading edge", P["top_patch"](1.0, s), P["LE_top_patch_0"](1 - s, 0.0), K)


@contract("fin.sides.lower", ["P24"], T, **OPT)
def lower(c):
    """The lower side and the leading edge."""
    P = plain(c, None if not c.symbolic else "flat")
    s = c.unit("s")
    if c.flag("front"):
        join(c, "lower side and front of leading edge", P["bot_patch"](1.0, s), P["LE_bot_patch_1"](s, 1.0), K)
    else:
        join(c, "lower side and top of leading edge", P["bot_patch"](s, 1.0), P["LE_bot_patch_0"](1 - s, 1.0), K)


@contract("fin.leading_edge", ["P24"], T, **OPT)
def leading_edge(c):
    P = plain(c, None if not c.symbolic else "flat")
    s = c.unit("s")
    which = c.choice("seam", ["tip0", "tip1", "top", "bot"])
    if which[:3] == "tip":
        i = which[-1]
        join(c, "upper and lower leading edge", P[f"LE_top_patch_{i}"](s, 1.0), P[f"LE_bot_patch_{i}"](s, 0.0))
    else:
        join(c, "successive leading edge patches", P[f"LE_{which}_patch_0"](0.0, s), P[f"LE_{which}_patch_1"](1.0, s))


@contract("fin.bottom", ["P24"], T, **OPT)
def bottom(c):
    P = plain(c)
    s = c.unit("s")
    ell, b1, b2 = P["bot_ellip"], P["bot_1"], P["bot_2"]
    join(c, "upper side and bottom", P["top_patch"](0.0, s), b1(1 - s, 1.0))
    join(c, "lower side and bottom", P["bot_patch"](s, 0.0), b2(1 - s, 0.0))
    join(c, "halves of the bottom", b1(s, 0.0), b2(s, 1.0))
    join(c, "upper bottom and ellipse", b1(0.0, s), ell(0.0, 1 - s), K)
    join(c, "lower bottom and ellipse", b2(0.0, s), ell(1 - s, 1.0), K)
    join(c, "upper leading edge and ellipse", P["LE_top_patch_1"](0.0, s), ell(s, 0.0), K)
    join(c, "lower leading edge and ellipse", P["LE_bot_patch_1"](0.0, s), ell(1.0, s), K)


@contract("fin.flat", ["P24"], T, **OPT)
def flat(c):
    P = plain(c, "flat")
    s = c.unit("s")
    ell, t1, t2 = P["TE_ellip"], P["TE_1"], P["TE_2"]
    join(c, "upper side and trailing edge", P["top_patch"](s, 0.0), t1(s, 1.0))
    join(c, "lower side and trailing edge", P["bot_patch"](0.0, s), t2(s, 0.0))
    join(c, "halves of the trailing edge", t1(s, 0.0), t2(s, 1.0))
    join(c, "upper trailing edge and ellipse", t1(1.0, s), ell(s, 1.0), K)
    join(c, "lower trailing edge and ellipse", t2(1.0, s), ell(0.0, s), K)
    join(c, "upper leading edge and ellipse", P["LE_top_patch_0"](1.0, s), ell(1.0, 1 - s), K)
    join(c, "lower leading edge and ellipse", P["LE_bot_patch_0"](1.0, s), ell(1 - s, 0.0), K)
    join(c, "upper trailing edge and bottom", t1(0.0, s), P["bot_1"](1.0, s))
    join(c, "lower trailing edge and bottom", t2(0.0, s), P["bot_2"](1.0, s))


@contract("fin.sharp", ["P24"], T, **OPT)
def sharp(c):
    P = plain(c, "sharp")
    s = c.unit("s")
    ell, tri, top, bot = P["TE_ellipse"], P["TE_triangle"], P["TE_top"], P["TE_bot"]
    join(c, "upper side and rudder", P["top_patch"](s, 0.0), top(s, 1.0))
    join(c, "lower side and rudder", P["bot_patch"](0.0, s), bot(s, 0.0))
    join(c, "tip of the rudder", top(s, 0.0), bot(s, 1.0))
    join(c, "upper rudder and ellipse", top(1.0, 1 - s), ell(s, 0.0), K)
    join(c, "lower rudder and ellipse", bot(1.0, 1 - s), ell(1.0, s), K)
    join(c, "upper leading edge and ellipse", P["LE_top_patch_0"](1.0, s), ell(0.0, s), K)
    join(c, "lower leading edge and ellipse", P["LE_bot_patch_0"](1.0, s), ell(s, 1.0), K)
    join(c, "upper rudder and bottom", top(0.0, 1 - s), tri(0.0, s))
    join(c, "lower rudder and bottom", bot(0.0, 1 - s), tri(s, 1.0))
    join(c, "upper bottom and its rudder part", P["bot_1"](1.0, 1 - s), tri(s, 0.0))
    join(c, "lower bottom and its rudder part", P["bot_2"](1.0, 1 - s), tri(1.0, s))


@contract("fin.placed", ["P24"], T, **OPT)
def placed(c):
    """Pivot, rotation and offset, in this order, for every surface."""
    kind = c.choice("rudder", ["flat", "sharp"])
    p = planform(c, kind == "sharp")
    h = c.real("thickness", lo=1e-3, hi=10)
    wf = c.afun("width", 1, lo=1e-3, hi=10)
    kw = {"rudder_type": kind}
    if kind == "sharp":
        kw.update(rudder_length=c.real("rudder_length"), rudder_angle=c.real("rudder_angle"))
    # any base surfaces: the n-th one built is the same in both fins
    made = [0]

    def some(*args, **kw):
        made[0] += 1
        return c.asurf(f"surface {made[0]}")

    if c.symbolic:
        for k in ("CoonsPatch", "MeanLeadingEdgePatchFunction", "TrailingEdgePatch"):
            c.patch(c.M.fin, k, some)
    base = fin(c, p, h, wf, **kw)
    a, piv, o = c.real("fin_angle"), c.real("pivot_angle"), c.vec("pivot_point")
    off = c.vecfun("offset", ["x", "y", "z"]) if c.flag("offset") else None
    made[0] = 0
    got = fin(c, p, h, wf, fin_angle=a, pivot_angle=piv, pivot_point=o, offset_func=off, **kw)
    c.check("the same surfaces", list(got) == list(base))
    r, s = c.unit("r"), c.unit("s")
    O = cs(o)
    for k in list(base):
        q = cs(base[k](r, s))
        q = plus(rot("y", minus(q, O), c.sin(piv), c.cos(piv)), O)
        q = rot("x", q, c.sin(a), c.cos(a))
        if off is not None:
            q = plus(q, cs(off(*q)))
        c.check_vec(f"{k} placed", got[k](r, s), q)

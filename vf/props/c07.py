"""C07: quadrilateral measurements equal their definitions for every side"""

from hypothesis import strategies as st

from vf import gen, geom as g, meas, mk
from vf.core import close, label, raises, require, single, sub, vec

from mpllayout import constructions as con

POOL = meas.names("q")


@st.composite
def nested(draw):
    """Pairs of boxes in general position: apart, touching, overlapping or one inside the other"""
    a = draw(gen.quad())
    if draw(st.booleans()):
        return dict(m=draw(st.sampled_from([n for n in POOL if meas.MEAS[n].kinds == "QQ"])), prims=[a, draw(gen.quad())], params=[])
    xs, ys = [v[0] for v in a], [v[1] for v in a]
    m = [draw(gen.nums(-2, 2, 8)) for _ in range(4)]
    x0, x1, y0, y1 = min(xs) - m[0], max(xs) + m[1], min(ys) - m[2], max(ys) + m[3]
    b = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    pair = [a, b] if draw(st.booleans()) else [b, a]
    return dict(m=draw(st.sampled_from([n for n in POOL if meas.MEAS[n].kinds == "QQ"])), prims=pair, params=[])


@sub("C07", "definition", st.one_of(meas.application(POOL), nested()), quick=9600, shards=8, weight=1.2,
     rule="measurement on generated quadrilaterals (upright, skewed, rotated; apart, overlapping, nested), compared with its closed form")
def definition(case):
    m = meas.MEAS[case["m"]]
    label(case["m"])
    got = m.make()(mk.build(m.kinds, case["prims"]), *mk.params(case["params"]))
    close(got, m.value(case["prims"], case["params"]), f"{case['m']}({case['prims']})", rtol=1e-9,
          atol=1e-9 * g.pts_scale(*case["prims"]))
    return True


@sub("C07", "number types", meas.whole_application(POOL), quick=3600, shards=4, weight=2.5,
     rule="measurement of whole coordinates given as integers or floats of various types and sizes, compared with its closed form")
def number_types(case):
    if any(g.length((q[n], q[(n + 1) % 4])) == 0 for q in case["prims"] for n in range(4)):
        return False
    m = meas.MEAS[case["m"]]
    label(case["m"], *case["types"])
    close(m.make()(meas.whole_build(case)), m.value(case["prims"], []), f"{case['m']} of {case['prims']} given as {case['types']}",
          rtol=1e-9, atol=1e-9 * g.pts_scale(*case["prims"]))
    return True


@sub("C07", "consistency", st.tuples(gen.box(), gen.box(), gen.sides, gen.wpoint), quick=1200, shards=4, weight=4,
     rule="relations between measurements of two boxes: inner/outer margins, swapping, translation, sizes")
def consistency(case):
    a, b, side, t = case
    qa, qb = mk.quad(a), mk.quad(b)
    opp = g.OPP[side]
    s = 1e-9 * g.pts_scale(a, b, t)
    outer = vec(con.OuterMargin(side=side)((qa, qb)))
    close(con.OuterMargin(side=opp)((qb, qa)), outer, f"outer {side} margin of (a,b) against outer {opp} margin of (b,a)", atol=s)
    close(con.InnerMargin(side=side)((qb, qa)), -vec(con.InnerMargin(side=side)((qa, qb))), f"inner {side} margin, swapped", atol=s)
    dim = con.Width() if side in ("left", "right") else con.Height()
    inner = vec(con.InnerMargin(side=side)((qa, qb)))
    close(inner - outer, vec(dim((qb,))), "inner margin minus outer margin is the second box's size", atol=s)
    total = inner + vec(con.InnerMargin(side=opp)((qa, qb))) + vec(dim((qa,)))
    close(total, vec(dim((qb,))), "margins and size add up to the outer box", atol=s)

    def move(q):
        return mk.quad([[x + t[0], y + t[1]] for x, y in q])
    close(con.OuterMargin(side=side)((move(a), move(b))), outer, "outer margin after translation", atol=s)
    close(con.AspectRatio()((qa,)), vec(con.Width()((qa,))) / vec(con.Height()((qa,))), "aspect ratio of a box", rtol=1e-9)
    label(side)
    return True


BAD = st.one_of(st.sampled_from(["Left", "botom", "", "center", "Line0", "x", "inner", "bottom ", "TOP"]), st.text(max_size=5))


@sub("C07", "unknown side", BAD, quick=600, weight=0.5, rule="side or dimension name that is not documented")
def unknown(case):
    bad = (ValueError, TypeError, KeyError)
    if case not in g.SIDES:
        for what, fn in (("OuterMargin", lambda: con.OuterMargin(side=case)), ("InnerMargin", lambda: con.InnerMargin(side=case)),
                         ("Margin(outer)", lambda: con.Margin(outer=True, side=case)), ("Margin(inner)", lambda: con.Margin(outer=False, side=case))):
            raises(bad, fn, f"{what} with side={case!r}")
    if case not in ("width", "height"):
        raises(bad, lambda: con.RectangleDim(dim=case), f"RectangleDim with dim={case!r}")
    return True


def tame(case):
    """Whether single precision can be expected to tell"""
    return g.pts_scale(*case["prims"]) < 100


single("C07", "definition", st.one_of(meas.application(POOL), nested()), lambda c: tame(c) and definition(c), quick=2400, shards=8, weight=1.5, rule="coordinates up to a hundred")

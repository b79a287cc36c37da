"""
Table of all measurements (constructions) and constraints

Each entry says how to make the package's object, which primitives and
parameters it takes, and what it must evaluate to (from raw coordinates).
"""

import numpy as np

from . import gen, geom as g, mk
from hypothesis import strategies as st

from mpllayout import constructions as con
from mpllayout import constraints as cr

# flags: plain booleans and the other things users pass for them, as {"flag": value, "as": type}
FLAGS = ["int", "np.bool_", "jnp"]


def as_flag(value, how):
    return {"flag": bool(value), "as": how}


def flag_of(p):
    return p["flag"] if isinstance(p, dict) else p


flag = st.booleans()


class Meas:
    def __init__(self, name, make, kinds, params, value, group, linear=True):
        self.name, self.make, self.kinds, self.group, self.linear = name, make, kinds, group, linear
        self.params = params      # list of strategies
        self.value = value        # raw prims, params -> list of numbers

    def __repr__(self):
        return self.name


MEAS = {}


def add(name, make, kinds, params, value, group="pl", linear=True):
    MEAS[name] = Meas(name, make, kinds, params, value, group, linear)


D = gen.direction
add("Coordinate", con.Coordinate, "P", [], lambda r, p: list(r[0]))
add("DirectedDistance", con.DirectedDistance, "PP", [D], lambda r, p: [g.dot(g.A(r[1]) - g.A(r[0]), p[0])])
add("XDistance", con.XDistance, "PP", [], lambda r, p: [r[1][0] - r[0][0]])
add("YDistance", con.YDistance, "PP", [], lambda r, p: [r[1][1] - r[0][1]])
add("LineVector", con.LineVector, "L", [], lambda r, p: list(g.vec(r[0])))
add("UnitLineVector", con.UnitLineVector, "L", [], lambda r, p: list(g.unit(r[0])), linear=False)
add("Length", con.Length, "L", [], lambda r, p: [g.length(r[0])], linear=False)
add("DirectedLength", con.DirectedLength, "L", [D], lambda r, p: [g.dot(g.vec(r[0]), p[0])])
add("XLength", con.XLength, "L", [], lambda r, p: [g.vec(r[0])[0]])
add("YLength", con.YLength, "L", [], lambda r, p: [g.vec(r[0])[1]])
add("Midpoint", con.Midpoint, "L", [], lambda r, p: list(g.mid(r[0])))
add("MidpointDirectedDistance", con.MidpointDirectedDistance, "LL", [D],
    lambda r, p: [g.dot(g.mid(r[1]) - g.mid(r[0]), p[0])])
add("MidpointXDistance", con.MidpointXDistance, "LL", [], lambda r, p: [(g.mid(r[1]) - g.mid(r[0]))[0]])
add("MidpointYDistance", con.MidpointYDistance, "LL", [], lambda r, p: [(g.mid(r[1]) - g.mid(r[0]))[1]])
add("Angle", con.Angle, "LL", [], lambda r, p: [g.angle(r[0], r[1])], linear=False)
add("PointOnLineDistance", con.PointOnLineDistance, "PL", [flag], lambda r, p: [g.along(r[0], r[1], flag_of(p[0]))], linear=False)
add("PointToLineDistance", con.PointToLineDistance, "PL", [flag], lambda r, p: [g.offside(r[0], r[1], flag_of(p[0]))], linear=False)
add("RelativePointOnLineDistance", con.RelativePointOnLineDistance, "PL", [flag],
    lambda r, p: [g.along(r[0], r[1], flag_of(p[0])) / g.length(r[1])], linear=False)

add("Width", con.Width, "Q", [], lambda r, p: [g.width(r[0])], "q")
add("Height", con.Height, "Q", [], lambda r, p: [g.height(r[0])], "q")
add("RectangleDim-default", lambda: con.RectangleDim(), "Q", [], lambda r, p: [g.width(r[0])], "q")
add("RectangleDim-width", lambda: con.RectangleDim(dim="width"), "Q", [], lambda r, p: [g.width(r[0])], "q")
add("RectangleDim-height", lambda: con.RectangleDim(dim="height"), "Q", [], lambda r, p: [g.height(r[0])], "q")
add("AspectRatio", con.AspectRatio, "Q", [], lambda r, p: [g.aspect(r[0])], "q", linear=False)
for _s in g.SIDES:
    add(f"OuterMargin-{_s}", lambda s=_s: con.OuterMargin(side=s), "QQ", [],
        lambda r, p, s=_s: [g.outer_margin(r[0], r[1], s)], "q")
    add(f"InnerMargin-{_s}", lambda s=_s: con.InnerMargin(side=s), "QQ", [],
        lambda r, p, s=_s: [g.inner_margin(r[0], r[1], s)], "q")
    add(f"Margin-outer-{_s}", lambda s=_s: con.Margin(outer=True, side=s), "QQ", [],
        lambda r, p, s=_s: [g.outer_margin(r[0], r[1], s)], "q")
    add(f"Margin-inner-{_s}", lambda s=_s: con.Margin(outer=False, side=s), "QQ", [],
        lambda r, p, s=_s: [g.inner_margin(r[0], r[1], s)], "q")

KINDS = {"P": gen.point, "L": gen.line(), "Q": gen.quad()}


def names(group=None, kinds=None, linear=None):
    return [n for n, m in MEAS.items()
            if (group is None or m.group == group) and (kinds is None or m.kinds == kinds) and (linear is None or m.linear == linear)]


@st.composite
def application(draw, pool, kinds=None, flags=False):
    """(measurement name, raw primitives, parameters)"""
    name = draw(st.sampled_from(pool))
    m = MEAS[name]
    prims = [draw((kinds or KINDS)[k]) for k in m.kinds]
    if len(prims) == 2 and m.kinds[0] == m.kinds[1] == "L" and draw(st.integers(0, 3)) == 0:
        # a second line in a special position: turned by a multiple of 45 degrees, or almost
        l = prims[0]
        d = g.vec(l)
        deg = float(np.degrees(np.arctan2(d[1], d[0]))) + 45 * draw(st.integers(-4, 4)) + draw(st.one_of(st.just(0), gen.tiny))
        p = draw(gen.point)
        prims[1] = [p, gen.polar(p, draw(gen.size), round(deg, 9))]
    params = [draw(s) for s in m.params]
    if flags:
        params = [as_flag(p, draw(st.sampled_from(FLAGS))) if isinstance(p, bool) and draw(st.booleans()) else p for p in params]
    return dict(m=name, prims=prims, params=params)


@st.composite
def whole_application(draw, pool, kinds=None):
    """A measurement of whole coordinates given in various numeric types, of very different sizes"""
    case = draw(application(pool, kinds))
    types = draw(st.lists(st.sampled_from(sorted(mk.NUMBERS)), min_size=1, max_size=3))
    f = draw(st.sampled_from([1, 10, 100, 10000, 100000]))
    n, prims = 0, []
    for raw in case["prims"]:
        raw, n = mk.fit(_times(raw, f), types, n)
        prims.append(raw)
    return dict(case, prims=prims, types=types)


def _times(raw, f):
    return [v * f for v in raw] if not isinstance(raw[0], list) else [_times(v, f) for v in raw]


def whole_build(case):
    n, prims = 0, []
    for raw in case["prims"]:
        q, n = mk.typed(raw, case["types"], n)
        prims.append(q)
    return tuple(prims)


def scale_of(case):
    """Magnitude of intermediate numbers, for tolerances"""
    s = g.pts_scale(*case["prims"]) if case["prims"] else 1.0
    ds = [1.0]
    for p in case["params"]:
        if isinstance(p, list):
            ds.append(float(np.max(np.abs(p))))
    return s * max(ds)

"""Constraints: how to build each, when its relation holds, and geometry that satisfies or breaks it"""

import math

from hypothesis import strategies as st

from . import gen, geom as g, meas

from mpllayout import constraints as cr

# value constraints: constraint name -> (factory, measurement)
VALUE = {
    "Fix": (cr.Fix, "Coordinate"),
    "AspectRatio": (cr.AspectRatio, "AspectRatio"),
}
for _n in ("DirectedDistance", "XDistance", "YDistance", "Length", "DirectedLength", "XLength", "YLength",
           "MidpointXDistance", "MidpointYDistance", "Angle", "PointOnLineDistance", "PointToLineDistance",
           "RelativePointOnLineDistance", "Width", "Height"):
    VALUE[_n] = (getattr(cr, _n), _n)
for _s in g.SIDES:
    VALUE[f"OuterMargin-{_s}"] = (lambda s=_s: cr.OuterMargin(side=s), f"OuterMargin-{_s}")
    VALUE[f"InnerMargin-{_s}"] = (lambda s=_s: cr.InnerMargin(side=s), f"InnerMargin-{_s}")

VALUE_PL = [n for n, (_, m) in VALUE.items() if meas.MEAS[m].group == "pl"]
VALUE_Q = [n for n, (_, m) in VALUE.items() if meas.MEAS[m].group == "q"]


class Rel:
    def __init__(self, make, kinds, err, satisfied, params=()):
        self.make, self.kinds, self.err, self.satisfied = make, kinds, err, satisfied
        self.nparams = params


def _line_at(p, r, deg):
    return [p, gen.polar(p, r, deg)]


@st.composite
def _coincident(draw):
    p = draw(gen.point)
    return [p, list(p)], []


@st.composite
def _oriented(draw, deg):
    return [_line_at(draw(gen.point), draw(gen.size), deg + 180 * draw(st.integers(0, 1)))], []


@st.composite
def _turned(draw, deg):
    a = draw(gen.angle_deg)
    l0 = _line_at(draw(gen.point), draw(gen.size), a)
    l1 = _line_at(draw(gen.point), draw(gen.size), a + deg + 180 * draw(st.integers(0, 1)))
    return [l0, l1], []


@st.composite
def _collinear(draw):
    a = draw(gen.angle_deg)
    p = draw(gen.point)
    l0 = _line_at(p, draw(gen.size), a)
    q = gen.polar(p, draw(gen.nums(-6, 6, 8)), a)
    return [l0, _line_at(q, draw(gen.size), a + 180 * draw(st.integers(0, 1)))], []


@st.composite
def _coincident_lines(draw):
    l = draw(gen.line(scale=False))
    rev = draw(st.booleans())
    return [l, [list(v) for v in (l[::-1] if rev else l)]], [rev]


def coincident_lines_err(r, p):
    a, b = r
    if meas.flag_of(p[0]):
        b = b[::-1]
    return max(abs(u - v) for x, y in zip(a, b) for u, v in zip(x, y))


RELATIONS = {
    "Coincident": Rel(cr.Coincident, "PP", lambda r, p: max(abs(r[0][0] - r[1][0]), abs(r[0][1] - r[1][1])), _coincident()),
    "Vertical": Rel(cr.Vertical, "L", lambda r, p: abs(g.vec(r[0])[0]), _oriented(90)),
    "Horizontal": Rel(cr.Horizontal, "L", lambda r, p: abs(g.vec(r[0])[1]), _oriented(0)),
    "Parallel": Rel(cr.Parallel, "LL", lambda r, p: g.parallel_err(*r), _turned(0)),
    "Orthogonal": Rel(cr.Orthogonal, "LL", lambda r, p: g.orthogonal_err(*r), _turned(90)),
    "Collinear": Rel(cr.Collinear, "LL", lambda r, p: g.collinear_err(*r), _collinear()),
    "CoincidentLines": Rel(cr.CoincidentLines, "LL", coincident_lines_err, _coincident_lines(), 1),
}


def box_pair_rows(draw, row):
    """Two quadrilaterals aligned along a common (possibly slanted) strip"""
    x, y = draw(gen.coord), draw(gen.coord)
    h = draw(gen.size)
    w0, w1, off = draw(gen.size), draw(gen.size), draw(gen.nums(-6, 6, 8))
    if row:
        a, b = g.box(x, y, w0, h), g.box(x + off, y, w1, h)
        if draw(st.integers(0, 3)) == 0:
            # slanted ends keep the row aligned
            k = draw(gen.nums(-1, 1, 8)) * 0.5 * w1
            b[2][0] += k
            b[3][0] += k
    else:
        a, b = g.box(x, y, h, w0), g.box(x, y + off, h, w1)
        if draw(st.integers(0, 3)) == 0:
            k = draw(gen.nums(-1, 1, 8)) * 0.5 * w1
            b[1][1] += k
            b[2][1] += k
    t = math.radians(draw(st.sampled_from([0, 0, 0, 90, 30, 137])))
    if t:
        c, s = math.cos(t), math.sin(t)
        rot = lambda v: [c * v[0] - s * v[1], s * v[0] + c * v[1]]
        a, b = [rot(v) for v in a], [rot(v) for v in b]
    return [a, b], []


@st.composite
def _row(draw, row):
    return box_pair_rows(draw, row)


@st.composite
def _box(draw):
    return [draw(gen.box())], []


@st.composite
def _faces(draw, side):
    a, b = draw(gen.quad()), draw(gen.quad())
    i, j = g.EDGE[side]
    k, l = g.EDGE[g.OPP[side]]
    b[l], b[k] = list(a[i]), list(a[j])
    return [a, b], []


QREL = {
    "Box": Rel(cr.Box, "Q", lambda r, p: g.is_box_err(r[0]), _box()),
    "AlignRow": Rel(cr.AlignRow, "QQ", lambda r, p: g.align_row_err(*r), _row(True)),
    "AlignColumn": Rel(cr.AlignColumn, "QQ", lambda r, p: g.align_col_err(*r), _row(False)),
    "Align-row": Rel(lambda: cr.Align(row=True), "QQ", lambda r, p: g.align_row_err(*r), _row(True)),
    "Align-col": Rel(lambda: cr.Align(row=False), "QQ", lambda r, p: g.align_col_err(*r), _row(False)),
}
for _s in g.SIDES:
    QREL[f"CoincidentOutwardFaces-{_s}"] = Rel(
        lambda s=_s: cr.CoincidentOutwardFaces(side=s), "QQ", lambda r, p, s=_s: g.face_err(r[0], r[1], s), _faces(_s))


@st.composite
def relation_case(draw, table):
    """Geometry satisfying a relation, and in 3 of 4 cases some part of it displaced"""
    name = draw(st.sampled_from(sorted(table)))
    prims, params = draw(table[name].satisfied)
    push = None
    if draw(st.integers(0, 3)):
        prims, push = draw(gen.displaced(prims))
    if params and draw(st.integers(0, 3)) == 0:
        params = [not params[0]]
    if params and draw(st.booleans()):
        params = [meas.as_flag(params[0], draw(st.sampled_from(meas.FLAGS)))]
    return dict(c=name, prims=prims, params=params, push=push)


def degenerate(kinds, prims):
    """Whether some line or quadrilateral edge has (almost) no length"""
    for k, r in zip(kinds, prims):
        if k == "L" and g.length(r) < 0.02:
            return True
        if k == "Q" and min(g.length((r[i], r[(i + 1) % 4])) for i in range(4)) < 0.02:
            return True
    return False

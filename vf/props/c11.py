"""C11: axes constraints place axes and labels on the stated side and position"""

import numpy as np
from hypothesis import strategies as st

from vf import gen, geom as g, mk
from vf.core import close, label, require, single, slack, sub, vec

from mpllayout import constraints as cr


def abut(frame, side, other):
    """A copy of quadrilateral `other` whose facing edge coincides with `side` of `frame`"""
    b = [list(v) for v in other]
    i, j = g.EDGE[side]
    k, l = g.EDGE[g.OPP[side]]
    b[l], b[k] = list(frame[i]), list(frame[j])
    return b


OPTS = ("xaxis", "yaxis", "twinx", "twiny")


@st.composite
def position(draw):
    axis = draw(st.sampled_from("xy"))
    twin = draw(st.booleans())
    side = draw(st.sampled_from(("bottom", "top") if axis == "x" else ("left", "right")))
    opts = dict(xaxis=draw(st.booleans()), yaxis=draw(st.booleans()), twinx=draw(st.booleans()), twiny=draw(st.booleans()))
    opts[axis + "axis"] = True
    if twin:
        opts["twin" + axis] = True
    if not opts["xaxis"]:
        opts["twinx"] = False
    if not opts["yaxis"]:
        opts["twiny"] = False
    frame = draw(st.one_of(gen.box(), gen.quad()))
    parts = [frame]
    # documented order: x axis, y axis, twin x, twin y
    for opt in ("xaxis", "yaxis", "twinx", "twiny"):
        if opts[opt]:
            q = draw(gen.quad())
            if opt == axis + "axis":
                q = abut(frame, side, q)
            if opt == "twin" + axis and draw(st.integers(0, 3)):
                q = abut(frame, g.OPP[side], q)
            parts.append([q, draw(gen.point)])
    case = dict(opts, parts=parts, axis=axis, side=side, twin=twin, cls=draw(st.booleans()), push=None)
    if draw(st.integers(0, 2)):
        n = draw(st.integers(0, len(parts) - 1))
        (q,), case["push"] = draw(gen.displaced([parts[0] if n == 0 else parts[n][0]]))
        parts[n] = q if n == 0 else [q, parts[n][1]]
    return case


def part(case, key):
    keys = [k for opt in OPTS if case[opt] for k in [mk.AXES_KEYS[opt]]]
    for i, pair in enumerate(keys):
        if key == pair[0]:
            return case["parts"][1 + i][0]
        if key == pair[1]:
            return case["parts"][1 + i][1]
    raise KeyError(key)


@sub("C11", "axis side", position(), quick=4500, shards=8, weight=2,
     rule="axes with every combination of parts, an axis box built to abut a side, possibly a coordinate, vertex, edge or box displaced")
def axis_side(case):
    axis, side, twin = case["axis"], case["side"], case["twin"]
    up = axis.upper()
    frame = case["parts"][0]
    if case["cls"]:
        c = (cr.PositionXAxis if axis == "x" else cr.PositionYAxis)(side=side, twin=twin)
    else:
        c = cr.PositionAxis(axis=axis, side=side, twin=twin)
    res = vec(c((mk.axes(case),)))
    err = g.face_err(frame, part(case, up + "Axis"), side)
    if twin:
        err = max(err, g.face_err(frame, part(case, f"Twin{up}Axis"), g.OPP[side]))
    s = g.pts_scale(*[x for p in case["parts"] for x in (p if p is not frame else [frame])])
    big = float(np.max(np.abs(res)))
    what = f"Position{up}Axis(side={side}, twin={twin}) on {case['parts']}"
    if 1e-12 * s < err < (1e-7 if slack() == 1 else 0.1):
        return False
    if err <= 1e-12 * s:
        require(big <= 1e-9 * s * slack(), "%s: in place but the residual is %s", what, res.tolist())
        label(f"{axis} {side} {'twin ' if twin else ''}in place")
    else:
        require(big >= 0.5 * err, "%s: off by %g but the residual is %s", what, err, res.tolist())
        label(f"{axis} {side} {'twin ' if twin else ''}off")
    return True


@st.composite
def label_case(draw):
    axis = draw(st.sampled_from("xy"))
    twin = draw(st.booleans())
    opts = dict(xaxis=draw(st.booleans()), yaxis=draw(st.booleans()), twinx=draw(st.booleans()), twiny=draw(st.booleans()))
    opts[axis + "axis"] = True
    if twin:
        opts["twin" + axis] = True
    if not opts["xaxis"]:
        opts["twinx"] = False
    if not opts["yaxis"]:
        opts["twiny"] = False
    frame = draw(gen.box())
    if draw(st.integers(0, 2)) == 0:
        # only the bottom and the right side have to be upright for a width and height
        frame[3] = [frame[3][0] + draw(gen.nums(-1, 1, 8)), frame[3][1] + draw(gen.nums(-1, 1, 8))]
    parts = [frame] + [[draw(gen.quad()), draw(gen.point)] for o in OPTS if opts[o]]
    return dict(opts, parts=parts, axis=axis, twin=twin, cls=draw(st.booleans()),
                frac=draw(st.one_of(gen.nums(-1, 2, 8), gen.nums(0, 1, 1000))), own=draw(st.integers(0, 2)) == 0)


@sub("C11", "label position", label_case(), quick=3600, shards=8, weight=2,
     rule="axes with frames of level bottom and upright right side, and arbitrary labels, target fraction own or arbitrary")
def label_position(case):
    axis, twin = case["axis"], case["twin"]
    up = axis.upper()
    frame = case["parts"][0]
    p = part(case, ("Twin" if twin else "") + up + "AxisLabel")
    w, h = g.width(frame), g.height(frame)
    value = (p[0] - frame[0][0]) / w if axis == "x" else (p[1] - frame[0][1]) / h
    target = value if case["own"] else case["frac"]
    if case["cls"]:
        c = (cr.PositionXAxisLabel if axis == "x" else cr.PositionYAxisLabel)(twin=twin)
    else:
        c = cr.PositionAxisLabel(axis=axis, twin=twin)
    res = c((mk.axes(case),), target)
    close(res, [value - target], f"Position{up}AxisLabel(twin={twin}) of {p} in frame {frame}, target {target}",
          atol=1e-10 * g.pts_scale(frame, p) / min(1, w, h))
    label(f"{axis}{' twin' if twin else ''}")
    return True


# in single precision


def tame(case):
    frame = case["parts"][0]
    return g.pts_scale(frame, *[x for p in case["parts"][1:] for x in p]) < 100 * min(1, abs(g.width(frame)), abs(g.height(frame)))


single("C11", "axis side", position(), lambda c: tame(c) and axis_side(c), quick=1200, shards=8, weight=3, rule="coordinates up to a hundred times the sizes; off by 0.1 or more")
single("C11", "label position", label_case(), lambda c: tame(c) and label_position(c), quick=1200, shards=8, weight=3, rule="coordinates up to a hundred times the sizes")

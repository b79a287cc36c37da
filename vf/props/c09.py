"""C09: quadrilateral constraints vanish exactly when their relation holds"""

import numpy as np
from hypothesis import strategies as st

from vf import gen, geom as g, meas, mk, rel
from vf.core import close, require, single, sub, vec
from vf.props.c08 import check_relation, check_value, tame, value_case

from mpllayout import constraints as cr


@sub("C09", "value residual", value_case(rel.VALUE_Q), quick=4500, shards=8, weight=2,
     rule="width, height, aspect ratio or margin constraint with a target on generated quadrilaterals")
def value_residual(case):
    return check_value(case)


@sub("C09", "relation", rel.relation_case(rel.QREL), quick=6000, shards=8, weight=2,
     rule="quadrilaterals built to satisfy the relation (general shapes where the relation allows them), or with a coordinate, vertex, edge or whole quadrilateral displaced; degenerate ones skipped")
def relation(case):
    return check_relation(case, rel.QREL)


# boxes of no width or height: an axis without tick labels has one


@st.composite
def flat(draw):
    out = []
    for k in range(2):
        w = draw(st.one_of(st.just(0.0), gen.size))
        h = draw(st.one_of(st.just(0.0), gen.size)) if w and k == 1 else 0.0
        if draw(st.booleans()):
            w, h = h, w
        out.append(g.box(draw(gen.coord), draw(gen.coord), w, h))
    if draw(st.booleans()):
        out.reverse()
    return dict(prims=out, target=draw(gen.coord), side=draw(gen.sides), on=draw(st.booleans()))


@sub("C09", "flat", flat(), quick=400, shards=2, weight=6, rule="at least one of two boxes has no width or no height")
def flat_boxes(case):
    a, b = [[list(v) for v in q] for q in case["prims"]]
    t, side = case["target"], case["side"]
    s = g.pts_scale(a, b) + abs(t)
    if case["on"]:
        # put the second box on the side of the first
        i, j = g.EDGE[side]
        k, l = g.EDGE[g.OPP[side]]
        b[l], b[k] = list(a[i]), list(a[j])
    A, B = mk.quad(a), mk.quad(b)
    for q, Q in ((a, A),) + (((b, B),) if not case["on"] else ()):
        close(vec(cr.Box()((Q,))), np.zeros(4), f"Box{q}")
        close(vec(cr.Width()((Q,), t)), [q[1][0] - q[0][0] - t], f"Width{q} target {t}", atol=1e-10 * s)
        close(vec(cr.Height()((Q,), t)), [q[2][1] - q[1][1] - t], f"Height{q} target {t}", atol=1e-10 * s)
        for row in (True, False):
            close(vec(cr.Align(row=row)((Q, Q))), np.zeros(4), f"Align(row={row}) of {q} with itself", atol=1e-12 * s * s)
    err = g.face_err(a, b, side)
    r = vec(cr.CoincidentOutwardFaces(side=side)((A, B)))
    require(np.all(np.isfinite(r)) and (np.max(np.abs(r)) >= 1e-4 * err if err else not r.any()), "CoincidentOutwardFaces-%s%s: residual %s", side, [a, b], r.tolist())
    for how, make in (("OuterMargin", cr.OuterMargin), ("InnerMargin", cr.InnerMargin)):
        m = meas.MEAS[f"{how}-{side}"]
        close(vec(make(side=side)((A, B), t)), np.array(m.value([a, b], []), dtype=float) - t, f"{how}-{side}{[a, b]} target {t}", atol=1e-10 * s)
    return True


# in single precision
single("C09", "value residual", value_case(rel.VALUE_Q), lambda c: tame(c) and check_value(c), quick=1600, shards=8, weight=2, rule="coordinates up to a hundred")
single("C09", "relation", rel.relation_case(rel.QREL), lambda c: tame(c) and check_relation(c, rel.QREL), quick=1600, shards=8, weight=2, rule="coordinates up to a hundred; broken by 0.1 or more")

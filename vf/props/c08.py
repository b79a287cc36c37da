"""C08: point and line constraints vanish exactly when their relation holds"""

import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, geom as g, meas, mk, rel
from vf.core import close, label, require, single, slack, sub, vec


@st.composite
def value_case(draw, pool):
    name = draw(st.sampled_from(pool))
    m = rel.VALUE[name][1]
    app = draw(meas.application([m], flags=True))
    kind = draw(st.sampled_from(["own", "near", "any", "scalar"]))
    value = [float(v) for v in meas.MEAS[m].value(app["prims"], app["params"])]
    if kind == "own":
        target = value
    elif kind == "near":
        k = draw(st.integers(0, len(value) - 1))
        target = list(value)
        target[k] += draw(gen.anyoff)
    else:
        target = [draw(gen.coord) for _ in value]
    app.update(c=name, target=target, kind=kind)
    app["how"] = draw(st.sampled_from(["float", "array", "np.float64"])) if len(value) == 1 else "array"
    if kind == "scalar":
        app["how"] = "int"
        app["target"] = [float(draw(st.integers(-5, 5)))] * len(value)
    return app


def target_arg(case):
    t = case["target"]
    return dict(float=lambda: float(t[0]), int=lambda: int(t[0]), array=lambda: np.array(t),
                **{"np.float64": lambda: np.float64(t[0])})[case["how"]]()


def check_value(case):
    make, mname = rel.VALUE[case["c"]]
    m = meas.MEAS[mname]
    got = vec(make()(mk.build(m.kinds, case["prims"]), *mk.params(case["params"]), target_arg(case)), case["c"])
    value = np.array(m.value(case["prims"], case["params"]), dtype=float)
    want = value - np.array(case["target"])
    s = meas.scale_of(case)
    shortest = min([1.0] + [g.length(p) for p in case["prims"] if len(p) == 2 and isinstance(p[0], list)])
    atol = 1e-12 * s * s / shortest ** 2 + 1e-10
    if mname == "Angle" and abs(abs(value[0]) - math.pi) < min(1e-7 * slack(), 1e-4):
        alt = want - 2 * math.copysign(math.pi, value[0])
        want = alt if abs(got[0] - alt[0]) < abs(got[0] - want[0]) else want
    label(case["c"], case["kind"], case["how"])
    close(got, want, f"{case['c']}{case['prims']} target {case['target']}: residual", rtol=1e-9, atol=atol)
    return True


@sub("C08", "value residual", value_case(rel.VALUE_PL), quick=5400, shards=8, weight=1.8,
     rule="constraint with a target (own value, one element off, arbitrary, scalar int) on non-degenerate geometry")
def value_residual(case):
    return check_value(case)


def check_relation(case, table):
    r = table[case["c"]]
    if rel.degenerate(r.kinds, case["prims"]):
        return False
    res = vec(r.make()(mk.build(r.kinds, case["prims"]), *mk.params(case["params"])), case["c"])
    require(res.size > 0 and np.all(np.isfinite(res)), "%s%s: residual %s", case["c"], case["prims"], res.tolist())
    err = r.err(case["prims"], case["params"])
    s = g.pts_scale(*case["prims"])
    big = float(np.max(np.abs(res)))
    what = f"{case['c']}{case['prims']} {case['params']}"
    if err <= 1e-12 * s:
        require(big <= 1e-9 * s * s * slack(), "%s: relation holds but the residual is %s", what, res.tolist())
        label(case["c"] + " holds")
    elif err >= 1e-6 * slack() / (1 if slack() == 1 else 10):
        require(big >= 1e-4 * err, "%s: relation is broken by %g but the residual is %s", what, err, res.tolist())
        label(case["c"] + " broken" + (" slightly" if err < 1e-3 else ""))
    else:
        label(case["c"] + " undecided")
        return False
    return True


@sub("C08", "relation", rel.relation_case(rel.RELATIONS), quick=6000, shards=8, weight=1.2,
     rule="geometry built to satisfy the relation in any orientation, or with a coordinate, vertex, edge or whole primitive displaced by 1e-6 or more; undecided in between")
def relation(case):
    return check_relation(case, rel.RELATIONS)


@st.composite
def rel_length(draw):
    l0, l1 = draw(gen.line()), draw(gen.line())
    f = g.length(l0) / g.length(l1)
    kind = draw(st.sampled_from(["own", "near", "any"]))
    if kind == "near":
        f += draw(gen.anyoff)
    elif kind == "any":
        f = draw(gen.coord)
    return dict(prims=[l0, l1], f=f, kind=kind, int=draw(st.integers(-3, 3)) if draw(st.integers(0, 4)) == 0 else None)


@sub("C08", "relative length", rel_length(), quick=1200, shards=4, weight=1.8, rule="two lines and a ratio")
def relative_length(case):
    from mpllayout import constraints as cr
    f = case["f"] if case["int"] is None else case["int"]
    l0, l1 = case["prims"]
    got = cr.RelativeLength()((mk.line(l0), mk.line(l1)), f)
    close(got, [g.length(l0) - f * g.length(l1)], f"RelativeLength{case['prims']} ratio {f}", atol=1e-9 * g.pts_scale(l0, l1) * (1 + abs(f)))
    return True


# lines without length: what does not need their direction is still defined (a box of no thickness has such sides)


@st.composite
def no_length(draw):
    p = draw(gen.point)
    l0 = [p, list(p)]
    l1 = draw(gen.line()) if draw(st.booleans()) else [list(q) for q in [draw(gen.point)] * 2]
    if draw(st.booleans()):
        l0, l1 = l1, l0
    return dict(prims=[l0, l1], dir=draw(gen.direction), rev=draw(st.booleans()), target=draw(gen.coord), f=draw(gen.nums(-3, 3, 8)))


@sub("C08", "no length", no_length(), quick=400, shards=2, weight=6, rule="at least one of two lines has no length")
def zero_length(case):
    from mpllayout import constraints as cr
    l0, l1 = case["prims"]
    a, b = mk.line(l0), mk.line(l1)
    t = case["target"]
    s = g.pts_scale(l0, l1)
    d = np.array(case["dir"])
    for name in ("Parallel", "Orthogonal"):
        close(vec(getattr(cr, name)()((a, b)), name), [0.0], f"{name}{case['prims']}", atol=1e-12 * s * s)
    for l, x in ((l0, a), (l1, b)):
        v = np.array(g.vec(l))
        zero = not v.any()
        if zero:
            for name in ("Horizontal", "Vertical"):
                close(vec(getattr(cr, name)()((x,)), name), [0.0], f"{name}{l}")
        for name, want in (("XLength", v[0]), ("YLength", v[1]), ("Length", math.hypot(*v))):
            close(vec(getattr(cr, name)()((x,), t), name), [want - t], f"{name}{l} target {t}", atol=1e-10 * s)
        close(vec(cr.DirectedLength()((x,), d, t)), [v @ d - t], f"DirectedLength{l}", atol=1e-10 * s)
    m = (np.array(l1[0]) + l1[1] - l0[0] - l0[1]) / 2
    close(vec(cr.MidpointXDistance()((a, b), t)), [m[0] - t], f"MidpointXDistance{case['prims']}", atol=1e-10 * s)
    close(vec(cr.MidpointYDistance()((a, b), t)), [m[1] - t], f"MidpointYDistance{case['prims']}", atol=1e-10 * s)
    close(vec(cr.RelativeLength()((a, b), case["f"])), [g.length(l0) - case["f"] * g.length(l1)], f"RelativeLength{case['prims']}", atol=1e-10 * s)
    r = vec(cr.CoincidentLines()((a, b), case["rev"]))
    err = rel.coincident_lines_err([l0, l1], [case["rev"]])
    require(np.all(np.isfinite(r)) and (np.max(np.abs(r)) >= 1e-4 * err if err else not r.any()), "CoincidentLines%s: residual %s", case["prims"], r.tolist())
    # a point on a line is in line with it, as is a line on itself
    q = mk.line([l0[0], l0[0]])
    r = vec(cr.Collinear()((a, q)))
    close(r, np.zeros(2), f"Collinear of {l0} and its start", atol=1e-12 * s * s)
    return True


# in single precision

def tame(case):
    lines = [g.length(p) for p in case["prims"] if len(p) == 2 and isinstance(p[0], list)]
    return g.pts_scale(*case["prims"]) < 100 * min([1.0] + lines)


single("C08", "value residual", value_case(rel.VALUE_PL), lambda c: tame(c) and check_value(c), quick=1600, shards=8, weight=2, rule="coordinates up to a hundred times the lengths")
single("C08", "relation", rel.relation_case(rel.RELATIONS), lambda c: tame(c) and check_relation(c, rel.RELATIONS), quick=1600, shards=8, weight=2, rule="coordinates up to a hundred times the lengths; broken by 0.1 or more")

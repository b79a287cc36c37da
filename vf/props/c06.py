"""C06: point and line measurements equal their Euclidean definitions"""

import math

import numpy as np

from vf import gen, geom as g, meas, mk
from vf.core import close, label, require, single, slack, sub, vec
from hypothesis import strategies as st

POOL = meas.names("pl")


def measure(name, raw, params):
    m = meas.MEAS[name]
    return m.make()(mk.build(m.kinds, raw), *mk.params(params))


def tol(case):
    """Absolute tolerance of a measurement on these coordinates (conditioning of unit vectors included)"""
    s = meas.scale_of(case)
    shortest = min([1.0] + [g.length(p) for p in case["prims"] if isinstance(p[0], list)])
    return 1e-12 * s * s / shortest ** 2 + 1e-10


def expect(case, what=None):
    m = meas.MEAS[case["m"]]
    got = measure(case["m"], case["prims"], case["params"])
    want = m.value(case["prims"], case["params"])
    got = vec(got, case["m"])
    if case["m"] == "Angle":
        require(got.size == 1, "Angle gave %d numbers", got.size)
        require(abs(got[0]) <= math.pi + 1e-12 * slack(), "Angle %r outside [-pi, pi]", float(got[0]))
        if abs(abs(want[0]) - math.pi) < min(1e-7 * slack(), 1e-4):
            # the two ends of the range are the same angle up to rounding
            got, want = np.abs(got), np.abs(want)
    close(got, want, what or f"{case['m']}({case['prims']}, {case['params']})", rtol=1e-9, atol=tol(case))
    return got


@sub("C06", "definition", meas.application(POOL, flags=True), quick=10400, shards=8, weight=1.2,
     rule="measurement applied to non-degenerate primitives, compared with its closed form")
def definition(case):
    label(case["m"])
    expect(case)
    return True


def lengths(prims):
    return [g.length(p) for p in prims if isinstance(p[0], list)]


@sub("C06", "number types", meas.whole_application(POOL), quick=3600, shards=4, weight=2.5,
     rule="measurement of whole coordinates given as integers or floats of various types and sizes, compared with its closed form")
def number_types(case):
    if any(l == 0 for l in lengths(case["prims"])):
        return False
    m = meas.MEAS[case["m"]]
    got = vec(m.make()(meas.whole_build(case), *mk.params(case["params"])), case["m"])
    want = np.asarray(m.value(case["prims"], case["params"]), dtype=float).reshape(-1)
    if case["m"] == "Angle" and abs(abs(want[0]) - math.pi) < min(1e-7 * slack(), 1e-4):
        got, want = np.abs(got), np.abs(want)
    label(case["m"], *case["types"])
    close(got, want, f"{case['m']} of {case['prims']} given as {case['types']}, {case['params']}", rtol=1e-9, atol=tol(case))
    return True


@st.composite
def moved(draw):
    case = draw(meas.application(POOL))
    case["shift"] = draw(gen.wpoint)
    case["turn"] = draw(st.integers(0, 3))
    case["factor"] = draw(st.sampled_from([0.25, 0.5, 2.0, 8.0]))
    return case


def tmap(fn, x):
    return fn(x) if not isinstance(x[0], list) else [tmap(fn, y) for y in x]


@sub("C06", "similarity", moved(), quick=2000, shards=4, weight=2.5,
     rule="measurement compared before and after an exact rotation by 90-degree steps, scaling by a power of two and translation of everything")
def similarity(case):
    name, turn, f = case["m"], case["turn"], case["factor"]
    t = case["shift"]

    def rot(p):
        for _ in range(turn):
            p = [-p[1], p[0]]
        return p

    def move(p):
        q = rot(p)
        return [f * q[0] + t[0], f * q[1] + t[1]]

    before = vec(measure(name, case["prims"], case["params"]))
    params2 = [rot(p) if isinstance(p, list) else p for p in case["params"]]
    prims2 = [tmap(move, p) for p in case["prims"]]
    after = vec(measure(name, prims2, params2))
    if name in ("XDistance", "YDistance", "XLength", "YLength", "MidpointXDistance", "MidpointYDistance") and turn % 2:
        return False
    if name in ("XDistance", "YDistance", "XLength", "YLength", "MidpointXDistance", "MidpointYDistance") and turn == 2:
        want = -f * before
    elif name in ("Coordinate", "Midpoint"):
        want = np.array(move(list(before)))
    elif name == "LineVector":
        want = f * np.array(rot(list(before)))
    elif name == "UnitLineVector":
        want = np.array(rot(list(before)))
    elif name in ("Angle", "RelativePointOnLineDistance"):
        want = before
    else:
        want = f * before
    if name == "Angle":
        after, want = np.cos(after) + 2 * np.sin(after), np.cos(want) + 2 * np.sin(want)
    label(name)
    close(after, want, f"{name} after turn {turn}, scale {f}, shift {t}", rtol=1e-8,
          atol=100 * tol(case) * max(1, f) + tol(dict(case, prims=prims2)))
    return bool(turn or t != [0, 0])


@sub("C06", "reversal", meas.application([n for n in POOL if meas.MEAS[n].kinds in ("PP", "L", "LL", "PL")]),
     quick=2000, shards=4, weight=2.5,
     rule="measurement compared with the one on reversed lines / swapped primitives / flipped flag")
def reversal(case):
    name, prims, params = case["m"], case["prims"], case["params"]
    m = meas.MEAS[name]
    v = vec(measure(name, prims, params))
    t = 10 * tol(case)
    label(name)
    if m.kinds == "PP" or m.kinds == "LL":
        w = vec(measure(name, prims[::-1], params))
        if name == "Angle":
            require(abs(math.sin((v + w)[0])) < 1e-7 and math.cos((v + w)[0]) > 0, "Angle(a,b)=%r but Angle(b,a)=%r", v.tolist(), w.tolist())
        else:
            close(w, -v, f"{name} with swapped primitives", atol=t)
    if m.kinds == "L":
        w = vec(measure(name, [prims[0][::-1]], params))
        sign = 1 if name in ("Length", "Midpoint") else -1
        close(w, sign * v, f"{name} of the reversed line", atol=t)
    if m.kinds == "PL":
        rev = [prims[0], prims[1][::-1]]
        w = vec(measure(name, rev, params))
        x = vec(measure(name, prims, [not meas.flag_of(params[0])]))
        if name == "PointToLineDistance":
            close(w, -v, f"{name} of the reversed line", atol=t)
            close(x, -v, f"{name} with the other flag", atol=t)
        else:
            close(w, x, f"{name}: reversed line against flipped flag", atol=t)
            whole = 1.0 if name.startswith("Relative") else g.length(prims[1])
            close(v + x, [whole], f"{name}: both ends' distances must add up to the line", atol=t)
    return True


def tame(case):
    """Whether single precision can be expected to tell"""
    return tol(case) < 1e-9


single("C06", "definition", meas.application(POOL, flags=True), lambda c: tame(c) and definition(c), quick=2400, shards=8, weight=1.5, rule="the coordinates are not much larger than the lengths")

"""Hypothesis strategies shared by the sub-checks; every value is JSON-serialisable"""

import json
import math

from . import core  # sets up the path
from hypothesis import strategies as st

from . import geom as g

# numbers


def nums(lo, hi, den):
    return st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)


coord = st.one_of(nums(-5, 5, 8), nums(-100, 100, 10000), nums(-3, 3, 2))
wide = st.one_of(coord, nums(-2000, 2000, 100))
size = st.one_of(nums(0.25, 6, 8), nums(0.1, 30, 1000))
nonzero = st.one_of(coord, coord).filter(lambda v: abs(v) >= 0.05)
bigoff = st.one_of(nums(0.125, 5, 8), nums(-5, -0.125, 8), nums(0.01, 3, 1000), nums(-3, -0.01, 1000))
tiny = st.tuples(st.integers(1, 6), st.sampled_from([-1, 1]), nums(1, 9, 4)).map(lambda t: t[1] * t[2] * 10.0 ** -t[0])
anyoff = st.one_of(bigoff, bigoff, tiny)  # a displacement of any magnitude from about 1e-6 up
sides = st.sampled_from(g.SIDES)

point = st.tuples(coord, coord).map(list)
wpoint = st.tuples(wide, wide).map(list)
angle_deg = st.one_of(st.integers(-12, 24).map(lambda k: 15.0 * k), nums(-360, 360, 10))
direction = st.one_of(
    st.tuples(nums(-3, 3, 4), nums(-3, 3, 4)).map(list),
    angle_deg.map(lambda d: [math.cos(math.radians(d)), math.sin(math.radians(d))]),
)


def polar(p, r, deg):
    d = deg % 360
    exact = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}
    c, s = exact.get(d, (math.cos(math.radians(d)), math.sin(math.radians(d))))
    return [p[0] + r * c, p[1] + r * s]


@st.composite
def line(draw, scale=True):
    p = draw(point)
    r = draw(size)
    if scale:
        r *= draw(st.sampled_from([1, 1, 1, 1, 0.05, 40]))
    q = polar(p, r, draw(angle_deg))
    if draw(st.integers(0, 5)) == 0:
        return [q, p]
    return [p, q]


@st.composite
def box(draw):
    x, y, w, h = draw(coord), draw(coord), draw(size), draw(size)
    return g.box(x, y, w, h)


@st.composite
def quad(draw):
    """A non-degenerate quadrilateral: box, shifted corners, or rotated box"""
    b = draw(box())
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return b
    w, h = b[1][0] - b[0][0], b[3][1] - b[0][1]
    if kind == 3:
        t = math.radians(draw(angle_deg))
        c, s = math.cos(t), math.sin(t)
        return [[b[0][0] + c * (x - b[0][0]) - s * (y - b[0][1]), b[0][1] + s * (x - b[0][0]) + c * (y - b[0][1])] for x, y in b]
    f = st.integers(-30, 30).map(lambda i: i / 100)
    return [[x + draw(f) * w, y + draw(f) * h] for x, y in b]


@st.composite
def polygon(draw, lo=1, hi=14):
    n = draw(st.integers(lo, hi))
    return [draw(point) for _ in range(n)]


# names
plain = st.sampled_from(["a", "b", "Z", "z", "Axes1", "Axes10", "Axes2", "Figure", "p0", "p1", "Frame", "Line0",
                         "Line10", "Line2", "1", "10", "2", " ", "ä", "λ", "x y", "arg0", "Zed", "."])
name = st.one_of(plain, plain, st.text(alphabet="abAB01_-. é", min_size=1, max_size=5))


def names(n_lo, n_hi):
    return st.lists(name, min_size=n_lo, max_size=n_hi, unique=True)


def distinct(strategy, n_lo, n_hi):
    return st.lists(strategy, min_size=n_lo, max_size=n_hi, unique_by=lambda v: str(v))


def _points(x, out):
    if isinstance(x[0], list):
        for y in x:
            _points(y, out)
    else:
        out.append(x)
    return out


@st.composite
def displaced(draw, prims):
    """
    A copy of raw primitives (points, lines, quadrilaterals as nested lists) with one part moved, and what moved:
    a coordinate, a vertex, an edge, a whole primitive (shifted, turned or scaled), or a vertex put onto another one
    """
    prims = json.loads(json.dumps(prims))
    kind = draw(st.sampled_from(["coordinate", "coordinate", "vertex", "edge", "edge", "shift", "turn", "scale", "meet"]))
    n = draw(st.integers(0, len(prims) - 1))
    pts = _points(prims[n], [])
    d = draw(anyoff)
    i = draw(st.integers(0, len(pts) - 1))
    axes = draw(st.sampled_from([(1, 0), (0, 1), (1, 0), (0, 1), (1, 1), (1, -0.5)]))
    if kind == "coordinate":
        pts[i][draw(st.integers(0, 1))] += d
    elif kind == "meet":
        others = [q for m, pr in enumerate(prims) if m != n or len(pts) > 2 for q in _points(pr, []) if q is not pts[i]]
        if others:
            pts[i][:] = draw(st.sampled_from(others))
    elif kind == "turn":
        a = draw(st.one_of(angle_deg, tiny))
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        o = list(pts[i])
        for q in pts:
            q[:] = [o[0] + c * (q[0] - o[0]) - s * (q[1] - o[1]), o[1] + s * (q[0] - o[0]) + c * (q[1] - o[1])]
    elif kind == "scale":
        o = list(pts[i])
        f = 1 + draw(st.one_of(nums(0.125, 3, 8), tiny))
        for q in pts:
            q[:] = [o[0] + f * (q[0] - o[0]), o[1] + f * (q[1] - o[1])]
    else:
        moved = dict(vertex=[i], edge=[i, (i + 1) % len(pts)], shift=range(len(pts)))[kind]
        for k in set(moved):
            pts[k][0] += axes[0] * d
            pts[k][1] += axes[1] * d
    return prims, [kind, n, i]

"""Build the package's primitives from raw coordinates, and read them back (public API only)"""

import jax.numpy as jnp
import numpy as np

from mpllayout import primitives as pr


def point(p):
    return pr.Point([float(p[0]), float(p[1])])


# numeric types in which whole coordinates can be given: (largest magnitude, negative ones as well, how)
NUMBERS = {
    "int": (10 ** 6, True, lambda p: [int(v) for v in p]),
    "tuple": (10 ** 6, True, lambda p: tuple(int(v) for v in p)),
    "int8": (100, True, lambda p: np.array(p, dtype=np.int8)),
    "uint8": (200, False, lambda p: np.array(p, dtype=np.uint8)),
    "int16": (30000, True, lambda p: np.array(p, dtype=np.int16)),
    "int32": (10 ** 6, True, lambda p: np.array(p, dtype=np.int32)),
    "uint64": (10 ** 6, False, lambda p: np.array(p, dtype=np.uint64)),
    "float16": (1000, True, lambda p: np.array(p, dtype=np.float16)),
    "float32": (10 ** 5, True, lambda p: np.array(p, dtype=np.float32)),
    "jax int": (10 ** 6, True, lambda p: jnp.asarray([int(v) for v in p])),
    "jax float32": (10 ** 5, True, lambda p: jnp.asarray(p, dtype=jnp.float32)),
    "numbers": (1000, True, lambda p: [np.int16(p[0]), np.float32(p[1])]),
}


def fitting(p, kind):
    """The nearest coordinates of that type"""
    top, signed, _ = NUMBERS[kind]
    q = [int(round(v)) for v in p]
    q = [v if abs(v) <= top else int(np.sign(v)) * (abs(v) % top) for v in q]
    return [float(v) for v in q] if signed else [float(abs(v)) for v in q]


def typed(raw, kinds, n=0):
    """(primitive from whole raw coordinates, with a numeric type per point, number of points used)"""
    if not isinstance(raw[0], list):
        return pr.Point(NUMBERS[kinds[n % len(kinds)]][2](raw)), n + 1
    pts = []
    for v in raw:
        q, n = typed(v, kinds, n)
        pts.append(q)
    if len(pts) == 2:
        return pr.Line([], tuple(pts)), n
    return pr.Quadrilateral([], pts), n


def fit(raw, kinds, n=0):
    if not isinstance(raw[0], list):
        return fitting(raw, kinds[n % len(kinds)]), n + 1
    out = []
    for v in raw:
        q, n = fit(v, kinds, n)
        out.append(q)
    return out, n


def line(l):
    return pr.Line([], (point(l[0]), point(l[1])))


def polygon(vs):
    return pr.Polygon([], [point(v) for v in vs])


def quad(vs):
    return pr.Quadrilateral([], [point(v) for v in vs])


KIND = {"P": point, "L": line, "Q": quad}
TYPE = {"P": pr.Point, "L": pr.Line, "Q": pr.Quadrilateral}

AXES_KEYS = dict(xaxis=("XAxis", "XAxisLabel"), yaxis=("YAxis", "YAxisLabel"),
                 twinx=("TwinXAxis", "TwinXAxisLabel"), twiny=("TwinYAxis", "TwinYAxisLabel"))


def axes(spec):
    """spec: dict(xaxis=bool, ..., parts=[frame, (quad, point), ...] in documented order)"""
    opts = {k: bool(spec.get(k)) for k in ("xaxis", "yaxis", "twinx", "twiny")}
    prims = [quad(spec["parts"][0])]
    for q, p in spec["parts"][1:]:
        prims += [quad(q), point(p)]
    return pr.Axes([], tuple(prims), **opts)


def build(kinds, raws):
    return tuple(KIND[k](r) for k, r in zip(kinds, raws))


def rp(point):
    return [float(v) for v in np.asarray(point.value).reshape(-1)]


def rl(line):
    return [rp(line["Point0"]), rp(line["Point1"])]


def rq(quad):
    """Vertices of a polygon: start point of each edge"""
    return [rp(quad[f"Line{n}"]["Point0"]) for n in range(len(quad))]


def params(ps):
    """JSON parameters to call parameters: lists become arrays, flags the drawn kind of boolean"""
    def one(p):
        if isinstance(p, list):
            return np.array(p, dtype=float)
        if isinstance(p, dict):
            return {"int": int, "np.bool_": np.bool_, "jnp": jnp.asarray}[p["as"]](p["flag"])
        return p
    return tuple(one(p) for p in ps)

"""C19: primitives are built as documented and malformed ones are rejected"""

import numpy as np
from hypothesis import strategies as st

from vf import gen, geom as g, mk
from vf.core import close, label, require, sub, Violation

import jax.numpy as jnp
from mpllayout import primitives as pr

AS = {"list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=float), "int array": lambda v: np.array([int(round(c)) for c in v]),
      "jax": lambda v: jnp.asarray(v, dtype=float), "float32": lambda v: np.array(v, dtype=np.float32)}


def rejected(fn, what):
    try:
        res = fn()
    except Exception:
        return
    raise Violation(f"{what} was accepted: {str(res)[:300]}")


def same_point(p, xy, what):
    require(type(p) is pr.Point and np.asarray(p.value).shape == (2,), "%s is %r", what, p)
    close(p.value, xy, what, rtol=1e-6)


@sub("C19", "point", st.tuples(gen.wpoint, st.sampled_from(sorted(AS))), quick=1200, shards=2, weight=2, rule="coordinates given as list, tuple, array of several types")
def point(case):
    xy, how = case
    v = AS[how](xy)
    p = pr.Point(v)
    same_point(p, [float(c) for c in v], f"Point({how})")
    require(len(p) == 0, "point has children %r", p.keys())
    require(isinstance(p.value, np.ndarray), "coordinates are kept as %s", type(p.value))
    same_point(pr.Point(value=v, prims=()), [float(c) for c in v], "Point with keywords")
    return True


@sub("C19", "line", st.tuples(gen.wpoint, gen.wpoint, st.booleans(), st.sampled_from([None, "list", "array"])), quick=1200, shards=2, weight=2, rule="every line")
def line(case):
    a, b, as_list, val = case
    p, q = mk.point(a), mk.point(b)
    prims = [p, q] if as_list else (p, q)
    l = pr.Line({None: None, "list": [], "array": np.array([])}[val], prims)
    require(l.keys() == ["Point0", "Point1"], "line has children %r", l.keys())
    require(np.asarray(l.value).size == 0, "line has parameters %r", l.value)
    same_point(l["Point0"], a, "start")
    same_point(l["Point1"], b, "end")
    require(l["Point0"] is p and l["Point1"] is q, "line does not consist of the given points")
    d = pr.Line()
    require(d.keys() == ["Point0", "Point1"] and np.asarray(d.value).size == 0, "default line is %r", d)
    return True


def check_loop(poly, points, what):
    n = len(points)
    require(poly.keys() == [f"Line{i}" for i in range(n)], "%s of %d vertices has children %r", what, n, poly.keys())
    require(np.asarray(poly.value).size == 0, "%s has parameters", what)
    for i in range(n):
        l = poly[f"Line{i}"]
        require(isinstance(l, pr.Line) and l.keys() == ["Point0", "Point1"], "%s has edge %r", what, l)
        require(l["Point0"] is points[i] and l["Point1"] is points[(i + 1) % n],
                "edge %d of %s does not run from vertex %d to vertex %d: %r", i, what, i, (i + 1) % n, l)


@sub("C19", "polygon", st.tuples(st.one_of(gen.polygon(1, 15), gen.polygon(1, 15), gen.polygon(1, 15), gen.polygon(16, 70)), st.booleans(), st.booleans()), quick=1600, shards=2, weight=4, rule="1 to 70 vertices, given as list or tuple; quadrilaterals for 4; non-trivial from 3 on")
def polygon(case):
    vs, as_list, given_size = case
    pts = [mk.point(v) for v in vs]
    arg = list(pts) if as_list else tuple(pts)
    poly = pr.Polygon([], arg, size=len(vs)) if given_size else pr.Polygon([], arg)
    check_loop(poly, pts, "polygon")
    for i, v in enumerate(vs):
        same_point(poly[f"Line{i}/Point0"], v, f"vertex {i}")
    require(len(arg) == len(pts) and all(a is b for a, b in zip(arg, pts)), "the given list of vertices changed")
    if len(vs) == 4:
        q = pr.Quadrilateral([], arg)
        check_loop(q, pts, "quadrilateral")
        require(isinstance(q, pr.Polygon), "quadrilateral is not a polygon")
    else:
        rejected(lambda: pr.Quadrilateral([], arg), f"a quadrilateral of {len(vs)} vertices")
    d = pr.Polygon(size=len(vs))
    check_loop(d, [d[f"Line{i}/Point0"] for i in range(len(vs))] if len(d) == len(vs) else [None] * len(vs), "default polygon")
    return len(vs) > 2


@sub("C19", "box", gen.box(), quick=600, weight=3, rule="boxes: edges bottom, right, top, left")
def box(case):
    q = mk.quad(case)
    for side, k in (("bottom", 0), ("right", 1), ("top", 2), ("left", 3)):
        e = g.edge(case, side)
        same_point(q[f"Line{k}/Point0"], e[0], f"start of {side} edge")
        same_point(q[f"Line{k}/Point1"], e[1], f"end of {side} edge")
    require(max(q[f"Line0/Point{i}"].value[1] for i in (0, 1)) <= min(q[f"Line2/Point{i}"].value[1] for i in (0, 1)), "bottom is above top")
    require(max(q[f"Line3/Point{i}"].value[0] for i in (0, 1)) <= min(q[f"Line1/Point{i}"].value[0] for i in (0, 1)), "left is right of right")
    d = pr.Quadrilateral()
    check_loop(d, [d[f"Line{i}/Point0"] for i in range(4)], "default quadrilateral")
    return True


OPTS = ("xaxis", "yaxis", "twinx", "twiny")


def axes_keys(o):
    keys = ["Frame"]
    for k in ("xaxis", "yaxis"):
        if o[k]:
            keys += mk.AXES_KEYS[k]
    for k, prim in (("twinx", "xaxis"), ("twiny", "yaxis")):
        if o[k] and o[prim]:
            keys += mk.AXES_KEYS[k]
    return keys


@st.composite
def axes_case(draw):
    return dict(o={k: draw(st.booleans()) for k in OPTS}, boxes=[draw(gen.quad()) for _ in range(5)], pts=[draw(gen.point) for _ in range(5)],
                missing=draw(st.booleans()), extra=draw(st.integers(0, 3)))


@sub("C19", "axes", axes_case(), quick=2000, shards=2, weight=10, rule="every option combination with given and default parts, and with parts missing or in excess; non-trivial with an axis")
def axes(case):
    o = case["o"]
    keys = axes_keys(o)
    parts = [mk.quad(case["boxes"][0])]
    for q, p in zip(case["boxes"][1:], case["pts"][1:]):
        parts += [mk.quad(q), mk.point(p)]
    given, rest = parts[:len(keys)], parts[len(keys):]
    a = pr.Axes([], tuple(given), **o)
    require(sorted(a.keys()) == sorted(keys), "axes with %s have parts %r instead of %r", o, a.keys(), keys)
    for k, p in zip(keys, given):
        require(a[k] is p, "part %r of axes with %s is not the one given for it", k, o)
    require(np.asarray(a.value).size == 0, "axes have parameters")
    d = pr.Axes(**o)
    require(sorted(d.keys()) == sorted(keys), "default axes with %s have parts %r instead of %r", o, d.keys(), keys)
    for k in keys:
        require(isinstance(d[k], pr.Point if k.endswith("Label") else pr.Quadrilateral), "part %r of default axes is a %s", k, type(d[k]).__name__)
    ids = [id(d[k]) for k in keys]
    require(len(set(ids)) == len(ids), "default axes share parts")
    if len(given) > 1:
        rejected(lambda: pr.Axes([], tuple(given[:-1]), **o), f"axes with {o} from {len(given) - 1} parts instead of {len(given)}")
        rejected(lambda: pr.Axes([], (given[1], given[2], *given[1:])[::-1], **o), "axes from parts of wrong types")
        bad = list(given)
        bad[1], bad[2] = bad[2], bad[1]
        rejected(lambda: pr.Axes([], tuple(bad), **o), "axes with an axis and a label exchanged")
    if rest:
        rejected(lambda: pr.Axes([], tuple(given + rest[:2]), **o), f"axes with {o} from {len(given) + 2} parts instead of {len(given)}")
    rejected(lambda: pr.Axes([], (mk.line([[0, 0], [1, 0]]), *given[1:]), **o), "axes with a line as frame")
    label(f"{len(keys)} parts")
    return len(keys) > 1


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(["Point", "Line", "Polygon", "Quadrilateral", "Axes", "PrimitiveNode"])),
                how=draw(st.sampled_from(["size", "2d", "count", "type", "type", "no primitive"])), n=draw(st.integers(0, 6)), at=draw(st.integers(0, 6)),
                wrong=draw(st.sampled_from(["P", "L", "Q", "N", "A"])))


def wrong_prim(k):
    return {"P": pr.Point, "L": pr.Line, "Q": pr.Quadrilateral, "A": pr.Axes, "N": lambda: pr.PrimitiveNode(np.array([]), {})}[k]()


GOOD = dict(Point=(2, ""), Line=(0, "PP"), Polygon=(0, "PPPPP"), Quadrilateral=(0, "PPPP"), Axes=(0, "Q"), PrimitiveNode=(0, "PLQ"))


@sub("C19", "malformed", bad_case(), quick=3600, shards=2, weight=2, rule="every class with a parameter vector, number of parts or type of part that does not fit")
def malformed(case):
    kind, n = case["kind"], case["n"]
    size, parts = GOOD[kind]
    cls = getattr(pr, kind)

    def build(value, prims):
        if kind == "PrimitiveNode":
            return cls(np.array(value, dtype=float), {f"k{i}": p for i, p in enumerate(prims)})
        return cls(value, prims)
    prims = [wrong_prim(k) for k in parts]
    good = [0.5] * size
    build(good, list(prims))
    if case["how"] == "size":
        if n == size:
            n += 1
        rejected(lambda: build([0.25] * n, list(prims)), f"{kind} with {n} parameters")
        rejected(lambda: build(np.full(n, 0.25), list(prims)), f"{kind} with an array of {n} parameters")
    elif case["how"] == "2d":
        if size:
            rejected(lambda: build([[0.25] * (n % 3 + 1)] * size, list(prims)), f"{kind} with parameters of shape {(size, n % 3 + 1)}")
        else:
            rejected(lambda: build([[0.25] * (n % 3 + 1)], list(prims)), f"{kind} with parameters of shape {(1, n % 3 + 1)}")
    elif case["how"] == "count":
        if kind in ("Polygon", "PrimitiveNode") or n == len(parts):
            return False
        more = [wrong_prim((parts or "P")[0]) for _ in range(n)]
        rejected(lambda: build(good, more), f"{kind} from {n} parts")
        rejected(lambda: build(good, tuple(more)), f"{kind} from a tuple of {n} parts")
    else:
        if not parts:
            return False
        i = case["at"] % len(parts)
        if case["how"] == "type":
            if kind == "PrimitiveNode" or case["wrong"] == parts[i]:
                return False
            prims[i] = wrong_prim(case["wrong"])
        else:
            prims[i] = [0.0, 1.0]
        rejected(lambda: build(good, list(prims)), f"{kind} with {prims[i]!r} as part {i}")
    label(case["how"])
    return True


CLS = {"P": pr.Point, "L": pr.Line, "G": pr.Polygon, "Q": pr.Quadrilateral, "N": None}
SUBS = {"P": "P", "L": "L", "G": "GQ", "Q": "Q", "N": "PLGQ"}
PART = {"P": pr.Point, "L": pr.Line, "G": pr.Polygon, "Q": pr.Quadrilateral}

one_sig = st.tuples(st.text("PLGQN", min_size=0, max_size=3), st.booleans()).map(lambda t: [t[0], t[1] and bool(t[0])])


@st.composite
def custom(draw):
    sigs = [draw(one_sig)] if draw(st.booleans()) else draw(st.lists(one_sig, min_size=1, max_size=3, unique_by=str))
    many = len(sigs) > 1
    if draw(st.booleans()):
        s, rep = draw(st.sampled_from(sigs))
        unit = s * (draw(st.integers(0, 3)) if rep else 1)
        parts = "".join(draw(st.sampled_from(SUBS[k])) for k in unit)
        if draw(st.integers(0, 2)) == 0 and parts:
            i = draw(st.integers(0, len(parts) - 1))
            parts = parts[:i] + draw(st.sampled_from(["", "P", "L", "G", "Q"])) + parts[i + 1:]
    else:
        parts = draw(st.text("PLGQ", max_size=5))
    return dict(sigs=sigs, set=many or draw(st.booleans()), size=draw(st.integers(0, 3)), parts=parts, off=draw(st.sampled_from([0, 0, 0, 1, 2])))


def fits(sig, parts):
    s, rep = sig
    if rep:
        if len(parts) % len(s):
            return False
        s = s * (len(parts) // len(s))
    return len(s) == len(parts) and all(p in SUBS[k] for k, p in zip(s, parts))


@sub("C19", "custom classes", custom(), quick=3600, shards=2, weight=3,
     rule="user-defined primitive classes with random signatures (fixed, repeating, alternatives) and parts that fit or not; non-trivial with parts")
def custom_classes(case):
    sigs = [tuple(CLS[k] for k in s) + ((...,) if rep else ()) for s, rep in case["sigs"]]

    class User(pr.Primitive):
        signature = (case["size"], set(sigs) if case["set"] else sigs[0])

        @classmethod
        def init_children(cls, prims):
            return tuple(f"part{i}" for i in range(len(prims))), prims

        @classmethod
        def default_value(cls):
            return np.zeros(case["size"])

        @classmethod
        def default_prims(cls):
            return ()
    ok = any(fits(s, case["parts"]) for s in (case["sigs"] if case["set"] else case["sigs"][:1]))
    prims = [PART[k]() for k in case["parts"]]
    value = [0.5 * i for i in range(case["size"] + case["off"])]
    if ok and not case["off"]:
        p = User(value, prims)
        require(p.keys() == [f"part{i}" for i in range(len(prims))] and all(a is b for a, b in zip(p.values(), prims)), "parts are %r", p)
        close(p.value, value, "parameters")
        label("fits")
    else:
        rejected(lambda: User(value, prims), f"a primitive with signature {User.signature} from {case['parts']} and {len(value)} parameters")
        label("does not fit")
    return len(prims) > 0

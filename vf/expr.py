"""
Random construction expressions with an interpreter over the oracle's measurements

An expression is a JSON list; `build` makes the package's object, `evaluate`
gives raw primitives, parameters and the value as (list of node arrays, depth
first) together with the magnitude of intermediate results.
"""

import random

import numpy as np
from hypothesis import strategies as st
from jax import numpy as jnp

from . import gen, geom as g, meas, mk, trees

from mpllayout import constructions as con
from mpllayout.containers import Node

# leaves grouped by tree shape, so that sums are defined within a group
SHAPES = {
    "s1": [n for n in meas.names("pl") if n not in ("Coordinate", "LineVector", "UnitLineVector", "Midpoint", "Angle")] + ["AspectRatio", "Scalar"],
    "scalar": ["Scalar"],
    "s2": ["Coordinate", "LineVector", "UnitLineVector", "Midpoint", "Vector2"],
    "W": ["Width", "RectangleDim-width"],
    "H": ["Height", "RectangleDim-height"],
    "MapCoordinate": ["MapCoordinate"],
    "MapLength": ["MapLength"],
    "MapAlong": ["MapAlong"],
}
for _s in g.SIDES:
    SHAPES[f"M-{_s}"] = [n for n in meas.names("q") if n.endswith(_s)]

NMAP = 3


@st.composite
def leaf(draw, shape):
    if isinstance(shape, list):
        return ["t", *draw(trees.applied(shape=shape))]
    name = draw(st.sampled_from(SHAPES[shape]))
    if name == "Scalar":
        return ["m", "Scalar", [], [draw(gen.nonzero)]]
    if name == "Vector2":
        return ["m", "Vector2", [], [[draw(gen.coord), draw(gen.coord)]]]
    if name == "MapCoordinate":
        return ["m", name, [draw(gen.point) for _ in range(NMAP)], []]
    if name == "MapLength":
        return ["m", name, [draw(gen.line(scale=False)) for _ in range(NMAP)], []]
    if name == "MapAlong":
        return ["m", name, [draw(gen.point) for _ in range(NMAP)] + [draw(gen.line(scale=False))], [draw(st.booleans()) for _ in range(NMAP)]]
    m = meas.MEAS[name]
    kinds = dict(meas.KINDS, L=gen.line(scale=False))
    return ["m", name, [draw(kinds[k]) for k in m.kinds], [draw(s) for s in m.params]]


@st.composite
def expr(draw, shape=None, depth=3):
    if shape is None:
        shape = draw(st.sampled_from(sorted(SHAPES) + 5 * ["tree"]))
        if shape == "tree":
            # any tree shape: sums take different user-defined trees of this shape
            shape = trees.shape_of(draw(trees.spec(depth=draw(st.sampled_from([2, 3, 3, 4])))))
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        return draw(leaf(shape))
    op = draw(st.sampled_from(["+", "+", "+", "neg", "pos", "mulc", "mulc", "mulS", "mulS", "divc", "divS", "pow", "powS"]))
    a = draw(expr(shape, depth - 1))
    form = draw(st.integers(0, 2))
    if op == "+":
        return ["+", a, draw(expr(shape, depth - 1)), form]
    if op in ("neg", "pos"):
        return [op, a]
    if op in ("pow", "powS"):
        p = draw(st.sampled_from(([2, 3, 1, 2.0, 0] if op == "pow" else [2, 3, 1, 2.0]) + [0.5, 1.5, -1, -2.0]))
        if p in (0.5, 1.5) and draw(st.booleans()):
            a = ["pow", a, 2, 0]  # roots need values that are not negative
        return [op, a, p, form] + number(draw, op, p)
    c = draw(st.one_of(gen.nonzero, st.sampled_from([-1, 2, 1, -1.0, 0.5, 3, 10])))
    return [op, a, c, form] + number(draw, op, c)


# what a number may be: constants that are Python numbers by type, parameters of any numeric type
CONST = {"f64": np.float64}
PARAM = {"f64": np.float64, "i64": np.int64, "ij": jnp.int64, "0d": np.array, "jax": jnp.array}


def number(draw, op, c):
    names = [n for n in (PARAM if op[-1] == "S" else CONST) if n[0] != "i" or c == int(c) and op != "powS"]
    return draw(st.sampled_from([[]] * 3 + [[n] for n in names]))


def typed(e):
    c = e[2]
    if len(e) < 5:
        return c
    t = e[4]
    return PARAM[t](int(c) if t[0] == "i" else float(c))


def is_scalar(e):
    """Whether the built object is itself a `Scalar` (scalar times constant and the like stay scalars)"""
    return e[0] not in "+t" and (e[1] == "Scalar" if e[0] == "m" else is_scalar(e[1]))


def build_leaf(name):
    if name == "Scalar":
        return con.Scalar()
    if name == "Vector2":
        return con.Vector(Node(2, {}))
    if name == "MapCoordinate":
        return con.transform_map(con.Coordinate(), NMAP * [mk.TYPE["P"]])
    if name == "MapLength":
        return con.transform_map(con.Length(), NMAP * [mk.TYPE["L"]])
    if name == "MapAlong":
        return con.transform_map(con.PointOnLineDistance(), NMAP * [mk.TYPE["P"]] + [mk.TYPE["L"]])
    return meas.MEAS[name].make()


def build(e):
    op = e[0]
    if op == "t":
        return trees.make(e[1])
    if op == "m":
        return build_leaf(e[1])
    a = build(e[1])
    if op == "+":
        b = build(e[2])
        return con.transform_sum(a, b) if e[3] == 0 else a + b
    if op == "neg":
        return -a
    if op == "pos":
        return +a
    c, form = typed(e), e[3]
    if op == "mulc":
        return [lambda: con.transform_scalar_mul(a, c), lambda: a * c, lambda: c * a][form]()
    if op == "mulS":
        if form and is_scalar(e[1]):
            form = 0  # a product of two scalars has no operand order of its own
        return [lambda: con.transform_scalar_mul(a, con.Scalar()), lambda: a * con.Scalar(), lambda: con.Scalar() * a][form]()
    if op == "divc":
        return con.transform_scalar_div(a, c) if form == 0 else a / c
    if op == "divS":
        return con.transform_scalar_div(a, con.Scalar()) if form == 0 else a / con.Scalar()
    if op == "pow":
        return con.transform_scalar_pow(a, c) if form == 0 else a ** c
    if op == "powS":
        return con.transform_scalar_pow(a, con.Scalar()) if form == 0 else a ** con.Scalar()
    raise ValueError(op)


def leaf_value(name, prims, params):
    if name == "Scalar":
        return [[params[0]]]
    if name == "Vector2":
        return [list(params[0])]
    if name == "MapCoordinate":
        return [[]] + [list(p) for p in prims]
    if name == "MapLength":
        return [[]] + [[g.length(p)] for p in prims]
    if name == "MapAlong":
        return [[]] + [[g.along(p, prims[-1], r)] for p, r in zip(prims, params)]
    m = meas.MEAS[name]
    v = [float(x) for x in m.value(prims, params)]
    if name in SHAPES["W"] + SHAPES["H"] or m.kinds == "QQ":
        return [[], v]
    return [v]


LEAF_KINDS = {"Scalar": "", "Vector2": "", "MapCoordinate": "P" * NMAP, "MapLength": "L" * NMAP, "MapAlong": "P" * NMAP + "L"}


def kinds(e):
    if e[0] == "t":
        return e[1]["kinds"]
    if e[0] == "m":
        return LEAF_KINDS[e[1]] if e[1] in LEAF_KINDS else meas.MEAS[e[1]].kinds
    return kinds(e[1]) + (kinds(e[2]) if e[0] == "+" else "")


def evaluate(e):
    """(raw primitives, parameters, node values, magnitude); None if the value is ill-conditioned"""
    op = e[0]
    if op == "t":
        return list(e[2]), list(e[3]), trees.evaluate(*e[1:]), 10 * g.pts_scale(*e[2], [e[3]])
    if op == "m":
        vals = [np.array(v, dtype=float) for v in leaf_value(*e[1:])]
        return list(e[2]), list(e[3]), vals, g.pts_scale(*e[2], *[[p] for p in e[3] if not isinstance(p, list)]) ** 2
    r = evaluate(e[1])
    if r is None:
        return None
    prims, params, vals, mag = r
    if op == "+":
        r2 = evaluate(e[2])
        if r2 is None:
            return None
        return prims + r2[0], params + r2[1], [a + b for a, b in zip(vals, r2[2])], mag + r2[3]
    if op == "neg":
        return prims, params, [-a for a in vals], mag
    if op == "pos":
        return r
    c = e[2]
    if op in ("mulS", "divS", "powS"):
        params = params + [typed(e)]
    if op in ("mulc", "mulS"):
        return prims, params, [a * c for a in vals], mag * max(1, abs(c))
    if op in ("divc", "divS"):
        return prims, params, [a / c for a in vals], mag * max(1, 1 / abs(c))
    top = max([1.0] + [float(np.max(np.abs(a))) for a in vals if a.size])
    if top > 200 or mag > 1e7:
        return None
    if c <= 0 and any(np.any(np.abs(a) < (1e-6 if c == 0 else 0.05)) for a in vals):
        return None
    if c != int(c) and any(np.any(a < 0.05) for a in vals):
        return None
    return prims, params, [a ** float(c) for a in vals], mag * max(1.0, abs(c)) * top ** max(0, c - 1) + top ** c


def prims_of(e, raws):
    return mk.build(kinds(e), raws)


def size(e):
    return 1 if e[0] == "t" else 1 + sum(size(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str))


def big(d):
    """An expression of d["n"] operands, summed from the left, from the right or in the middle, with other operations in between"""
    rng = random.Random(d["seed"])
    num = lambda lo, hi: rng.randint(4 * lo, 4 * hi) / 4
    pt = lambda: [num(-9, 9), num(-9, 9)]
    shape = rng.choice(["s1", "s2", "MapCoordinate"])

    def leaf():
        name = rng.choice(dict(s1=["XDistance", "YDistance", "Length", "XLength", "Scalar", "DirectedDistance"], s2=["Coordinate", "LineVector", "Midpoint", "Vector2"]).get(shape, [shape]))
        if name == "MapCoordinate":
            return ["m", name, [pt() for _ in range(NMAP)], []]
        if name == "Scalar":
            return ["m", name, [], [num(-4, 4)]]
        if name == "Vector2":
            return ["m", name, [], [pt()]]
        if name not in meas.MEAS:
            name = "Length"
        m = meas.MEAS[name]
        if m.params:
            return leaf()
        return ["m", name, [dict(P=pt, L=lambda: [pt(), pt()])[k]() for k in m.kinds], []]

    def join(n):
        if n == 1:
            e = leaf()
        else:
            k = rng.choice([1, n - 1, n // 2])
            e = ["+", join(k), join(n - k), rng.randrange(2)]
        if rng.random() < 0.3:
            op = rng.choice(["neg", "mulc", "mulS", "divc", "divS"])
            e = [op, e] if op == "neg" else [op, e, rng.choice([-1, 0.5, 2, 1.25]), rng.randrange(3 if op[0] == "m" else 2)]
        return e
    return join(d["n"])

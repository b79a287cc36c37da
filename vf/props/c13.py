"""C13: turning any construction into a constraint subtracts the target value"""

import random

import numpy as np
from hypothesis import strategies as st

from vf import expr, gen, geom as g, large, meas, mk, trees
from vf.core import close, label, require, single, sub, vec

import jax.numpy as jnp
from mpllayout import constructions as con
from mpllayout.containers import Node

SCALARS = {
    "float": float, "int": lambda v: int(round(v)), "np.float64": np.float64, "np.float32": lambda v: np.float32(round(v * 4) / 4),
    "np.int64": lambda v: np.int64(round(v)), "0-d": lambda v: np.array(float(v)), "jax": lambda v: jnp.asarray(float(v)),
    "np.int32": lambda v: np.int32(round(v)), "bool": lambda v: bool(v > 0),
}
WIDE = list(SCALARS)[:-1]


@st.composite
def target(draw):
    kind = draw(st.sampled_from(["own", "own", "one off", "scalar", "scalar", "any"]))
    t = dict(kind=kind)
    if kind == "one off":
        t.update(at=draw(st.integers(0, 40)), by=draw(gen.bigoff))
    if kind == "scalar":
        t.update(type=draw(st.sampled_from(WIDE)), v=draw(gen.coord))
    if kind == "any":
        t.update(seed=draw(st.integers(0, 999)))
    t["lib"] = draw(st.sampled_from(["numpy", "numpy", "jax"]))
    return t


def make_target(t, value):
    """(argument, array to subtract)"""
    if t["kind"] == "scalar":
        a = SCALARS[t["type"]](t["v"])
        return a, np.full(value.size, float(a))
    want = value.copy()
    if t["kind"] == "one off" and want.size:
        want[t["at"] % want.size] += t["by"]
    if t["kind"] == "any":
        want = np.random.RandomState(t["seed"]).randint(-40, 41, value.size) / 8
    return (jnp.asarray(want) if t["lib"] == "jax" else want.copy()), want


def judge(c, prims, params, value, t, mag, what):
    arg, sub_ = make_target(t, value)
    got = con.transform_constraint(c)(prims, *params, arg)
    # (a plain number minus a float32 is a float32, for NumPy as for JAX)
    single = t["kind"] == "scalar" and t["type"] == "np.float32"
    close(got, value - sub_, f"{what} made a constraint, target {t}", rtol=1e-8, atol=1e-6 * max(1, mag) if single else 1e-10 * mag)
    label(t["kind"] + (" " + t["type"] if t["kind"] == "scalar" else ""))


@st.composite
def meas_case(draw):
    return [draw(meas.application(sorted(n for n in meas.MEAS if n != "Angle"))), draw(target())]


@sub("C13", "measurement", meas_case(), quick=3000, shards=8, weight=3, rule="every measurement, target own value / one element off / scalar of several types / arbitrary")
def measurement(case):
    app, t = case
    m = meas.MEAS[app["m"]]
    value = np.array(m.value(app["prims"], app["params"]), dtype=float)
    s = meas.scale_of(app)
    short = min([1.0] + [g.length(p) for p in app["prims"] if len(p) == 2 and isinstance(p[0], list)])
    judge(m.make(), mk.build(m.kinds, app["prims"]), mk.params(app["params"]), value, t, max(1.0, 0.01 * s * s / short ** 2), app["m"])
    return True


@sub("C13", "expression", st.tuples(expr.expr(depth=2), target()), quick=2100, shards=8, weight=5,
     rule="combined and mapped constructions; non-trivial with at least one operator")
def expression(case):
    e, t = case
    r = expr.evaluate(e)
    if r is None:
        return False
    raws, params, vals, mag = r
    judge(expr.build(e), expr.prims_of(e, raws), mk.params(params), np.concatenate(vals), t, mag, str(e))
    return e[0] not in "mt"


@sub("C13", "tree", st.tuples(trees.applied(), target()), quick=2700, shards=8, weight=6,
     rule="user-defined construction trees (own values and several children, up to 3 levels); non-trivial with a child and a non-empty value")
def tree(case):
    (s, raws, params), t = case
    vals = trees.evaluate(s, raws, params)
    value = np.concatenate(vals)
    judge(trees.make(s), mk.build(s["kinds"], raws), tuple(params), value, t, 10 * g.pts_scale(*raws, [params]) , f"tree {s}")
    label(f"nodes {min(len(vals), 12)}")
    return len(vals) > 1 and value.size > 0


@st.composite
def size_tree(draw, depth=3):
    n = draw(st.sampled_from([0, 1, 2, 3, 11 if depth == 3 else 1])) if depth else 0
    keys = draw(gen.names(n, n)) if n < 11 else [f"k{i}" for i in range(11)]
    return [draw(st.sampled_from([0, 0, 1, 2, 3])), [[k.replace("/", "_"), draw(size_tree(depth - 1 if n < 11 else 0))] for k in keys]]


def to_node(t):
    return Node(t[0], {k: to_node(c) for k, c in t[1]})


def total(t):
    return t[0] + sum(total(c) for _, c in t[1])


@sub("C13", "vector", st.tuples(size_tree(), st.integers(0, 999), st.sampled_from(["vector", "vector", "scalar"]), st.sampled_from(WIDE)),
     quick=2100, shards=8, weight=4, rule="Vector over a random tree of sizes, given a full vector or a scalar; non-trivial if the total size is not zero")
def vector(case):
    t, seed, how, kind = case
    n = total(t)
    v = con.Vector(to_node(t))
    if how == "vector":
        x = np.random.RandomState(seed).randint(-40, 41, n) / 8
        close(v((), x), x, f"Vector over sizes {t} of {x.tolist()}")
    else:
        a = SCALARS[kind](seed / 8 - 20)
        close(v((), a), np.full(n, float(a)), f"Vector over sizes {t} of the scalar {a!r} ({kind})")
    label(how, f"children {len(t[1])}")
    return n > 0


@sub("C13", "large", st.tuples(large.sizes(30, 130), target()), quick=160, shards=8, weight=60, stride=5, want=lambda c: large.fresh(c[0]),
     rule="the same for trees of 30 to 130 primitives, expressions of that many operands and vectors of that many parts")
def big(case):
    d, t = case
    if d["seed"] % 3 == 0:
        return tree([trees.big(d), t]) or True
    if d["seed"] % 3 == 1:
        e = expr.big(dict(d, n=d["n"] // 2))
        return expression([e, t])
    return vector([large.tree(d["n"], ["wide", "deep", "bushy"][d["n"] % 3], random.Random(d["seed"]), sizes=4), d["seed"] % 1000, "vector", "float"])


# in single precision
single("C13", "measurement", meas_case(), lambda c: meas.scale_of(c[0]) < 100 and measurement(c), quick=1200, shards=8, weight=4, rule="coordinates up to a hundred")
single("C13", "tree", st.tuples(trees.applied(), target()), lambda c: g.pts_scale(*c[0][1], [c[0][2]]) < 100 and tree(c), quick=1200, shards=8, weight=8, rule="a child and a non-empty value")
single("C13", "vector", st.tuples(size_tree(), st.integers(0, 999), st.sampled_from(["vector", "vector", "scalar"]), st.sampled_from(WIDE)), vector, quick=800, shards=8, weight=5, rule="the total size is not zero")

"""C04: solutions do not depend on declaration order, names or repeated statements"""

import random

import numpy as np
from hypothesis import strategies as st

from .. import core, gen, large, lay
from ..core import eager, interpreted, label, require, single, sub

from mpllayout import solver

P = "C04"


def solve(spec, what="solution", **kw):
    l = lay.layout(spec, names=kw.pop("names", None))
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, **kw)
    return lay.read(root, spec, what)


def same(spec, X, Y, tol, what):
    for i, (a, b) in enumerate(zip(X, Y)):
        if a is not None and not max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= tol:
            raise core.Violation(f"{what}: a point is at {b} instead of {a}")


def rename(ref, names):
    head, _, rest = ref.partition("/")
    return names[head] + ("/" + rest if rest else "")


@st.composite
def redeclared(draw, layouts=st.one_of(lay.linear(5, 9), lay.linear(5, 9), lay.curved(4, 8))):
    spec = draw(layouts)
    how = draw(st.lists(st.sampled_from(["order", "repeat", "names", "rename", "reorder"]), min_size=1, max_size=5, unique=True))
    n = len(spec["cons"])
    new = dict(spec)
    cons = list(spec["cons"])
    if "repeat" in how and n:
        cons += draw(st.lists(st.sampled_from(cons), min_size=1, max_size=4))
    if "order" in how:
        cons = draw(st.permutations(cons))
    prims = list(spec["prims"])
    if "reorder" in how:
        prims = draw(st.permutations(prims))
    if "rename" in how:
        keys = [k for k, _ in prims]
        fresh = draw(st.one_of(st.permutations(keys), gen.names(len(keys), len(keys))))
        m = dict(zip(keys, fresh))
        prims = [[m[k], s] for k, s in prims]
        cons = [dict(c, refs=[rename(r, m) for r in c["refs"]]) for c in cons]
    names = None
    if "names" in how:
        explicit = draw(gen.names(len(cons), len(cons)))
        names = [e if draw(st.booleans()) else None for e in explicit]
        # stay clear of the automatic names
        names = [None if e is None else "my " + e for e in names]
    new["prims"], new["cons"] = [list(p) for p in prims], cons
    return dict(spec=spec, new=new, names=names, how=sorted(how))


def started_off(spec):
    return lay.worst(spec, spec["S"])[0] > 1e-6


@sub(P, "redeclared", redeclared(), quick=130, thorough=3000, shards=8, weight=100, stride=4,
     want=lambda c: started_off(c["spec"]), rule="a layout whose relations are broken at the start")
def check_redeclared(c):
    spec = c["spec"]
    label(*c["how"])
    tol = 1e-6 * core.slack(1e3) * lay.size(spec["X"], spec["S"])
    X = solve(spec)
    Y = solve(c["new"], "solution of the redeclared layout", names=c["names"])
    same(spec, X, Y, tol, "declared differently (" + ", ".join(c["how"]) + ")")
    return True


@st.composite
def settled(draw, layouts=st.one_of(lay.linear(6, 12), lay.curved(4, 8))):
    spec = draw(layouts)
    spec = dict(spec, S=spec["X"], start="target")
    return dict(spec=spec, method=draw(st.sampled_from(["newton", "newton", "minimize"])))


@sub(P, "already satisfied", settled(), quick=110, thorough=2500, shards=8, weight=50, stride=4,
     want=lambda c: len(c["spec"]["cons"]) > 1, rule="two or more relations")
def check_settled(c):
    spec = c["spec"]
    label(c["method"])
    Y = solve(spec, method=c["method"])
    X = [y and x for x, y in zip(spec["X"], Y)]
    same(spec, X, Y, 1e-7 * core.slack(1e4) * lay.size(spec["X"]), f"geometry satisfying its constraints was moved by {c['method']}")
    return True


@sub(P, "solved again", st.one_of(lay.linear(5, 9), lay.curved(4, 8)), quick=60, thorough=1500, shards=8, weight=110, stride=4,
     want=started_off, rule="a layout whose relations are broken at the start")
def check_again(spec):
    X = solve(spec)
    filled = [x if x is not None else s for x, s in zip(X, spec["S"])]
    Y = solve(dict(spec, S=filled))
    same(spec, X, Y, 1e-6 * core.slack(1e3) * lay.size(spec["X"], spec["S"]), "solving a solved layout moved it")
    return True


@st.composite
def shifted(draw, layouts=st.one_of(lay.linear(5, 9), lay.curved(4, 8))):
    spec = draw(layouts)
    moved = [[x + 0.37, y + 0.91] for x, y in spec["X"]]
    cons = [c for c in spec["cons"] if np.allclose(lay.con_err(spec, c, spec["X"]), lay.con_err(spec, c, moved), atol=1e-9)]
    spec = dict(spec, cons=cons)
    return dict(spec=spec, by=[draw(gen.nums(-8, 8, 4)), draw(gen.nums(-8, 8, 4))])


@sub(P, "translated", shifted(), quick=80, thorough=2000, shards=8, weight=100, stride=4,
     want=lambda c: c["spec"]["cons"] and started_off(c["spec"]) and c["by"] != [0, 0],
     rule="only relative relations, broken at the start, moved by a non-zero vector")
def check_shifted(c):
    spec, (dx, dy) = c["spec"], c["by"]
    X = solve(spec)
    Y = solve(dict(spec, S=[[x + dx, y + dy] for x, y in spec["S"]]))
    X = [x and [x[0] + dx, x[1] + dy] for x in X]
    same(spec, X, Y, 1e-6 * core.slack(1e3) * lay.size(spec["X"], spec["S"]), f"after moving the start by {c['by']}")
    return True


interpreted(P, "redeclared", redeclared(), check_redeclared, quick=240, thorough=15000, shards=8, weight=30, stride=3,
            want=lambda c: started_off(c["spec"]), rule="a layout whose relations are broken at the start")
interpreted(P, "already satisfied", settled().map(lambda c: dict(c, method="newton")), check_settled, quick=240, thorough=15000, shards=8, weight=16, stride=3,
            want=lambda c: len(c["spec"]["cons"]) > 1, rule="two or more relations")
interpreted(P, "solved again", st.one_of(lay.linear(5, 9), lay.curved(4, 8)), check_again, quick=160, thorough=8000, shards=8, weight=30, stride=3,
            want=started_off, rule="a layout whose relations are broken at the start")
interpreted(P, "translated", shifted(), check_shifted, quick=200, thorough=10000, shards=8, weight=30, stride=3,
            want=lambda c: c["spec"]["cons"] and started_off(c["spec"]) and c["by"] != [0, 0],
            rule="only relative relations, broken at the start, moved by a non-zero vector")


def check_large(d):
    spec = lay.big(d)
    rng = random.Random(d["seed"] + 1)
    prims, cons = rng.sample(spec["prims"], len(spec["prims"])), rng.sample(spec["cons"], len(spec["cons"]))
    m = dict(zip([k for k, _ in prims], rng.sample([k for k, _ in prims], len(prims))))
    prims = [[m[k], s] for k, s in prims]
    cons = [dict(c, refs=[rename(r, m) for r in c["refs"]]) for c in cons + rng.sample(cons, 5)]
    names = [f"my {i}" if rng.random() < 0.5 else None for i in range(len(cons))]
    tol = 1e-7 * lay.size(spec["X"], spec["S"])
    same(spec, spec["X"], solve(spec), tol, "a layout with one solution")
    same(spec, spec["X"], solve(dict(spec, prims=prims, cons=cons), "solution of the redeclared layout", names=names), tol, "a layout with one solution, declared differently")
    return True


interpreted(P, "many primitives", large.sizes(30, 110), check_large, quick=16, thorough=1500, shards=8, weight=250, stride=5, want=large.fresh,
            rule="30 to 110 points, every one determined by the relations; another order, exchanged names, repeated relations")


# relations not linear in the coordinates can depend on each other at the solution only: rounding then decides how far along them a step goes
single(P, "redeclared", redeclared(lay.linear(5, 9)), eager(check_redeclared), quick=120, thorough=8000, shards=8, weight=30, stride=3,
       want=lambda c: started_off(c["spec"]), rule="a layout whose relations are broken at the start")
single(P, "already satisfied", settled(lay.linear(6, 12)).map(lambda c: dict(c, method="newton")), eager(check_settled), quick=120, thorough=8000, shards=8, weight=16, stride=3,
       want=lambda c: len(c["spec"]["cons"]) > 1, rule="two or more relations")
single(P, "solved again", lay.linear(5, 9), eager(check_again), quick=80, thorough=4000, shards=8, weight=30, stride=3,
       want=started_off, rule="a layout whose relations are broken at the start")
single(P, "translated", shifted(lay.linear(5, 9)), eager(check_shifted), quick=100, thorough=5000, shards=8, weight=30, stride=3,
       want=lambda c: c["spec"]["cons"] and started_off(c["spec"]) and c["by"] != [0, 0],
       rule="only relative relations, broken at the start, moved by a non-zero vector")

"""C14: mapping and partial application evaluate the underlying construction"""

import random

import numpy as np
from hypothesis import strategies as st

from vf import builtin, expr, gen, geom as g, large, lay, meas, mk, trees
from vf.core import close, label, raises, require, single, sub, vec

from mpllayout import constructions as con

MAPPABLE = sorted(n for n in meas.MEAS if n != "Angle")


def value_of(m, raws, params):
    return np.array(m.value(raws, params), dtype=float)


@st.composite
def map_case(draw):
    name = draw(st.sampled_from(MAPPABLE))
    m = meas.MEAS[name]
    n = draw(st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(9, 13), st.sampled_from([27, 40, 70, 105])))
    first = [draw(meas.KINDS[m.kinds[0]]) for _ in range(n)]
    rest = [draw(meas.KINDS[k]) for k in m.kinds[1:]]
    params = [draw(s) for _ in range(n) for s in m.params]
    frozen = draw(st.integers(0, len(m.params)))
    return dict(m=name, first=first, rest=rest, params=params, frozen=frozen, as_list=draw(st.booleans()),
                late=draw(st.lists(st.integers(0, 3), max_size=3)))


@sub("C14", "map", map_case(), quick=2250, shards=8, weight=10,
     rule="every measurement mapped over 0..13 primitives (with trailing ones fixed), optionally freezing trailing parameters before and after; non-trivial from 2 on")
def mapped(case):
    m = meas.MEAS[case["m"]]
    n, first, rest = len(case["first"]), case["first"], case["rest"]
    k = len(m.params)
    slices = [case["params"][i * k:(i + 1) * k] for i in range(n)]
    c = m.make()
    f = case["frozen"]
    if f and n:
        fixed = slices[0][k - f:]
        slices = [s[:k - f] + fixed for s in slices]
        c = con.transform_partial(c, *mk.params(fixed))
        call = [p for s in slices for p in s[:k - f]]
    else:
        call = [p for s in slices for p in s]
    types = [mk.TYPE[m.kinds[0]]] * n + [mk.TYPE[x] for x in m.kinds[1:]]
    mc = con.transform_map(c, types if case["as_list"] else tuple(types))
    for late in case["late"]:  # freeze trailing parameters of the mapped construction, step by step
        late = min(late, len(call))
        mc = con.transform_partial(mc, *mk.params(call[len(call) - late:]))
        call = call[:len(call) - late]
    prims = tuple(mk.KIND[m.kinds[0]](r) for r in first) + mk.build(m.kinds[1:], rest)
    got = mc(prims, *mk.params(call))
    want = [value_of(m, [r] + rest, s) for r, s in zip(first, slices)]
    want = np.concatenate(want) if want else np.array([])
    s = g.pts_scale(*first, *rest) if first or rest else 1.0
    short = min([1.0] + [g.length(p) for p in first + rest if len(p) == 2 and isinstance(p[0], list)])
    close(got, want, f"{case['m']} mapped over {n} primitives, params {call}", rtol=1e-9, atol=1e-11 * s * s / short ** 2 + 1e-10)
    if n:
        raises(TypeError, lambda: mc(prims[:-1], *mk.params(call)), f"mapped {case['m']} without its last primitive")
    raises(TypeError, lambda: mc(prims, *mk.params(call), 1.0), f"mapped {case['m']} with an extra parameter")
    label(case["m"], f"n={n}")
    return n > 1


@st.composite
def tree_map(draw):
    s = draw(trees.spec(kinds=draw(st.sampled_from(["P", "L", "Q", "PP", "PL", "LQ", "QLP", "QQ"])), depth=2))
    n = draw(st.integers(0, 4))
    return dict(s=s, first=[draw(trees.PRIMS[s["kinds"][0]]) for _ in range(n)], rest=[draw(trees.PRIMS[k]) for k in s["kinds"][1:]],
                params=[draw(gen.coord) for _ in range(n * s["m"])])


@sub("C14", "map tree", tree_map(), quick=1250, shards=8, weight=10, rule="user-defined construction trees mapped over 0..4 primitives; non-trivial from 2 on")
def mapped_tree(case):
    s, n, m = case["s"], len(case["first"]), case["s"]["m"]
    c = con.transform_map(trees.make(s), [mk.TYPE[s["kinds"][0]]] * n + [mk.TYPE[k] for k in s["kinds"][1:]])
    prims = tuple(mk.KIND[s["kinds"][0]](r) for r in case["first"]) + mk.build(s["kinds"][1:], case["rest"])
    got = c(prims, *case["params"])
    want = [v for i in range(n) for v in trees.evaluate(s, [case["first"][i]] + case["rest"], case["params"][i * m:(i + 1) * m])]
    close(got, np.concatenate(want) if want else [], f"tree mapped over {n}: {s}", atol=1e-9)
    return n > 1


@st.composite
def partial_tree(draw):
    case = draw(trees.applied(depth=2, m=draw(st.integers(0, 5))))
    m = case[0]["m"]
    return case + [draw(st.lists(st.integers(0, max(m // 2, 1)), min_size=1, max_size=4))]


@sub("C14", "partial tree", partial_tree(), quick=1750, shards=8, weight=6,
     rule="user-defined trees with 0..all trailing parameters frozen, in one or several steps; non-trivial if a parameter was frozen")
def partial(case):
    s, raws, params, steps = case
    c = trees.make(s)
    left = list(params)
    done = 0
    for k in steps:
        k = min(k, len(left))
        c = con.transform_partial(c, *left[len(left) - k:])
        left = left[:len(left) - k]
        done += k
    prims = mk.build(s["kinds"], raws)
    require(len(c.signature.param_types) == len(left), "%d parameters frozen out of %d, but %d are still declared", done, len(params), len(c.signature.param_types))
    close(c(prims, *left), np.concatenate(trees.evaluate(s, raws, params)), f"tree {s} with {done} trailing parameters frozen in steps {steps}", atol=1e-9)
    raises(TypeError, lambda: c(prims, *left, 1.0), "frozen construction with a superfluous parameter")
    if left:
        raises(TypeError, lambda: c(prims, *left[:-1]), "frozen construction with a missing parameter")
    label(f"froze {done} of {len(params)}")
    return done > 0


@st.composite
def partial_meas(draw):
    app = draw(meas.application(sorted(n for n in meas.MEAS if n != "Angle")))
    m = meas.MEAS[app["m"]]
    app["constraint"] = draw(st.booleans())
    total = len(m.params) + app["constraint"]
    app["freeze"] = draw(st.integers(0, total))
    n = len(m.value(app["prims"], app["params"]))
    app["target"] = [draw(gen.coord) for _ in range(n)]
    return app


@sub("C14", "partial", partial_meas(), quick=2000, shards=8, weight=3,
     rule="measurements and the constraints made from them with 0..all trailing parameters frozen")
def partial_m(case):
    m = meas.MEAS[case["m"]]
    c = m.make()
    params = list(mk.params(case["params"]))
    value = value_of(m, case["prims"], case["params"])
    if case["constraint"]:
        c = con.transform_constraint(c)
        params.append(np.array(case["target"]))
        value = value - np.array(case["target"])
    k = len(params) - case["freeze"]
    pc = con.transform_partial(c, *params[k:])
    s = meas.scale_of(case)
    short = min([1.0] + [g.length(p) for p in case["prims"] if len(p) == 2 and isinstance(p[0], list)])
    prims = mk.build(m.kinds, case["prims"])
    close(pc(prims, *params[:k]), value, f"{case['m']} with {case['freeze']} frozen parameters", atol=1e-11 * s * s / short ** 2 + 1e-10)
    raises(TypeError, lambda: pc(prims, *params[:k], 1.0), f"{case['m']} frozen, with a superfluous parameter")
    label(f"froze {case['freeze']} of {len(params)}")
    return True


PARTIAL = [n for n in builtin.NAMES if not n.endswith("Thickness")]
# mostly the ones with several parameters, of different sizes
MANY = [n for n in PARTIAL if (n[2:] in lay.CONS and lay.CONS[n[2:]].value is not None and lay.CONS[n[2:]].value.params) or (n in meas.MEAS and meas.MEAS[n].params)]
PARTIAL += MANY * 3 + ["c:Grid"] * 12 + ["c:OuterMarginArray"] * 4


@st.composite
def partial_any(draw):
    case = draw(builtin.application(PARTIAL))
    n = len(case["params"])
    case["steps"] = draw(st.lists(st.integers(0, n), min_size=1, max_size=3))
    case["around"] = draw(st.sampled_from(["", "", "map", "constraint", "scalar", "sum"]))
    return case


@sub("C14", "partial built-in", partial_any(), quick=2250, shards=8, weight=8,
     rule="every built-in measurement and constraint with 0..all of its trailing parameters, of different sizes, frozen in one or several steps; non-trivial if some but not all are")
def partial_b(case):
    c = builtin.make(case)
    prims = builtin.prims(case)
    params = [v if isinstance(v, bool) else np.array(v, dtype=float) for v in case["params"]]
    if case["around"] and not case["name"].startswith("c:"):
        # below other transforms
        size = len(np.atleast_1d(np.asarray(c(prims, *params))))
        if case["around"] == "constraint":
            c = con.transform_constraint(c)
            params = params + [np.arange(1.0, size + 1)]
        elif case["around"] == "scalar":
            c = c * 2.5
        elif case["around"] == "sum":
            c = c + c
            prims, params = prims + prims, params + [p + 0.5 for p in params]
        elif prims:
            c = con.transform_map(c, [type(prims[0])] * 2 + [type(p) for p in prims[1:]])
            prims = (prims[0],) + prims
            params = params + [p + 0.25 for p in params]
    want = np.asarray(c(prims, *params))
    left, done = list(params), 0
    for k in case["steps"]:
        k = min(k, len(left))
        c = con.transform_partial(c, *left[len(left) - k:])
        left, done = left[:len(left) - k], done + k
    got = np.asarray(c(prims, *left))
    require(np.array_equal(got, want, equal_nan=True) or np.allclose(got, want, rtol=1e-9, atol=1e-9 * builtin.scale(case), equal_nan=True),
            "%s with %d of its parameters %s frozen gives %s instead of %s", case["name"], done, params, got, want)
    raises(TypeError, lambda: c(prims, *left, 1.0), f"{case['name']} frozen, with a superfluous parameter")
    label(f"froze {done} of {len(params)}")
    return 0 < done < len(params)


@sub("C14", "large", large.sizes(20, 130), quick=160, shards=8, weight=60, stride=5, want=large.fresh,
     rule="user trees of 20 to 130 primitives and up to 105 parameters, frozen in steps, and mapped over up to 30 primitives; sums and products of many, mapped and frozen")
def big(d):
    rng = random.Random(d["seed"])
    s, raws, params = trees.big(d)
    partial([s, raws, params, [rng.randint(0, max(len(params) // 2, 1)) for _ in range(rng.randint(1, 6))]])
    s, raws, params = trees.big(dict(d, n=rng.randint(1, 4)))
    first = dict(P=lambda: [float(rng.randint(-9, 9)) for _ in "xy"], L=lambda: [[float(rng.randint(-9, 9)) for _ in "xy"] for _ in "ab"],
                 Q=lambda: [[float(rng.randint(-9, 9)) for _ in "xy"] for _ in "abcd"])[s["kinds"][0]]
    n = rng.randint(5, 30)
    return mapped_tree(dict(s=s, first=[first() for _ in range(n)], rest=raws[1:], params=[rng.randint(-9, 9) / 4 for _ in range(n * s["m"])]))


# in single precision


def tame(prims):
    return not prims or g.pts_scale(*prims) < 100 * min([1.0] + [g.length(p) for p in prims if len(p) == 2 and isinstance(p[0], list)])


single("C14", "map", map_case(), lambda c: tame(c["first"] + c["rest"]) and mapped(c), quick=500, shards=8, weight=14, rule="two primitives or more, coordinates up to a hundred times the lengths")
single("C14", "partial tree", partial_tree(), lambda c: tame(c[1]) and partial(c), quick=600, shards=8, weight=10, rule="a parameter was frozen, coordinates up to a hundred times the lengths")

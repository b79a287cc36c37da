"""C18: flattening, rebuilding, copying, mapping and accumulating preserve trees"""

import random

import numpy as np
from hypothesis import strategies as st

from vf import gen, large, mk
from vf.core import label, require, sub

import jax
from mpllayout import constraints as cr, constructions as con, containers as cn, primitives as pr
from mpllayout.containers import Node

CLASSES = {"Node": Node, "ParamsNode": con.ParamsNode, "PrimKeysNode": con.PrimKeysNode}

key = st.one_of(gen.name.map(lambda s: s.replace("/", "_")), st.integers(0, 12).map(lambda i: f"Line{i}"), st.sampled_from("zyxabcZA"))


@st.composite
def tree(draw, depth=3, classes=("Node",)):
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 12 if depth > 1 else 2])) if depth else 0
    keys = draw(st.lists(key, min_size=n, max_size=n, unique=True))
    if n == 12:
        depth = 1
    return [draw(st.sampled_from(classes)), draw(st.integers(-9, 9)), [[k, draw(tree(depth - 1, classes))] for k in keys]]


anytree = tree(classes=("Node", "Node", "ParamsNode", "PrimKeysNode"))


def make(t):
    return CLASSES[t[0]](t[1], {k: make(c) for k, c in t[2]})


def flat_model(t, prefix):
    out = [(prefix, CLASSES[t[0]], t[1], [k for k, _ in t[2]])]
    for k, c in t[2]:
        out += flat_model(c, f"{prefix}/{k}")
    return out


def check_same(node, t, at, value=lambda v: v, types=True):
    if types:
        require(type(node) is CLASSES[t[0]], "%s is a %s instead of %s", at, type(node).__name__, t[0])
    require(node.value == value(t[1]), "%s has value %r instead of %r", at, node.value, value(t[1]))
    require(list(node.keys()) == [k for k, _ in t[2]], "%s has keys %r instead of %r", at, node.keys(), [k for k, _ in t[2]])
    for k, c in t[2]:
        check_same(node.children[k], c, f"{at}/{k}", value, types)


def values(t):
    return [t[1]] + [v for _, c in t[2] for v in values(c)]


def count(t):
    return 1 + sum(count(c) for _, c in t[2])


@sub("C18", "flatten", st.tuples(anytree, st.sampled_from(["", "root", "a/b", "x", "p/", "/"]), st.lists(anytree, max_size=2)),
     quick=3000, shards=8, weight=3, rule="trees of node classes (keys not in sorted order, more than ten children), flattened and rebuilt, several trees in one list; non-trivial with at least 3 nodes")
def flatten(case):
    t, prefix, more = case
    node = make(t)
    structs = cn.flatten(prefix, node)
    want = flat_model(t, prefix)
    require(len(structs) == len(want), "flatten lists %d nodes instead of %d", len(structs), len(want))
    for s, w in zip(structs, want):
        require(tuple(s[:3]) == w[:3] and list(s[3]) == w[3], "flatten lists %r instead of %r", s, w)
    pairs = list(cn.iter_flat(prefix, node))
    require([k for k, _ in pairs] == [w[0] for w in want], "iter_flat lists %r instead of %r", [k for k, _ in pairs], [w[0] for w in want])
    for (k, n), w in zip(pairs, want):
        rel = k[len(prefix) + 1:]
        require(n is (node[rel] if rel or k != prefix else node) if rel or k == prefix else True, "iter_flat yields another node at %r", k)
    rest = [s for m in more for s in cn.flatten("more", make(m))]
    before = list(rest)
    both = list(structs) + rest
    new, left = cn.unflatten(both)
    check_same(new, t, "rebuilt")
    require(both == list(structs) + before, "unflatten changed the list it was given")
    require(list(left) == before, "leftover nodes are %r instead of %r", left, before)
    for m in more:
        was, old = list(left), left
        new, left = cn.unflatten(left)
        check_same(new, m, "rebuilt leftover")
        require(list(old) == was, "unflatten changed the list it was given")
    require(len(left) == 0, "nodes left at the end: %r", left)
    check_same(node, t, "original after flattening")
    return count(t) > 2


@sub("C18", "pytree", tree(), quick=2000, shards=8, weight=4, rule="Node trees through jax.tree_util flatten/unflatten/map and out of nested containers; non-trivial with at least 3 nodes")
def pytree(case):
    node = make(case)
    leaves, struct = jax.tree_util.tree_flatten(node)
    require(sorted(leaves) == sorted(values(case)), "leaves are %r, values %r", leaves, values(case))
    check_same(jax.tree_util.tree_unflatten(struct, leaves), case, "pytree")
    check_same(jax.tree_util.tree_map(lambda v: 3 * v + 1, node), case, "tree_map", lambda v: 3 * v + 1)
    check_same(jax.tree_util.tree_map(lambda v, w: v - 2 * w, {"x": [node]}, {"x": [node]})["x"][0], case, "tree_map of two trees", lambda v: -v)
    check_same(node, case, "original")
    return count(case) > 2


@sub("C18", "map", st.tuples(anytree, st.integers(-3, 3)), quick=2000, shards=8, weight=3, rule="map, copy and accumulate on trees; copies then changed independently; non-trivial with at least 3 nodes")
def mapped(case):
    t, c = case
    node = make(t)
    calls = []

    def f(v):
        calls.append(v)
        return (v, c)
    new = cn.map(f, node)
    check_same(new, t, "mapped", lambda v: (v, c), types=False)
    require(sorted(calls) == sorted(values(t)), "map called its function on %r, values are %r", calls, values(t))
    check_same(node, t, "original after map")

    # the fold of an associative function from its identity element
    def fold(n, t, at, op, one):
        want = one
        for v in values(t):
            want = op(want, v)
        require(n.value == want, "accumulated value of %s is %r instead of %r", at, n.value, want)
        require(list(n.keys()) == [k for k, _ in t[2]], "accumulate changed keys of %s", at)
        for k, s in t[2]:
            fold(n[k], s, f"{at}/{k}", op, one)
    fold(cn.accumulate(lambda a, b: a + b, node, 0), t, "sum", lambda a, b: a + b, 0)
    fold(cn.accumulate(max, node, -10 ** 6), t, "max", max, -10 ** 6)

    def strings(t):
        return [t[0], f"<{t[1]}>", [[k, strings(s)] for k, s in t[2]]]
    fold(cn.accumulate(lambda a, b: a + b, make(strings(t)), ""), strings(t), "joined", lambda a, b: a + b, "")
    check_same(node, t, "original after accumulate")

    cp = node.copy()
    check_same(cp, t, "copy")
    for k, n in list(cn.iter_flat("", cp)):
        n.add_child("new in copy", Node(7, {}))
    check_same(node, t, "original after changing its copy")
    cp = node.copy()
    for k, n in list(cn.iter_flat("", node)):
        n.add_child("new in original", Node(7, {}))
    if t[2]:
        node[t[2][0][0]] = Node(1, {})
    check_same(cp, t, "copy after changing the original")
    return count(t) > 2


@sub("C18", "large", large.sizes(20, 200, shape=large.SHAPES), quick=400, shards=8, weight=12, stride=5, want=large.fresh,
     rule="all of these checks on trees of 20 to 200 nodes: up to two hundred children, or paths of up to two hundred parts")
def big(d):
    rng = random.Random(d["seed"])
    plain = rng.random() < 0.3

    def typed(t):
        return ["Node" if plain else rng.choice(["Node", "Node", "ParamsNode", "PrimKeysNode"]), t[0], [[k, typed(c)] for k, c in t[1]]]
    t = typed(large.tree(d["n"], d["shape"], rng))
    flatten([t, rng.choice(["", "root", "a/b"]), [typed(large.tree(rng.randint(1, 30), "bushy", rng)) for _ in range(rng.randrange(3))]])
    mapped([t, rng.randint(-3, 3)])
    if plain:
        pytree(t)
    return True


# primitive trees

prim = st.one_of(
    st.tuples(st.just("P"), gen.point), st.tuples(st.just("L"), gen.line()), st.tuples(st.just("Q"), gen.quad()),
    st.tuples(st.just("G"), gen.polygon()),
    st.tuples(st.just("A"), st.fixed_dictionaries(dict(xaxis=st.booleans(), yaxis=st.booleans(), twinx=st.booleans(), twiny=st.booleans(), seed=st.integers(0, 99)))),
)


@st.composite
def group(draw, depth=2):
    n = draw(st.integers(0, 5 if depth == 2 else 2))
    keys = draw(st.lists(key, min_size=n, max_size=n, unique=True))
    return ["N", [[k, list(draw(st.one_of(prim, prim, group(depth - 1)) if depth else prim))] for k in keys]]


def make_prim(d):
    kind, x = d
    if kind == "N":
        return pr.PrimitiveNode(np.array([]), {k: make_prim(c) for k, c in x})
    if kind == "G":
        return mk.polygon(x)
    if kind == "A":
        p = pr.Axes(**{k: v for k, v in x.items() if k != "seed"})
        rng = np.random.RandomState(x["seed"])
        return cn.unflatten([(k, t, v if v.size == 0 else rng.randint(-40, 40, v.size) / 8, c) for k, t, v, c in cn.flatten("", p)])[0]
    return mk.KIND[kind](x)


def describe(p):
    return (type(p).__name__, [float(v) for v in np.asarray(p.value).reshape(-1)], [(k, describe(c)) for k, c in p.items()])


def shift(d, a, b):
    return (d[0], [a * v + b for v in d[1]], [(k, shift(c, a, b)) for k, c in d[2]])


@sub("C18", "primitives", group(), quick=1200, shards=8, weight=8, rule="primitive trees of every class through flatten/unflatten and jax.tree_util; non-trivial with at least two primitives")
def primitives(case):
    p = make_prim(case)
    d = describe(p)
    new, left = cn.unflatten(cn.flatten("", p))
    require(describe(new) == d and not left, "rebuilt primitive tree is %s instead of %s", describe(new), d)
    leaves, struct = jax.tree_util.tree_flatten(p)
    q = jax.tree_util.tree_unflatten(struct, leaves)
    require(describe(q) == d, "pytree rebuilt %s as %s", d, describe(q))
    q = jax.tree_util.tree_map(lambda v: 2 * v + 1, p)
    require(describe(q) == shift(d, 2, 1), "tree_map made %s out of %s", describe(q), d)
    require(describe(p) == d, "primitive tree changed to %s", describe(p))
    cp = p.copy()
    require(describe(cp) == d, "the copy is %s instead of %s", describe(cp), d)
    require(pr.filter_unique_values_from_prim(cp)[0] == pr.filter_unique_values_from_prim(p)[0], "the copy shares its parts differently")
    label(*(c[0] for _, c in case[1]))
    return len(case[1]) > 1


@sub("C18", "through jit", group(depth=1), quick=96, shards=8, weight=30, rule="primitive trees passed through a compiled function; non-trivial with at least two primitives")
def through_jit(case):
    p = make_prim(case)
    d = describe(p)
    q = jax.jit(lambda t: jax.tree_util.tree_map(lambda v: v * 4 - 3, t))(p)
    require(describe(q) == shift(d, 4, -3), "compiled function returned %s for %s", describe(q), d)
    r = jax.jit(lambda t: t)(p)
    require(describe(r) == d, "compiled identity returned %s for %s", describe(r), d)
    return len(case[1]) > 1


CONSTRAINTS = dict(
    Fix=cr.Fix, Box=cr.Box, Grid=lambda: cr.Grid((2, 3)), RectilinearGrid=lambda: cr.RectilinearGrid((3, 2)), Parallel=cr.Parallel,
    PositionXAxis=cr.PositionXAxis, AlignRow=cr.AlignRow, Midpoint=con.Midpoint, OuterMargin=lambda: cr.OuterMargin(side="left"),
    Sum=lambda: con.Length() + con.Length(), Scaled=lambda: 2.0 * con.Midpoint(), MarginArray=lambda: cr.OuterMarginArray((4,), "right"))


@sub("C18", "constructions", st.tuples(st.sampled_from(sorted(CONSTRAINTS)), st.sampled_from(["", "c"])), quick=96, shards=4, weight=5,
     rule="construction trees flattened and rebuilt (types, values, keys)")
def constructions(case):
    name, prefix = case
    c = CONSTRAINTS[name]()
    new, left = cn.unflatten(cn.flatten(prefix, c))

    def same(a, b, at):
        require(type(a) is type(b) and a.value is b.value and a.keys() == b.keys(), "rebuilt %s differs at %s", name, at)
        for k in a.keys():
            same(a[k], b[k], f"{at}/{k}")
    same(c, new, "root")
    require(not left, "leftover %r", left)
    return True

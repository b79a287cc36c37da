"""C20: unknowns are exactly the distinct primitives"""

import random

import numpy as np
from hypothesis import strategies as st

from vf import gen, large, mk
from vf.core import label, require, sub

from mpllayout import containers as cn, primitives as pr

idx = st.integers(0, 60)
pkey = st.one_of(gen.name.map(lambda s: s.replace("/", "_")), st.integers(0, 12).map(lambda i: f"Line{i}"))
source = st.one_of(
    st.tuples(st.just("list"), gen.point), st.tuples(st.just("list"), gen.point),
    st.tuples(st.just("array"), st.integers(0, 2)), st.tuples(st.just("array"), st.integers(0, 2)),
    st.just(["default"]), st.tuples(st.just("view"), st.integers(0, 2)), st.tuples(st.just("value of"), idx), st.tuples(st.just("equal to"), idx))
empty = st.sampled_from(["none", "list", "e0", "e1"])

step = st.one_of(
    st.tuples(st.just("P"), source), st.tuples(st.just("P"), source),
    st.tuples(st.just("L"), idx, idx, empty), st.tuples(st.just("L*")),
    st.tuples(st.just("G"), st.lists(idx, min_size=1, max_size=12), empty),
    st.tuples(st.just("Q"), st.tuples(idx, idx, idx, idx), empty), st.tuples(st.just("Q*")),
    st.tuples(st.just("A"), st.tuples(*[st.booleans()] * 4), st.lists(idx, min_size=9, max_size=9), empty),
    st.tuples(st.just("A*"), st.tuples(*[st.booleans()] * 4)),
    st.tuples(st.just("N"), st.lists(st.tuples(pkey, idx), max_size=4, unique_by=lambda t: t[0]), empty),
)


@st.composite
def history(draw):
    steps = [["P", list(draw(source))]] + [list(s) for s in draw(st.lists(step, min_size=4, max_size=14))]
    root = draw(st.lists(st.tuples(pkey, idx), min_size=2, max_size=6, unique_by=lambda t: t[0]))
    return dict(pool=[draw(gen.point) for _ in range(3)], steps=steps, root=[list(r) for r in root], seed=draw(st.integers(0, 999)))


class M:
    """Model of a primitive: identity, type, value, children"""
    n = 0

    def __init__(self, cls, value, kids=()):
        self.cls, self.value, self.kids = cls, value, list(kids)
        M.n += 1
        self.uid = M.n

    def flat(self, prefix=""):
        out = [(prefix, self)]
        for k, c in self.kids:
            out += c.flat(f"{prefix}/{k}")
        return out


def model_polygon(cls, pts):
    n = len(pts)
    return M(cls, [], [(f"Line{i}", M(pr.Line, [], [("Point0", pts[i]), ("Point1", pts[(i + 1) % n])])) for i in range(n)])


def from_real(prim):
    """Model of a default-built primitive: parts with their own identity, vertices of a polygon shared"""
    if isinstance(prim, pr.Polygon):
        pts = [M(pr.Point, np.asarray(l["Point0"].value, dtype=float).tolist()) for l in prim.values()]
        return model_polygon(type(prim), pts)
    return M(type(prim), np.asarray(prim.value, dtype=float).tolist(), [(k, from_real(c)) for k, c in prim.items()])


def construct(case):
    """(real root, model root)"""
    pool = [np.array(p) for p in case["pool"]]
    e = {"none": None, "list": [], "e0": np.array([]), "e1": np.zeros((0,))}
    made = {"P": [], "Q": [], "all": []}

    def add(kind, real, model):
        if kind in made:
            made[kind].append((real, model))
        made["all"].append((real, model))

    def pick(kind, i):
        return made[kind][i % len(made[kind])]

    def quads(i):
        if not made["Q"]:
            q = pr.Quadrilateral()
            add("Q", q, from_real(q))
        return pick("Q", i)
    for s in case["steps"]:
        k = s[0]
        if k == "P":
            src = s[1]
            if src[0] == "list":
                v = list(src[1])
            elif src[0] == "array":
                v = pool[src[1]]
            elif src[0] == "view":
                v = pool[src[1]][:]
            elif src[0] in ("value of", "equal to"):
                v = pick("P", src[1])[0].value if made["P"] else [0.0, 0.5]
                if src[0] == "equal to":
                    v = np.array(v)
            else:
                v = None
            p = pr.Point(v)
            add("P", p, M(pr.Point, [0.0, 0.0] if v is None else [float(c) for c in v]))
        elif k == "L":
            (p, mp), (q, mq) = pick("P", s[1]), pick("P", s[2])
            add("L", pr.Line(e[s[3]], (p, q)), M(pr.Line, [], [("Point0", mp), ("Point1", mq)]))
        elif k == "L*":
            l = pr.Line()
            add("L", l, from_real(l))
        elif k in "GQ":
            ps = [pick("P", i) for i in s[1]]
            cls = pr.Polygon if k == "G" else pr.Quadrilateral
            add(k, cls(e[s[2]], [p for p, _ in ps]), model_polygon(cls, [m for _, m in ps]))
        elif k == "Q*":
            q = pr.Quadrilateral()
            add("Q", q, from_real(q))
        elif k == "A":
            x, y, tx, ty = s[1]
            keys = ["Frame"] + (["XAxis", "XAxisLabel"] if x else []) + (["YAxis", "YAxisLabel"] if y else [])
            keys += (["TwinXAxis", "TwinXAxisLabel"] if x and tx else []) + (["TwinYAxis", "TwinYAxisLabel"] if y and ty else [])
            parts = [pick("P", i) if name.endswith("Label") else quads(i) for name, i in zip(keys, s[2])]
            real = pr.Axes(e[s[3]], tuple(p for p, _ in parts), xaxis=x, yaxis=y, twinx=tx, twiny=ty)
            add("A", real, M(pr.Axes, [], [(n, m) for n, (_, m) in zip(keys, parts)]))
        elif k == "A*":
            x, y, tx, ty = s[1]
            a = pr.Axes(xaxis=x, yaxis=y, twinx=tx, twiny=ty)
            add("A", a, from_real(a))
        elif k == "N":
            parts = [(n, pick("all", i)) for n, i in s[1]]
            real = pr.PrimitiveNode(np.array([]) if s[2] in ("none", "list") else e[s[2]], {n: p for n, (p, _) in parts})
            add("N", real, M(pr.PrimitiveNode, [], [(n, m) for n, (_, m) in parts]))
    parts = [(n, pick("all", i)) for n, i in case["root"]]
    root = pr.PrimitiveNode.from_tree(np.array([]), {})
    for n, (p, _) in parts:
        root.add_child(n, p)
    return root, M(pr.PrimitiveNode, [], [(n, m) for n, (_, m) in parts])


def check_tree(prim, flat, values, what):
    structs = cn.flatten("", prim)
    require([s[0] for s in structs] == [k for k, _ in flat], "%s has paths %r instead of %r", what, [s[0] for s in structs], [k for k, _ in flat])
    for (k, m), (_, cls, v, keys) in zip(flat, structs):
        require(cls is m.cls, "%s is a %s at %r instead of %s", what, cls.__name__, k, m.cls.__name__)
        require(list(keys) == [c for c, _ in m.kids], "%s has keys %r at %r", what, keys, k)
        want = values(m)
        v = np.asarray(v, dtype=float)
        require(v.shape == (len(want),) and v.tolist() == list(want), "%s holds %r at %r instead of %r", what, v.tolist(), k, list(want))


def check_partition(prim, flat, values, what):
    graph, vals = pr.filter_unique_values_from_prim(prim)
    require(sorted(graph) == sorted(k for k, _ in flat), "%s: mapped paths are %r", what, sorted(graph))
    uids = {}
    for k, m in flat:
        uids.setdefault(m.uid, []).append((k, m))
    seen = {}
    for uid, group in uids.items():
        ids = {graph[k] for k, _ in group}
        require(len(ids) == 1, "%s: one primitive reachable as %r has unknowns %r", what, [k for k, _ in group], sorted(ids))
        i = ids.pop()
        require(i not in seen, "%s: distinct primitives %r and %r share an unknown", what, seen.get(i), group[0][0])
        require(0 <= i < len(vals), "%s: index %r of %d", what, i, len(vals))
        seen[i] = group[0][0]
        want = list(values(group[0][1]))
        require(np.asarray(vals[i], dtype=float).reshape(-1).tolist() == want, "%s: unknown of %r is %r instead of %r", what, group[0][0], vals[i], want)
    require(len(vals) == len(uids), "%s: %d parameter vectors for %d distinct primitives", what, len(vals), len(uids))
    return graph, vals


@sub("C20", "sharing", history(), quick=12000, shards=8, weight=6,
     rule="primitive trees with arbitrary sharing (same object under several names, points shared by lines and polygons, separate points built from the same or equal arrays), collected and rebuilt twice; non-trivial if some primitive with coordinates is reachable twice and some separate primitives have equal coordinates")
def sharing(case):
    root, model = construct(case)
    flat = model.flat()
    if len(flat) > 20000:
        return False
    rng = np.random.RandomState(case["seed"])
    check_tree(root, flat, lambda m: m.value, "original")
    graph, vals = check_partition(root, flat, lambda m: m.value, "original")
    for turn in ("rebuilt", "rebuilt again"):
        new = [rng.randint(-4000, 4000, np.size(v)) / 16 for v in vals]
        structs = cn.flatten("", root)
        copies = [v.copy() for v in new]
        new_root = pr.build_prim_from_unique_values(structs, graph, new)
        of = {m.uid: new[graph[k]] for k, m in flat}
        check_tree(new_root, flat, lambda m: of[m.uid], turn)
        require(all(np.array_equal(a, b) for a, b in zip(new, copies)), "rebuilding changed the given vectors")
        graph2, vals = check_partition(new_root, flat, lambda m: of[m.uid], turn)
        if turn == "rebuilt":
            check_tree(root, flat, lambda m: m.value, "original after rebuilding")
        root, graph = new_root, graph2
    paths, pts = {}, {}
    for k, m in flat:
        if m.value:
            paths[m.uid] = paths.get(m.uid, 0) + 1
            pts.setdefault(tuple(m.value), set()).add(m.uid)
    shared, equal = any(c > 1 for c in paths.values()), any(len(u) > 1 for u in pts.values())
    label("shared" if shared else "unshared", "equal apart" if equal else "no equal")
    return shared and equal


@sub("C20", "large", large.sizes(100, 700), quick=160, shards=8, weight=120, stride=5, want=large.fresh, rule="the same with 100 to 700 separate points, shared by lines, polygons and groups of up to 60")
def big(d):
    rng = random.Random(d["seed"])
    at = lambda: rng.randrange(10 ** 6)
    steps = [["P", ["list", [float(rng.randint(-9, 9)), float(rng.randint(-9, 9))]] if rng.random() < 0.9 else ["array", rng.randrange(3)]] for _ in range(d["n"])]
    for i in range(d["n"] // 6):
        steps.append(rng.choice([["L", at(), at(), "none"], ["L", at(), at(), "e0"], ["G", [at() for _ in range(rng.randint(1, 60))], "e1"],
                                 ["Q", [at() for _ in range(4)], "list"], ["N", [[f"k{k}", rng.randrange(d["n"])] for k in range(rng.randint(1, 20))], "e0"], ["A*", [True] * 4]]))
    total = len(steps)
    root = [[f"p{k}", rng.randrange(total)] for k in range(total)]
    return sharing(dict(pool=[[1.0, 2.0], [1.0, 2.0], [0.0, 0.0]], steps=steps, root=root, seed=d["seed"] % 1000))

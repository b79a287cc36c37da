"""C02: solving preserves structure and sharing, and never alters its input"""

import numpy as np
from hypothesis import strategies as st

from .. import core, figs, gen, large, lay
from ..core import close, eager, interpreted, label, require, single, sub

from mpllayout import constraints as cr, constructions as con, containers as cn, primitives as pr, solver
from mpllayout.layout import Layout

P = "C02"


def snapshot(l):
    out = []
    for tree in (l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param):
        for key, node in cn.iter_flat("", tree):
            v = node.value
            if isinstance(v, np.ndarray):
                v = (str(v.dtype), v.tolist())
            elif isinstance(v, tuple):
                v = tuple((str(a.dtype), a.tolist()) if isinstance(a, np.ndarray) else a for a in v)
            out.append((key, type(node).__name__, id(node), v, list(node.keys())))
    return out


def paths(spec):
    return [p for p, _ in lay.paths(spec["prims"])]


def run(spec, method, **kw):
    l = lay.layout(spec)
    before = snapshot(l)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method=method, **kw)
    require(repr(snapshot(l)) == repr(before), "solving (%s) altered the layout passed in", method)
    require(lay.read(l.root_prim, spec, "the layout after solving") == [s if s is None else [float(a) for a in s] for s in used(spec, spec["S"])],
            "solving (%s) altered the layout's coordinates", method)
    X = lay.read(root, spec)
    for p in paths(spec):
        a, b = root[p].value, l.root_prim[p].value
        require(not np.shares_memory(np.asarray(a), np.asarray(b)), "the solution shares the numbers of %s with the layout", p)
    return l, X, info


def used(spec, S):
    ids = {i for _, s in spec["prims"] for i in lay.point_ids(s)}
    return [s if i in ids else None for i, s in enumerate(S)]


def touched(spec):
    return {i for c in spec["cons"] for r in c["refs"] for i in lay.point_ids(lay.find(spec, r))}


def untouched_stay(spec, X, what):
    hit = touched(spec)
    n = 0
    scale = lay.size(spec["S"])
    for i, (a, b) in enumerate(zip(X, spec["S"])):
        if a is not None and i not in hit:
            n += 1
            require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) <= 1e-9 * core.slack(1e3) * scale, "%s moved a point no constraint touches from %r to %r", what, b, a)
    return n


@st.composite
def case(draw):
    spec = draw(st.one_of(lay.linear(6, 8), lay.linear(6, 8), lay.linear(18, 6), lay.curved(5, 6)))
    # leave some primitives without constraints
    if spec["cons"] and draw(st.booleans()):
        k = draw(st.integers(1, len(spec["cons"])))
        spec["cons"] = spec["cons"][:k]
    return dict(spec=spec, method=draw(st.sampled_from(["newton", "newton", "minimize"])),
                max_iter=draw(st.sampled_from([1, 3, 10])), again=draw(st.integers(0, 3)) == 0)


@sub(P, "structure", case(), quick=170, thorough=4000, shards=8, weight=60, stride=4,
     rule="at least one constraint, and points shared between primitives or primitives no constraint touches")
def structure(c):
    spec = c["spec"]
    l, X, info = run(spec, c["method"], max_iter=c["max_iter"])
    n = untouched_stay(spec, X, c["method"])
    ids = [i for p, s in lay.paths(spec["prims"]) if s[0] == "P" for i in [s[1]]]
    shared = len(ids) > len(set(ids))
    label(c["method"], "some untouched" if n else "all touched", "shared points" if shared else "no shared points",
          *[f"has {k}" for k in sorted({s[0] for _, s in lay.paths(spec["prims"])})])
    if c["again"]:
        with np.errstate(all="ignore"):
            again, info2 = solver.solve(l, method=c["method"], max_iter=c["max_iter"])
        Y = lay.read(again, spec)
        scale = lay.size(X)
        for a, b in zip(X, Y):
            if a is not None:
                close(b, a, "solving the same layout again", rtol=1e-9, atol=1e-9 * scale)
        close(info2["abs_errs"], info["abs_errs"], "errors of solving the same layout again", rtol=1e-9, atol=1e-9 * scale)
        label("solved twice")
    if c["again"] and ids:
        # points shared before are still one point: moving one moves the others
        l2 = Layout(again)
        i = max(set(ids), key=lambda i: (ids.count(i), -i))
        first = next(p for p, s in lay.paths(spec["prims"]) if s == ["P", i])
        to = [Y[i][0] + 3.0, Y[i][1] - 5.0]
        l2.add_constraint(cr.Fix(), (first,), (np.array(to),))
        Z = lay.read(solver.solve(l2)[0], spec, "the solution, solved with a new constraint")
        for k, (a, b) in enumerate(zip(Z, Y)):
            if a is not None:
                close(a, to if k == i else b, "a point of the solution, solved with a new constraint", rtol=1e-9, atol=1e-9 * lay.size(Y))
    return bool(spec["cons"]) and (shared or n > 0)


newton = lambda c: dict(c, method="newton")
interpreted(P, "structure", case().map(newton), structure, quick=320, thorough=15000, shards=8, weight=20, stride=3,
            rule="at least one constraint, and points shared between primitives or primitives no constraint touches")


# ---- primitives and constraints of the user


class Circle(pr.StaticPrimitive):
    """A point and a radius"""
    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point(),)


class Knob(pr.StaticPrimitive):
    """Three numbers"""
    signature = (3, ())

    @classmethod
    def init_children(cls, prims):
        return (), prims

    @classmethod
    def default_value(cls):
        return np.zeros(3)

    @classmethod
    def default_prims(cls):
        return ()


class Ring(pr.Primitive):
    """A circle, a handle and a width, or two"""
    signature = (2, {(Circle, pr.Point), (Circle, pr.Point, Knob)})

    @classmethod
    def init_children(cls, prims, knob=False):
        return ("Circle", "Handle", "Knob")[:3 if knob else 2], prims

    @classmethod
    def default_value(cls, knob=False):
        return np.zeros(2)


def own(kind):
    class Own(con.LeafConstruction):
        """The numbers of a primitive"""
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((kind,), (), kind.signature[0])

        @classmethod
        def assem(cls, prims):
            return prims[0].value
    return Own()


OWN = {"P": pr.Point, "C": Circle, "K": Knob, "R": Ring}
SIZE = {"P": 2, "C": 1, "K": 3, "R": 2}


@st.composite
def custom_case(draw):
    """nodes: [kind, value, start, children]; a node may be a part of several others"""
    nodes = []

    def new(kind, kids=()):
        nodes.append([kind, [draw(gen.coord) for _ in range(SIZE[kind])], [draw(gen.coord) for _ in range(SIZE[kind])], list(kids)])
        return len(nodes) - 1

    def some(kind):
        have = [i for i, n in enumerate(nodes) if n[0] == kind]
        if have and draw(st.booleans()):
            return draw(st.sampled_from(have))
        return new(kind, [some("P")] if kind == "C" else [some("C"), some("P")] + ([some("K")] if draw(st.booleans()) else []) if kind == "R" else [])
    tops = [some(draw(st.sampled_from("PCCKRR"))) for _ in range(draw(st.integers(1, 5)))]
    tops = list(dict.fromkeys(tops)) if draw(st.booleans()) else tops
    reach = []

    def walk(i, at):
        reach.append([at, i])
        for k, j in zip({"C": ["Center"], "R": ["Circle", "Handle", "Knob"]}.get(nodes[i][0], []), nodes[i][3]):
            walk(j, f"{at}/{k}")
    for n, i in enumerate(tops):
        walk(i, f"top{n}")
    cons = []
    for _ in range(draw(st.integers(0, 7))):
        at, i = draw(st.sampled_from(reach))
        form = draw(st.sampled_from(["own", "own", "sum", "scaled", "distance"]))
        if form in ("sum",):
            same = [r for r in reach if nodes[r[1]][0] == nodes[i][0]]
            cons.append([form, [[at, i], draw(st.sampled_from(same))]])
        elif form == "distance":
            ps = [r for r in reach if nodes[r[1]][0] == "P"]
            cs = [r for r in reach if nodes[r[1]][0] == "C"]
            if ps and cs:
                # the distance along x of two points is that many radii
                cons.append([form, [draw(st.sampled_from(ps)), draw(st.sampled_from(ps)), draw(st.sampled_from(cs))]])
        else:
            cons.append([form, [[at, i]]])
    return dict(nodes=nodes, tops=tops, cons=cons, method=draw(st.sampled_from(["newton", "newton", "minimize"])), max_iter=draw(st.sampled_from([1, 4, 10])))


def told(form, vs):
    vs = [np.array(v) for v in vs]
    return vs[0] if form == "own" else vs[0] + 2 * vs[1] if form == "sum" else -3 * vs[0] if form == "scaled" else vs[1][:1] - vs[0][:1] - 2 * vs[2]


@sub(P, "own primitives", custom_case(), quick=100, thorough=3000, shards=8, weight=50, stride=4,
     rule="some constraint, and primitives of the user's classes with numbers of their own below others or without constraints")
def own_primitives(c):
    nodes = c["nodes"]
    made = {}

    def make(i):
        if i not in made:
            kind, _, start, kids = nodes[i]
            prims = tuple(make(j) for j in kids)
            made[i] = Ring(start, prims, knob=len(kids) == 3) if kind == "R" else OWN[kind](start, prims)
        return made[i]
    l = Layout()
    for n, i in enumerate(c["tops"]):
        l.add_prim(make(i), f"top{n}")
    hit = set()
    for form, args in c["cons"]:
        kind = OWN[nodes[args[0][1]][0]]
        f = {"own": lambda: own(kind), "sum": lambda: own(kind) + 2 * own(kind), "scaled": lambda: -3 * own(kind),
             "distance": lambda: con.XDistance() + -2 * own(Circle)}[form]()
        target = told(form, [nodes[i][1] for _, i in args])
        l.add_constraint(con.transform_constraint(f), tuple(a for a, _ in args), (target,))
        hit |= {i for _, i in args}
    before = snapshot(l)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method=c["method"], max_iter=c["max_iter"])
    require(repr(snapshot(l)) == repr(before), "solving (%s) altered the layout passed in", c["method"])
    got = {}
    scale = max(1.0, *[abs(v) for n in nodes for v in n[1] + n[2]])

    def read(p, i, at):
        kind, _, start, kids = nodes[i]
        require(type(p) is OWN[kind], "%s is a %s instead of a %s", at, type(p).__name__, OWN[kind].__name__)
        v = np.asarray(p.value, dtype=float).tolist()
        require(len(v) == SIZE[kind], "%s has the numbers %r", at, v)
        require(got.setdefault(i, v) == v, "%s has numbers %r and, elsewhere, %r", at, v, got[i])
        names = {"C": ["Center"], "R": ["Circle", "Handle", "Knob"][:len(kids)]}.get(kind, [])
        require(list(p.keys()) == names, "%s has parts %r instead of %r", at, list(p.keys()), names)
        if i not in hit:
            require(np.allclose(v, start, rtol=0, atol=1e-9 * scale), "%s, which no constraint touches, went from %r to %r", at, start, v)
        for k, j in zip(names, kids):
            read(p[k], j, f"{at}/{k}")
    require(list(root.keys()) == [f"top{n}" for n in range(len(c["tops"]))], "primitives are %r", list(root.keys()))
    for n, i in enumerate(c["tops"]):
        read(root[f"top{n}"], i, f"top{n}")
    if c["method"] == "newton":
        for form, args in c["cons"]:
            a, b = told(form, [got[i] for _, i in args]), told(form, [nodes[i][1] for _, i in args])
            require(np.max(np.abs(a - b)) <= 1e-8 * scale, "%s of %s is %s instead of %s", form, [a for a, _ in args], a, b)
    below = any(nodes[i][3] for i in got)
    label(c["method"], "some untouched" if set(got) - hit else "all touched", *[f"has {OWN[k].__name__}" for k in sorted({nodes[i][0] for i in got})])
    return bool(c["cons"]) and (below or bool(set(got) - hit))


interpreted(P, "own primitives", custom_case().map(newton), own_primitives, quick=320, thorough=15000, shards=8, weight=12, stride=3,
            rule="some constraint, and primitives of the user's classes with numbers of their own below others or without constraints")


@st.composite
def figure_case(draw):
    spec = draw(figs.figure(2, 2))
    return dict(spec=spec, method=draw(st.sampled_from(["newton", "minimize"])))


@sub(P, "figures", figure_case(), quick=16, thorough=400, shards=8, weight=250, stride=10, rule="axes in the layout")
def figures(c):
    spec = c["spec"]
    l, X, info = run(spec, c["method"], max_iter=2)
    n = untouched_stay(spec, X, c["method"])
    label(c["method"], "some untouched" if n else "all touched")
    return True


@st.composite
def bare_case(draw):
    prims, X = draw(lay.geometry(5))
    if draw(st.integers(0, 4)) == 0:
        prims = []
    spec = dict(prims=prims, X=X, S=X, cons=[], start="target")
    return dict(spec=spec, method=draw(st.sampled_from(["newton", "minimize"])), max_iter=draw(st.integers(1, 4)))


@sub(P, "no constraints", bare_case(), quick=60, thorough=1000, shards=2, weight=20, rule="some primitives")
def bare(c):
    spec = c["spec"]
    l, X, info = run(spec, c["method"], max_iter=c["max_iter"])
    require(X == used(spec, spec["S"]), "solving a layout without constraints moved its primitives")
    for k in ("abs_errs", "rel_errs"):
        require(len(info[k]) <= c["max_iter"], "%d errors for at most %d iterations", len(info[k]), c["max_iter"])
    require(all(e == 0 for e in info["abs_errs"]), "errors %r without constraints", info["abs_errs"])
    label(c["method"], f"{min(len(spec['prims']), 3)} primitives")
    return bool(spec["prims"])


def check_large(d):
    spec = lay.big(d)
    spec["cons"] = spec["cons"][:d["seed"] % len(spec["cons"]) + 1] if d["seed"] % 3 else spec["cons"]
    return structure(dict(spec=spec, method="newton", max_iter=10, again=False))


interpreted(P, "many primitives", large.sizes(30, 160), check_large, quick=24, thorough=1500, shards=8, weight=150, stride=5, want=large.fresh,
            rule="30 to 160 points in primitives of all kinds, some or all determined by the relations")


def tame(c):
    return not c["again"] and c["spec"]["start"] != "far"


single(P, "structure", case().map(newton).filter(tame), eager(structure), quick=200, thorough=8000, shards=8, weight=20, stride=3,
       rule="at least one constraint, and points shared between primitives or primitives no constraint touches")

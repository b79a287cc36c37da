"""C17: a tree node behaves like a nested ordered dictionary"""

import random

from hypothesis import strategies as st

from vf import gen, large
from vf.core import label, raises, require, sub

import numpy as np
from mpllayout import constructions as con, primitives as pr
from mpllayout.containers import Node

CLASSES = {"Node": Node, "ParamsNode": con.ParamsNode, "PrimKeysNode": con.PrimKeysNode, "PrimitiveNode": pr.PrimitiveNode}

PARTS = ["a", "b", "c", "1", "0", "10", "Line0", "a b", ".", "ä", "A"]
part = st.sampled_from(PARTS)
path = st.lists(part, min_size=1, max_size=4).map("/".join)
odd = st.sampled_from(["", "/", "a/", "/a", "a//b", "b/", "1/", "//", "a/b/", "c/a//"])
anypath = st.one_of(path, path, path, odd)
existing = st.tuples(st.just("#"), st.integers(0, 200), st.sampled_from(["", "", "", "/a", "/zz", "/a/b", "/"]))
where = st.one_of(path, existing, existing)


@st.composite
def tree(draw, depth=2):
    n = draw(st.sampled_from([0, 0, 0, 1, 2, 3])) if depth else 0
    keys = draw(st.lists(part, min_size=n, max_size=n, unique=True))
    return [draw(st.integers(0, 99)), [[k, draw(tree(depth - 1))] for k in keys]]


op = st.one_of(
    st.tuples(st.just("add"), where, tree()),
    st.tuples(st.just("add"), where, tree()),
    st.tuples(st.just("addto"), existing, part, tree()),
    st.tuples(st.just("addto"), existing, part, tree()),
    st.tuples(st.just("set"), where, tree()),
    st.tuples(st.just("set"), existing, tree()),
    st.tuples(st.just("alias"), existing, where),
    st.tuples(st.just("probe"), st.one_of(anypath, existing)),
    st.tuples(st.just("probe"), st.one_of(anypath, existing)),
    st.tuples(st.just("index"), existing, st.integers(-4, 5)),
    st.tuples(st.just("slice"), existing, st.tuples(*[st.one_of(st.none(), st.integers(-4, 4))] * 2, st.sampled_from([None, 1, 2, -1]))),
)


class Model:
    """Nested ordered dict"""

    def __init__(self, value, kids):
        self.value, self.kids = value, kids

    def walk(self, parts):
        node = self
        for p in parts:
            if p not in node.kids:
                return None
            node = node.kids[p]
        return node

    def paths(self):
        out = []
        for k, c in self.kids.items():
            out.append(k)
            out += [f"{k}/{p}" for p in c.paths()]
        return out

    def height(self):
        return 1 + max(c.height() for c in self.kids.values()) if self.kids else 0

    def contains(self, other):
        return self is other or any(c.contains(other) for c in self.kids.values())

    def size(self):
        return 1 + sum(c.size() for c in self.kids.values())


def pair(t, cls):
    """(real tree, model) from a description"""
    kids = {k: pair(c, cls) for k, c in t[1]}
    value = np.array([float(t[0])]) if cls is pr.PrimitiveNode else t[0]
    return cls.from_tree(value, {k: r for k, (r, _) in kids.items()}), Model(value, {k: m for k, (_, m) in kids.items()})


def same(real, model, at="root", deep=True):
    require(real.value is model.value or real.value == model.value, "%s has value %r instead of %r", at, real.value, model.value)
    keys = list(model.kids)
    require(list(real.keys()) == keys, "keys of %s are %r instead of %r", at, real.keys(), keys)
    require(list(real) == keys, "iterating %s gives %r instead of %r", at, list(real), keys)
    require(len(real) == len(keys), "len(%s) is %d instead of %d", at, len(real), len(keys))
    require([k for k, _ in real.items()] == keys, "items of %s are %r", at, list(real.items()))
    values = list(real.values())
    require(len(values) == len(keys), "values of %s are %r", at, values)
    for i, ((k, r), v) in enumerate(zip(real.items(), values)):
        require(r is v and real[k] is v and real.children[k] is v and real[i] is v and real.get_child(k) is v,
                "items, values, children, [] and positions of %s disagree about %r", at, k)
        if deep:
            same(v, model.kids[k], f"{at}/{k}")
    h = real.node_height()
    require(h == model.height(), "height of %s is %r instead of %r", at, h, model.height())


@sub("C17", "history", st.tuples(tree(), st.lists(op, min_size=6, max_size=40), st.sampled_from(["Node", "Node", "ParamsNode", "PrimKeysNode", "PrimitiveNode"])),
     quick=9000, shards=8, weight=8,
     rule="operation histories (add, replace, alias, look up, membership, index, slice; existing, missing and odd paths) against a nested ordered dict, compared after every step; non-trivial with at least two successful changes and one failure")
def history(case):
    t, ops, cls = case
    cls = CLASSES[cls]
    real, model = pair(t, cls)
    same(real, model)
    done = failed = 0

    def resolve(w):
        if isinstance(w, str):
            return w
        ps = model.paths()
        if not ps:
            return "a"
        return ps[w[1] % len(ps)] + w[2]

    def change(p, sub_real, sub_model, replace):
        """Add or replace at path p of both; report what must have happened"""
        nonlocal done, failed
        parts = p.split("/")
        parent = model.walk(parts[:-1])
        ok = parent is not None and (parts[-1] in parent.kids) == replace
        act = (lambda: real.__setitem__(p, sub_real)) if replace else (lambda: real.add_child(p, sub_real))
        what = f"{'replacing' if replace else 'adding'} {p!r} in a tree with paths {model.paths()}"
        if ok:
            act()
            parent.kids[parts[-1]] = sub_model
            done += 1
        else:
            raises(KeyError, act, what)
            failed += 1
        same(real, model)

    for o in ops:
        if o[0] in ("add", "set"):
            p = resolve(o[1])
            if model.size() > 400 or "" in p.split("/"):
                continue
            change(p, *pair(o[2], cls), o[0] == "set")
        elif o[0] == "addto":
            p = resolve(o[1])
            if "" not in p.split("/") and model.size() < 400:
                change(p + "/" + o[2], *pair(o[3], cls), False)
        elif o[0] == "alias":
            src, dst = resolve(o[1]), resolve(o[2])
            m = model.walk(src.split("/"))
            parent = model.walk(dst.split("/")[:-1])
            if m is None or "" in dst.split("/") or model.size() > 200 or parent is not None and m.contains(parent):
                continue
            change(dst, real[src], m, False)
            label("alias")
        elif o[0] == "probe":
            p = resolve(o[1])
            node = model.walk(p.split("/"))
            got = p in real
            require(got is (node is not None), "membership of %r is %r in a tree with paths %s", p, got, model.paths())
            if node is None:
                raises(KeyError, lambda: real[p], f"reading missing path {p!r} of {model.paths()}")
                raises(KeyError, lambda: real.get_child(p), f"get_child of missing path {p!r}")
                raises(KeyError, lambda: real.__setitem__(p, pair([1, []], cls)[0]), f"replacing missing path {p!r}")
                same(real, model)
                failed += 1
            else:
                same(real[p], node, p, deep=False)
                require(real.get_child(p) is real[p], "get_child and [] differ at %r", p)
                first, *rest = p.split("/", 1)
                if rest:
                    require(real[first][rest[0]] is real[p], "%r is not %r of %r", p, rest[0], first)
            label("probe hit" if node is not None else "probe miss")
        elif o[0] in ("index", "slice"):
            p = resolve(o[1])
            m, r = model.walk(p.split("/")), None
            if m is None:
                continue
            r = real[p]
            kids = [r[k] for k in m.kids]
            if o[0] == "slice":
                s = slice(*o[2])
                got = r[s]
                require(list(got) == kids[s] and all(a is b for a, b in zip(got, kids[s])), "%r[%r] is %r", p, s, got)
            elif -len(kids) <= o[2] < len(kids):
                require(r[o[2]] is kids[o[2]], "%r[%d] is not child %r", p, o[2], list(m.kids)[o[2]])
            else:
                raises(IndexError, lambda: r[o[2]], f"position {o[2]} of {len(kids)} children")
    raises(TypeError, lambda: real[1.5], "indexing with a float")
    label(f"changes {min(done, 10)}")
    return done >= 2 and failed >= 1


@sub("C17", "large", large.sizes(20, 120, shape=large.SHAPES), quick=640, shards=8, weight=30, stride=5, want=large.fresh,
     rule="the same histories on trees of 20 to 120 nodes: up to a hundred children, or paths of up to a hundred parts")
def big(d):
    rng = random.Random(d["seed"])
    kid = lambda: large.tree(rng.randint(1, 4), "bushy", rng)
    at = lambda suffix="": ("#", rng.randrange(10 ** 6), suffix)
    ops = []
    for _ in range(14):
        ops.append(rng.choice([lambda: ("addto", at(), f"new{rng.randrange(5)}", kid()), lambda: ("set", at(), kid()), lambda: ("set", at("/zz"), kid()),
                               lambda: ("probe", at(rng.choice(["", "", "/zz", "/"]))), lambda: ("index", at(), rng.randint(-4, 5)),
                               lambda: ("add", at(), kid())])())
    return history([large.tree(d["n"], d["shape"], rng), ops, rng.choice(sorted(CLASSES))]) or True

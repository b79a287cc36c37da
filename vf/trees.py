"""
Random user-defined construction trees with an interpreter

spec: kinds (argument primitives), m (number of parameters), size (own value),
own/pw (coefficients of the own value), ch (key, spec, primitive keys, parameter map)
"""

import random

import numpy as np
from hypothesis import strategies as st

from . import gen, mk

import jax.numpy as jnp
from mpllayout import constructions as con

PRIMS = {"P": gen.point, "L": gen.line(scale=False), "Q": gen.quad()}
coef = gen.nums(-2, 2, 4)


@st.composite
def reference(draw, kinds):
    """('argN/...', kind of what it refers to)"""
    n = draw(st.integers(0, len(kinds) - 1))
    k, key = kinds[n], f"arg{n}"
    if k == "Q" and draw(st.booleans()):
        key, k = key + f"/Line{draw(st.integers(0, 3))}", "L"
    if k == "L" and draw(st.booleans()):
        key, k = key + f"/Point{draw(st.integers(0, 1))}", "P"
    return key, k


@st.composite
def spec(draw, kinds=None, m=None, depth=3, shape=None):
    """shape: (size, [(key, shape), ...]) to reproduce, or None"""
    if kinds is None:
        kinds = "".join(draw(st.lists(st.sampled_from("PLQ"), min_size=0, max_size=3)))
        if draw(st.integers(0, 9)) == 0:
            kinds = "P" * 12
    if m is None:
        m = draw(st.integers(0, 2))
    size = draw(st.sampled_from([0, 0, 1, 1, 2, 3])) if shape is None else shape[0]
    own = [[[draw(coef), draw(coef)] for _ in kinds] for _ in range(size)]
    pw = [[draw(coef) for _ in range(m)] for _ in range(size)]
    bias = [draw(coef) for _ in range(size)]
    ch = []
    if shape is None:
        n = 0 if depth == 0 else draw(st.sampled_from([0, 0, 1, 2, 3, 11 if depth == 3 else 2]))
        keys = draw(gen.names(n, n)) if n < 11 else [f"c{i}" for i in range(n)]
        shapes = [None] * n
        depths = [depth - 1 if n < 11 else 0] * n
    else:
        keys, shapes = [k for k, _ in shape[1]], [s for _, s in shape[1]]
        depths = [depth - 1] * len(keys)
    for key, shp, dep in zip(keys, shapes, depths):
        key = key.replace("/", "_")
        refs = [draw(reference(kinds)) for _ in range(draw(st.integers(0, 2)))] if kinds else []
        cm = draw(st.integers(0, 2))
        pmap = [draw(st.integers(0, m - 1)) if m and draw(st.booleans()) else ["c", draw(coef)] for _ in range(cm)]
        sub = draw(spec("".join(k for _, k in refs), cm, dep, shp))
        ch.append([key, sub, [r for r, _ in refs], pmap])
    return dict(kinds=kinds, m=m, size=size, own=own, pw=pw, bias=bias, ch=ch, flat0=draw(st.booleans()), via=draw(st.sampled_from(["node", "node", "class", "array"])))


def shape_of(s):
    return [s["size"], [[k, shape_of(c)] for k, c, _, _ in s["ch"]]]


def anchor(prim, kind):
    return {"P": lambda: prim, "L": lambda: prim["Point0"], "Q": lambda: prim["Line0"]["Point0"]}[kind]().value


def make(s):
    kinds = s["kinds"]
    child_prim_keys = tuple(tuple(refs) for _, _, refs, _ in s["ch"])
    maps = [pmap for _, _, _, pmap in s["ch"]]

    def child_params(params):
        return tuple(tuple(params[i] if not isinstance(i, list) else i[1] for i in pmap) for pmap in maps)
    signature = con.ConstructionSignature(tuple(mk.TYPE[k] for k in kinds), s["m"] * (float,), s["size"])

    class Assem:
        @classmethod
        def assem(cls, prims, *params):
            vals = []
            for o, w, b in zip(s["own"], s["pw"], s["bias"]):
                v = b
                for (ax, ay), p, k in zip(o, prims, kinds):
                    q = anchor(p, k)
                    v = v + ax * q[0] + ay * q[1]
                for c, p in zip(w, params):
                    v = v + c * p
                vals.append(v)
            if s["size"] == 1 and s["flat0"]:
                return jnp.asarray(vals[0], dtype=float)
            return jnp.array(vals, dtype=float)

    keys, kids = [k for k, *_ in s["ch"]], [make(c) for _, c, _, _ in s["ch"]]
    if s.get("via", "node") == "node":
        class User(Assem, con.ConstructionNode):
            pass
        return User(con.ConstructionValue(child_prim_keys, child_params, signature), dict(zip(keys, kids)))
    if s["via"] == "class":
        # the classes of the documentation: the smallest one that does
        base = con.LeafConstruction if not keys else con.CompoundConstruction if s["size"] == 0 else con.StaticCompoundConstruction

        class User(base):
            @classmethod
            def init_signature(cls):
                return signature

        if keys:
            User.init_children = classmethod(lambda cls: (keys, kids, child_prim_keys, child_params))
        if s["size"] or not keys:
            User.assem = Assem.__dict__["assem"]
        return User()

    class User(Assem, con.ArrayCompoundConstruction):
        @classmethod
        def init_children(cls, shape):
            return keys[:shape[0]], kids[:shape[0]], child_prim_keys[:shape[0]], child_params

        @classmethod
        def init_signature(cls, shape):
            return signature
    return User(len(keys)) if s["flat0"] else User(shape=(len(keys),))


def resolve(raws, kinds, ref):
    arg, *rest = ref.split("/")
    x, k = raws[int(arg[3:])], kinds[int(arg[3:])]
    for part in rest:
        n = int(part[-1])
        if k == "Q":
            x, k = [x[n], x[(n + 1) % 4]], "L"
        else:
            x, k = x[n], "P"
    return x


def first_point(x):
    while isinstance(x[0], list):
        x = x[0]
    return x


def evaluate(s, raws, params):
    """List of node values, depth first"""
    own = []
    for o, w, b in zip(s["own"], s["pw"], s["bias"]):
        v = b + sum(ax * first_point(r)[0] + ay * first_point(r)[1] for (ax, ay), r in zip(o, raws))
        own.append(v + sum(c * p for c, p in zip(w, params)))
    out = [np.array(own, dtype=float)]
    for _, c, refs, pmap in s["ch"]:
        craws = [resolve(raws, s["kinds"], r) for r in refs]
        cps = [params[i] if not isinstance(i, list) else i[1] for i in pmap]
        out += evaluate(c, craws, cps)
    return out


@st.composite
def applied(draw, **kw):
    """(spec, raw primitives, parameters)"""
    s = draw(spec(**kw))
    return [s, [draw(PRIMS[k]) for k in s["kinds"]], [draw(gen.coord) for _ in range(s["m"])]]


def count(s):
    return 1 + sum(count(c) for _, c, _, _ in s["ch"])


def big(d):
    """The same of d["n"] primitives (dozens to more than a hundred), parameters and parts"""
    rng = random.Random(d["seed"])
    num = lambda lo, hi: rng.randint(4 * lo, 4 * hi) / 4

    def spec(kinds, m, depth):
        size = rng.choice([0, 1, 1, 2])
        ch = []
        for i in range(0 if depth == 0 else rng.randint(1, [0, 4, max(3, d["n"] // 4)][depth])):
            refs, ks = [], ""
            # some take many, in any order
            for a in rng.sample(range(len(kinds)), rng.randint(0, min(len(kinds), rng.choice([3, 3, 200])))):
                key, k = f"arg{a}", kinds[a]
                if k == "Q" and rng.random() < 0.5:
                    key, k = f"{key}/Line{rng.randrange(4)}", "L"
                if k == "L" and rng.random() < 0.5:
                    key, k = f"{key}/Point{rng.randrange(2)}", "P"
                refs.append(key)
                ks += k
            pmap = [rng.randrange(m) if m and rng.random() < 0.8 else ["c", num(-2, 2)] for _ in range(rng.choice([0, 1, 2, 2, 20, 110]))]
            ch.append([f"c{i}", spec(ks, len(pmap), depth - 1), refs, pmap])
        return dict(kinds=kinds, m=m, size=size, own=[[[num(-2, 2), num(-2, 2)] for _ in kinds] for _ in range(size)], pw=[[num(-2, 2) for _ in range(m)] for _ in range(size)],
                    bias=[num(-2, 2) for _ in range(size)], ch=ch, flat0=rng.random() < 0.5, via=rng.choice(["node", "class", "array"]))
    pt = lambda: [num(-9, 9), num(-9, 9)]
    kinds = "".join(rng.choice("PPPLQ") for _ in range(d["n"]))
    s = spec(kinds, rng.choice([0, 3, 12, 105]), 2)
    return [s, [dict(P=pt, L=lambda: [pt(), pt()], Q=lambda: [pt() for _ in range(4)])[k]() for k in kinds], [num(-9, 9) for _ in range(s["m"])]]

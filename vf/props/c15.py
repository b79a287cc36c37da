"""C15: evaluation is the depth-first concatenation of parts with matching sizes"""

import numpy as np
from hypothesis import strategies as st

from .. import builtin, core, expr, figs, gen, geom as g, large, lay, mk, trees
from ..core import close, label, raises, require, single, sub

from mpllayout import containers as cn, primitives as pr, solver

P = "C15"


def nodes(tree):
    return [n for _, n in cn.iter_flat("", tree)]


def keys_of(tree):
    return [k for k, _ in cn.iter_flat("", tree)]


def parts(c, prims, params, names=None):
    """Value of every node, evaluated with the primitives and parameters its parent assigns to it"""
    names = names or tuple(f"arg{n}" for n in range(len(prims)))
    root = c.root_prim(names, prims)
    ks, ps = c.root_prim_keys(names), c.root_params(params)
    require(keys_of(c) == keys_of(ks), "keys of the primitive key tree %r differ from the construction's %r", keys_of(ks), keys_of(c))
    require(keys_of(c) == keys_of(ps), "keys of the parameter tree %r differ from the construction's %r", keys_of(ps), keys_of(c))
    out = []
    for n, k, p in zip(nodes(c), nodes(ks), nodes(ps)):
        out.append(np.asarray(n.assem_atleast_1d(tuple(root[x] for x in k.value), *p.value), dtype=float))
    return out, [n.signature.value_size for n in nodes(c)]


def judge(c, prims, params, what, tol):
    total = c(prims, *params)
    require(np.ndim(total) == 1, "%s has a value of shape %r", what, np.shape(total))
    ps, sizes = parts(c, prims, params)
    for n, k, p, s in zip(nodes(c), keys_of(c), ps, sizes):
        require(p.ndim == 1 and p.size == s, "%s: part %r (%s) has %r numbers, its declared size is %r", what, k, type(n).__name__, p.shape, s)
    close(total, np.concatenate(ps), f"{what} against the concatenation of its parts", rtol=1e-9, atol=1e-9 * tol)
    return ps, total


@sub(P, "built-in", builtin.application(), quick=1800, shards=8, weight=6, rule="edges have some length; every construction and constraint of the package")
def built_in(case):
    if not builtin.ok(case):
        return False
    c, prims, params = builtin.make(case), builtin.prims(case), mk.params(case["params"])
    ps, _ = judge(c, prims, params, case["name"], builtin.scale(case))
    label(f"parts {min(len(ps), 20)}", case["name"].split("-")[0])
    return True


@sub(P, "user tree", trees.applied(), quick=1800, shards=8, weight=6, rule="construction trees with at least one child")
def user_tree(case):
    s, raws, params = case
    c = trees.make(s)
    tol = 10 * g.pts_scale(*raws, [params])
    ps, total = judge(c, mk.build(s["kinds"], raws), tuple(params), f"tree {s}", tol)
    want = trees.evaluate(s, raws, params)
    for p, w, k in zip(ps, want, keys_of(c)):
        close(p, w, f"part {k!r} of tree {s}", rtol=1e-9, atol=1e-9 * tol)
    close(total, np.concatenate(want), f"tree {s}", rtol=1e-9, atol=1e-9 * tol)
    label(f"nodes {min(len(ps), 12)}")
    return len(ps) > 1


@sub(P, "expression", expr.expr(depth=3), quick=1000, shards=8, weight=6, rule="at least one operator")
def expression(e):
    r = expr.evaluate(e)
    if r is None:
        return False
    raws, params, vals, mag = r
    judge(expr.build(e), expr.prims_of(e, raws), mk.params(params), str(e), mag)
    return e[0] not in "mt"


# ---- invalid calls

KINDS = "PLQA"
POINT = {"P": [0.5, 1.5], "L": [[0, 0], [1, 2]], "Q": g.box(0, 0, 2, 1)}


def some(kind):
    if kind == "A":
        return mk.axes(dict(parts=[g.box(0, 0, 1, 1)]))
    if kind == "G":
        return mk.polygon(g.box(0, 0, 2, 1))
    if kind == "N":
        return pr.PrimitiveNode(np.array([]), {"p": mk.point([1, 2])})
    return mk.KIND[kind](POINT[kind])


class MyPoint(pr.Point):
    pass


class MyLine(pr.Line):
    pass


class MyQuad(pr.Quadrilateral):
    pass


def derived(prim):
    if type(prim) is pr.Point:
        return MyPoint(prim.value)
    if type(prim) is pr.Line:
        return MyLine([], (derived(prim["Point0"]), derived(prim["Point1"])))
    if type(prim) is pr.Quadrilateral:
        return MyQuad([], [derived(prim[f"Line{n}"]["Point0"]) for n in range(4)])
    return prim


@st.composite
def bad_call(draw):
    pick = draw(st.integers(0, 3))
    if pick == 0:
        target = dict(tree=draw(trees.applied()))
    elif pick == 1:
        target = dict(expr=draw(expr.expr(depth=2)))
    else:
        target = dict(builtin=draw(builtin.application()))
    how = draw(st.sampled_from(["more prims", "fewer prims", "type", "type", "type", "not a primitive", "list", "single", "generator",
                                "more params", "fewer params", "subclass", "subclass"]))
    return dict(target, how=how, at=draw(st.integers(0, 11)), kind=draw(st.sampled_from("PLQAGN")), junk=draw(st.sampled_from(["none", "array", "text", "class"])))


def target_of(c):
    if "tree" in c:
        s, raws, params = c["tree"]
        return trees.make(s), mk.build(s["kinds"], raws), tuple(params), s["kinds"], "user tree"
    if "expr" in c:
        r = expr.evaluate(c["expr"])
        if r is None:
            return None
        raws, params, _, _ = r
        prims = expr.prims_of(c["expr"], raws)
        kinds = "".join({pr.Point: "P", pr.Line: "L", pr.Quadrilateral: "Q"}[type(p)] for p in prims)
        return expr.build(c["expr"]), tuple(prims), mk.params(params), kinds, "expression"
    b = c["builtin"]
    if not builtin.ok(b):
        return None
    return builtin.make(b), builtin.prims(b), mk.params(b["params"]), b["kinds"], b["name"]


IS_A = {"Q": "QG", "P": "P", "L": "L", "A": "A", "G": "G", "N": "N"}


@sub(P, "invalid call", bad_call(), quick=1800, shards=8, weight=4, rule="calls with a wrong number or type of arguments, or subclass instances")
def invalid(c):
    t = target_of(c)
    if t is None:
        return False
    cons, prims, params, kinds, what = t
    how, at = c["how"], c["at"]
    n, m = len(prims), len(params)
    label(how)
    if how == "more prims":
        at %= n + 1
        raises(TypeError, lambda: cons(prims[:at] + (some(c["kind"]),) + prims[at:], *params), f"{what} with {n + 1} primitives for {n}")
    elif how == "fewer prims":
        if not n:
            return False
        at %= n
        raises(TypeError, lambda: cons(prims[:at] + prims[at + 1:], *params), f"{what} with {n - 1} primitives for {n}")
    elif how == "type":
        if not n:
            return False
        at %= n
        # a quadrilateral is a polygon, but no built-in asks for a polygon
        if c["kind"] == kinds[at]:
            return False
        new = prims[:at] + (some(c["kind"]),) + prims[at + 1:]
        raises(TypeError, lambda: cons(new, *params), f"{what} with a {type(new[at]).__name__} as argument {at} instead of a {type(prims[at]).__name__}")
    elif how == "not a primitive":
        if not n:
            return False
        at %= n
        junk = {"none": None, "array": np.array([0.0, 1.0]), "text": "arg0", "class": pr.Point}[c["junk"]]
        raises(TypeError, lambda: cons(prims[:at] + (junk,) + prims[at + 1:], *params), f"{what} with {junk!r} as argument {at}")
    elif how == "list":
        raises(TypeError, lambda: cons(list(prims), *params), f"{what} with a list of primitives")
    elif how == "generator":
        raises(TypeError, lambda: cons((p for p in prims), *params), f"{what} with a generator of primitives")
    elif how == "single":
        if n != 1:
            return False
        raises(TypeError, lambda: cons(prims[0], *params), f"{what} with a bare primitive")
    elif how == "more params":
        at %= m + 1
        raises(TypeError, lambda: cons(prims, *params[:at], 1.0, *params[at:]), f"{what} with {m + 1} parameters for {m}")
    elif how == "fewer params":
        if not m:
            return False
        at %= m
        raises(TypeError, lambda: cons(prims, *params[:at], *params[at + 1:]), f"{what} with {m - 1} parameters for {m}")
    else:
        a, b = cons(prims, *params), cons(tuple(derived(p) for p in prims), *params)
        close(b, a, f"{what} on instances of subclasses", rtol=1e-12, atol=1e-12)
        return n > 0
    return True


# ---- flattening of layouts

@sub(P, "flattened layout", st.one_of(lay.linear(4, 10), lay.curved(4, 8), figs.figure(2, 2)), quick=320, shards=8, weight=40, stride=4,
     want=lambda s: len(s["cons"]) > 1, rule="layouts with two or more constraints")
def flattened(spec):
    cs = spec["cons"]
    half = len(cs) // 2
    l = lay.layout(spec, cons=cs[:half])
    same_residuals(l, cs[:half], [lay.con_params(c) for c in cs[:half]], spec, "layout")
    for c in cs[half:]:
        l.add_constraint(lay.CONS[c["n"]].make(c.get("kw") or {}), tuple(c["refs"]), lay.con_params(c))
    params = [lay.con_params(c) for c in cs]
    same_residuals(l, cs, params, spec, "layout")
    # the same trees again with other parameters, put in their place
    changed = 0
    for n, (key, node) in enumerate(list(l.root_constraint.items())):
        new = tuple(p + 0.25 if isinstance(p, (float, np.ndarray)) else p for p in params[n])
        if n % 2 == 0 and len(new):
            params[n] = new
            l.root_param[key] = node.root_params(new)
            changed += 1
    if changed:
        same_residuals(l, cs, params, spec, "layout with replaced parameters")
    label(f"constraints {min(len(cs), 20) // 5 * 5}+", "parameters replaced" if changed else "no parameters")
    return True


def same_residuals(l, cons, params, spec, what):
    made = [lay.CONS[c["n"]].make(c.get("kw") or {}) for c in cons]
    cs, ks, ps = l.flat_constraints()
    require(len(cs) == len(ks) == len(ps), "%s flattened into %d constraints, %d keys and %d parameters", what, len(cs), len(ks), len(ps))
    n = sum(len(nodes(m)) for m in made)
    require(len(cs) == n, "%s flattened into %d constraints, expected %d", what, len(cs), n)
    if not cons:
        return
    want = [np.asarray(m(tuple(l.root_prim[r] for r in c["refs"]), *p), dtype=float) for m, c, p in zip(made, cons, params)]
    got = [np.asarray(r, dtype=float) for r in solver.assem_constraint_residual(l.root_prim, cs, ks, ps)]
    for r in got:
        require(r.ndim == 1, "a flattened constraint has a residual of shape %r", r.shape)
    tol = lay.size(spec["S"]) ** 2
    close(np.concatenate(got), np.concatenate(want), f"residuals of the flattened {what} against direct calls", rtol=1e-9, atol=1e-9 * tol)


@sub(P, "malformed", st.tuples(trees.spec().filter(lambda s: s["ch"]), st.integers(0, 20), st.sampled_from(["too many", "too few", "missing child"])),
     quick=600, shards=2, weight=5, rule="trees whose keys for one child do not match it")
def malformed(case):
    from mpllayout import constructions as con
    s, at, how = case
    good = trees.make(s)
    at %= len(s["ch"])
    ks = [tuple(k) for k in good.value.child_prim_keys]
    if how == "too many":
        ks[at] = ks[at] + ("arg0",)
    elif how == "too few":
        if not ks[at]:
            return False
        ks[at] = ks[at][1:]
    else:
        ks.pop(at)
    value = con.ConstructionValue(tuple(ks), good.value.child_params, good.value.signature)
    raises((ValueError, TypeError), lambda: type(good)(value, dict(good.items())), f"a construction with {how} primitive keys ({ks})")
    label(how)
    return True


@sub(P, "large layout", large.sizes(40, 160), quick=40, shards=8, weight=150, stride=5, want=large.fresh, rule="the same for layouts of 80 to 370 constraints")
def large_layout(d):
    return flattened(lay.big(d))


@sub(P, "large tree", large.sizes(30, 130), quick=40, shards=8, weight=60, stride=5, want=large.fresh, rule="user trees of 30 to 130 primitives, up to 105 parameters and 30 children")
def large_tree(d):
    return user_tree(trees.big(d)) or True


# in single precision
single(P, "built-in", builtin.application(), lambda c: builtin.scale(c) < 1e4 and built_in(c), quick=800, shards=8, weight=10, rule="edges have some length")
single(P, "user tree", trees.applied(), lambda c: g.pts_scale(*c[1], [c[2]]) < 100 and user_tree(c), quick=600, shards=8, weight=10, rule="construction trees with at least one child")

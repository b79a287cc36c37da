"""C21: a layout stays consistent through any history of additions and failures"""

import random

import numpy as np
from hypothesis import strategies as st

from .. import core, gen, large, lay
from ..core import close, label, require, sub, Violation

from mpllayout import constraints as cr, containers as cn, primitives as pr, solver
from mpllayout.layout import Layout

P = "C21"

POOL = sorted(n for n in lay.CONS if "*" not in lay.CONS[n].kinds and "A" not in lay.CONS[n].kinds)


@st.composite
def constraint(draw, by_kind, quads):
    n = draw(st.sampled_from(POOL + ["Box", "Length", "Length", "Fix", "Coincident", "Grid", "RectilinearGrid", "OuterMarginArray", "PositionXAxis"]))
    c = lay.CONS[n]
    kw, kinds, p = {}, c.kinds, []
    if n in ("Grid", "RectilinearGrid", "OuterMarginArray"):
        r, k = draw(st.integers(1, 2)), draw(st.integers(1, 3))
        kinds = "Q" * (r * k)
        kw = dict(shape=[r, k])
        if n == "Grid":
            f = lambda m: [draw(gen.nums(0.25, 3, 4)) for _ in range(m)]
            p = [f(k - 1), f(r - 1), f(k - 1), f(r - 1)]
        if n == "OuterMarginArray":
            kinds, kw = "Q" * k, dict(shape=[k], side=draw(gen.sides))
            p = [draw(gen.coord) for _ in range(k - 1)]
    elif n == "PositionXAxis":
        kw = dict(side=draw(st.sampled_from(["bottom", "top"])), twin=False)
    elif c.value is not None:
        p = [draw(s) for s in c.value.params] + [[draw(gen.coord), draw(gen.coord)] if c.value.name == "Coordinate" else draw(gen.coord)]
    elif n == "RelativeLength":
        p = [draw(gen.size)]
    elif n == "CoincidentLines":
        p = [draw(st.booleans())]
    elif n.endswith("Thickness"):
        p = [None]
    refs = []
    for k in kinds:
        if not by_kind[k]:
            return None
        refs.append(draw(st.sampled_from(by_kind[k]))[0])
    return dict(n=n, kw=kw, refs=refs, p=p)


@st.composite
def history(draw):
    prims, X = draw(lay.geometry(5, kinds="PLLQQQAGN"))
    by_kind = lay.refs_by_kind(prims)
    by_kind["A"] = [a for a in by_kind["A"] if a[1][1]["xaxis"]]
    ops = []
    pending = list(range(len(prims)))
    if draw(st.integers(0, 3)):
        ops.append(["prims", pending])
        pending = []
    n = draw(st.sampled_from([24, 18, 14, 12, 10, 8, 6, 4, 2]))
    sticky = draw(constraint(by_kind, None)) if draw(st.integers(0, 2)) == 0 else None
    for _ in range(n):
        if pending and draw(st.integers(0, 3)) == 0:
            ops.append(["prim", pending.pop(0)])
            continue
        kind = draw(st.sampled_from(["con"] * 12 + ["dup", "unknown", "kind", "more", "fewer", "param+", "param-", "string", "parent", "dup prim",
                                                   "prim parent", "scalar grid", "grid size", "same object", "nested prim"]))
        c = sticky if sticky and draw(st.integers(0, 3)) else draw(constraint(by_kind, None))
        name = draw(st.one_of(st.none(), st.none(), gen.name, st.tuples(st.integers(0, 6)).map(list)))
        ops.append([kind, c, name, draw(st.integers(0, 30))])
    ops += [["prim", i] for i in pending if draw(st.booleans())]
    # layouts may be made from trees of the caller, and again from the records of another one
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        ops.insert(draw(st.integers(0, len(ops))), ["wrap", draw(st.booleans())])
    return dict(prims=prims, X=X, ops=ops, own=draw(st.sampled_from([0, 0, 0, 1, 2])))


def snapshot(l):
    def val(v):
        if isinstance(v, np.ndarray):
            return ("array", v.tolist())
        if isinstance(v, (tuple, list)):
            return (type(v).__name__, [val(x) for x in v])
        return v if isinstance(v, (int, float, str, bool, type(None))) else type(v).__name__
    out = []
    for t in (l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param):
        out.append([(k, type(n).__name__, val(n.value) if t is not l.root_constraint else id(n)) for k, n in cn.iter_flat("", t)])
    return repr(out)


def params_equal(a, b):
    return type(a) is tuple and len(a) == len(b) and all(
        (np.shape(x) == np.shape(y) and np.array_equal(x, y)) if isinstance(y, np.ndarray) else x is y or x == y for x, y in zip(a, b))


def subtree(t):
    return len(cn.flatten("", t))


@sub(P, "history", history(), quick=1500, shards=8, weight=20, rule="at least three constraints declared and at least one failing call")
def check_history(case):
    own = case.get("own", 0)
    if own:
        # the values of the root nodes mean nothing
        l = Layout(pr.PrimitiveNode(np.array([]), {}), cr.ConstraintNode.from_tree(None, {}), cr.PrimKeysNode(() if own == 1 else ("", "x"), {}),
                   cr.ParamsNode(() if own == 1 else (0.5, 1.0), {}), **({} if own == 1 else dict(constraint_counter=cn.ItemCounter())))
        label("own root nodes")
    else:
        l = Layout()
    pts = lay.points(case["X"])
    have, model, objects = [], [], []
    failed = 0

    def refused(fn, what):
        before = snapshot(l)
        try:
            fn()
        except Exception:
            after = snapshot(l)
            if before != after:
                raise Violation(f"{what} failed but changed the layout: records went from {before[:1200]} to {after[:1200]}")
            label("refused: " + what.split(":")[0])
            return 1
        raise Violation(f"{what} did not raise")

    def names():
        return [k for k, _ in have]

    def present(ref):
        kids = have
        for part in ref.split("/"):
            d = {k: s for k, s in kids}
            if part not in d:
                return False
            kids = lay.children(d[part])
        return True

    def add(con, c, name, param=None, refs=None):
        kw = {} if name is None else dict(key=name)
        l.add_constraint(con, tuple(c["refs"]) if refs is None else refs, lay.con_params(c) if param is None else param, **kw)

    for op in case["ops"]:
        kind = op[0]
        if kind == "wrap":
            f = (lambda t: t.copy()) if op[1] else (lambda t: t)
            l = Layout(f(l.root_prim), l.root_constraint, f(l.root_prim_keys), root_param=f(l.root_param))
            label("layout made from records")
        elif kind == "prims":
            l.add_prims({case["prims"][i][0]: lay.build_struct(case["prims"][i][1], pts) for i in op[1]})
            have += [case["prims"][i] for i in op[1]]
        elif kind == "prim":
            key, s = case["prims"][op[1]]
            l.add_prim(lay.build_struct(s, pts), key)
            have.append(case["prims"][op[1]])
        elif kind == "dup prim":
            if not have:
                continue
            key = have[op[3] % len(have)][0]
            failed += refused(lambda: l.add_prim(lay.build_struct(["P", 0], lay.points([[9.0, 9.0]])), key), f"duplicate primitive: adding another {key!r}")
        elif kind == "prim parent":
            failed += refused(lambda: l.add_prim(lay.build_struct(["P", 0], lay.points([[9.0, 9.0]])), f"no such/p{op[3]}"), "primitive under a missing parent: adding")
        elif kind == "nested prim":
            groups = [(i, k) for i, (k, s) in enumerate(have) if s[0] == "N"]
            if not groups:
                continue
            i, g_ = groups[op[3] % len(groups)]
            key = f"new{op[3]}"
            if key in dict(have[i][1][1]):
                continue
            pts.append(lay.points([[9.0, 9.0]])[0])
            l.add_prim(pts[-1], f"{g_}/{key}")
            have[i] = [g_, ["N", have[i][1][1] + [[key, ["P", len(pts) - 1]]]]]
            label("nested primitive")
        else:
            c, name, at = op[1], op[2], op[3]
            if c is None:
                continue
            con = lay.CONS[c["n"]].make(c["kw"])
            if isinstance(name, list):
                # what an automatic name could look like
                name = f"{type(con).__name__}{name[0]}"
                label("name like an automatic one")
            declared = [k for k, *_ in model]
            known = all(present(r) for r in c["refs"])
            if kind == "dup":
                if not model or not known:
                    continue
                name = declared[at % len(declared)]
                failed += refused(lambda: add(con, c, name), f"duplicate name: adding another constraint {name!r}")
            elif kind == "unknown":
                if not c["refs"]:
                    continue
                refs = list(c["refs"])
                refs[at % len(refs)] = ["nothing", refs[0] + "/Point7", "Figure ", ""][at % 4]
                if refs[at % len(c["refs"])] == "":
                    refs[at % len(c["refs"])] = "nowhere/Line0"
                failed += refused(lambda: add(con, c, name if name not in declared else None, refs=tuple(refs)), f"unknown primitive: a constraint on {refs}")
            elif kind == "kind":
                kinds = {k: [p for p, s in lay.paths(have) if s[0] == k] for k in "PLQGAN"}
                if not c["refs"]:
                    continue
                i = at % len(c["refs"])
                mine = lay.find(dict(prims=case["prims"]), c["refs"][i])[0]
                other = [p for k in "PLQGAN" if k != mine for p in kinds[k]]
                if not other or not known:
                    continue
                refs = list(c["refs"])
                refs[i] = other[at % len(other)]
                failed += refused(lambda: add(con, c, name if name not in declared else None, refs=tuple(refs)), f"wrong primitive type: {c['n']} on {refs}")
            elif kind in ("more", "fewer"):
                if not known or (kind == "fewer" and not c["refs"]):
                    continue
                refs = c["refs"] + c["refs"][:1] if kind == "more" else c["refs"][1:]
                if len(refs) == len(c["refs"]):
                    continue
                failed += refused(lambda: add(con, c, name if name not in declared else None, refs=tuple(refs)), f"wrong number of primitives: {c['n']} on {refs}")
            elif kind in ("param+", "param-"):
                if not known:
                    continue
                p = lay.con_params(c)
                if kind == "param-" and not p:
                    continue
                q = p + (1.0,) if kind == "param+" else p[1:]
                failed += refused(lambda: add(con, c, name if name not in declared else None, param=q), f"wrong number of parameters: {c['n']} with {len(q)} for {len(p)}")
            elif kind == "string":
                r = c["refs"][0] if c["refs"] else ""
                if len(c["refs"]) != 1 or len(r) < 2:
                    continue
                failed += refused(lambda: add(con, c, name if name not in declared else None, refs=r), f"bare string: {c['n']} on the string {r!r}")
            elif kind == "parent":
                if not known:
                    continue
                failed += refused(lambda: add(con, c, "no such parent/x"), "name under a missing parent: adding a constraint")
            elif kind == "scalar grid":
                qs = [p for p, s in lay.paths(have) if s[0] == "Q"]
                if not qs:
                    continue
                r = (qs[at % len(qs)], qs[(at + 1) % len(qs)])
                g_ = lay.CONS["Grid"].make(dict(shape=[1, 2]))
                bad = [(0.5, 0.5, 0.5, 0.5), (None, None, None, None), ((1.0,), (), 1.0, ())][at % 3]
                failed += refused(lambda: l.add_constraint(g_, r, bad, **({} if name is None or name in declared else dict(key=name))),
                                  "parameters of the wrong shape: a grid with numbers for lists")
            elif kind == "grid size":
                qs = [p for p, s in lay.paths(have) if s[0] == "Q"]
                if not qs:
                    continue
                r, k = [(1, 3), (2, 2), (3, 1), (1, 1), (2, 3)][at % 5]
                sizes = [k - 1, r - 1, k - 1, r - 1]
                i = at // 5 % 4
                sizes[i] += 1 if sizes[i] == 0 or at % 2 else -1
                bad = tuple(np.ones(m) for m in sizes)
                failed += refused(lambda: l.add_constraint(lay.CONS["Grid"].make(dict(shape=[r, k])), tuple(qs[(at + m) % len(qs)] for m in range(r * k)), bad,
                                                           **({} if name is None or name in declared else dict(key=name))),
                                  f"parameters of the wrong length: a {r} by {k} grid with {sizes} widths, heights, column and row margins")
            else:
                if kind == "same object" and objects:
                    con, c = objects[at % len(objects)]
                    known = True
                    label("same constraint object again")
                if not known:
                    failed += refused(lambda: add(con, c, name if name not in declared else None), f"unknown primitive: a constraint on {c['refs']}")
                elif name is not None and name in declared:
                    failed += refused(lambda: add(con, c, name), f"duplicate name: adding another constraint {name!r}")
                else:
                    add(con, c, name)
                    keys = list(l.root_constraint.keys())
                    require(keys[:-1] == declared, "constraints are %r after adding one to %r", keys, declared)
                    new = keys[-1]
                    if name is None:
                        require(new not in declared and new != "" and "/" not in new, "automatic name %r given existing names %r", new, declared)
                    else:
                        require(new == name, "a constraint named %r is stored as %r", name, new)
                    model.append((new, con, c))
                    objects.append((con, c))
        consistent(l, have, model)
    judge(l, model)
    label(f"constraints {min(len(model), 20) // 4 * 4}+", f"failures {min(failed, 4)}")
    return len(model) >= 3 and failed > 0


def consistent(l, have, model):
    require(list(l.root_prim.keys()) == [k for k, _ in have], "primitives are %r instead of %r", list(l.root_prim.keys()), [k for k, _ in have])
    want = [k for k, *_ in model]
    for what, t in (("constraints", l.root_constraint), ("primitive keys", l.root_prim_keys), ("parameters", l.root_param)):
        require(list(t.keys()) == want, "%s are recorded for %r instead of %r", what, list(t.keys()), want)
    for k, con, c in model:
        require(l.root_constraint[k] is con, "constraint %r is %r, not the one declared", k, l.root_constraint[k])
        ks, ps = l.root_prim_keys[k].value, l.root_param[k].value
        require(ks == tuple(c["refs"]), "constraint %r is on %r instead of %r", k, ks, c["refs"])
        require(params_equal(ps, lay.con_params(c)), "constraint %r has parameters %r instead of %r", k, ps, c["p"])
        for t in (l.root_prim_keys, l.root_param):
            require(subtree(t[k]) == subtree(con), "constraint %r has %d records for its %d parts", k, subtree(t[k]), subtree(con))


def judge(l, model):
    cs, ks, ps = l.flat_constraints()
    n = sum(subtree(con) for _, con, _ in model)
    require(len(cs) == len(ks) == len(ps) == n, "%d, %d and %d flat records for %d constraint parts", len(cs), len(ks), len(ps), n)
    if not model:
        return
    with np.errstate(all="ignore"):
        got = np.concatenate([np.asarray(r, dtype=float) for r in solver.assem_constraint_residual(l.root_prim, cs, ks, ps)])
        want = np.concatenate([np.asarray(con(tuple(l.root_prim[r] for r in c["refs"]), *lay.con_params(c)), dtype=float) for _, con, c in model])
    close(got, want, "residuals of the layout against direct calls", rtol=1e-9, atol=1e-7)


# ---- the counter behind automatic names

class A:
    pass


class B(A):
    pass


class A1:
    pass


ITEMS = dict(A=A, B=B, A1=A1)


@st.composite
def counting(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["add", "add", "nodes", "nodes", "until", "has"]), st.sampled_from(sorted(ITEMS)), st.integers(0, 12)), min_size=1, max_size=30))
    taken = draw(st.lists(st.tuples(st.sampled_from(["A", "B", "A1", "a"]), st.integers(0, 14)), max_size=12))
    return dict(ops=[list(o) for o in ops], taken=[f"{a}{b}" for a, b in taken], custom=draw(st.booleans()))


@sub(P, "counter", counting(), quick=900, shards=1, weight=1, rule="more than two items counted")
def counter(case):
    custom = case["custom"]
    cat = (lambda x: "it" + type(x).__name__[0]) if custom else (lambda x: type(x).__name__)
    c = cn.ItemCounter(cat) if custom else cn.ItemCounter()
    node, other = cn.Node(0, {}), cn.Node(0, {})
    for i, t in enumerate(dict.fromkeys(case["taken"])):
        (node if i % 2 else other).add_child(t, cn.Node(i, {}))
    model = {}
    for op, name, n in case["ops"]:
        item = ITEMS[name]()
        k = cat(item)
        if op == "has":
            require((k in c) is (k in model), "category %r in the counter: %r after %r", k, k in c, model)
            require(("none of these" in c) is False, "a category never counted is in the counter")
        elif op == "add":
            got = c.add_item(item)
            require(got == f"{k}{model.get(k, 0)}", "item number %d of category %r is called %r", model.get(k, 0), k, got)
            model[k] = model.get(k, 0) + 1
        elif op == "until":
            got = c.add_item_until_valid(item, lambda s: int(s[len(k):]) % 3 == n % 3)
            m = model.get(k, 0)
            while m % 3 != n % 3:
                m += 1
            require(got == f"{k}{m}", "the first valid name is %r, got %r", f"{k}{m}", got)
            model[k] = m + 1
        else:
            got = c.add_item_to_nodes(item, node, other)
            m = model.get(k, 0)
            while f"{k}{m}" in node.keys() or f"{k}{m}" in other.keys():
                m += 1
            require(got == f"{k}{m}", "the first free name is %r, got %r", f"{k}{m}", got)
            model[k] = m + 1
            require(got not in node.keys() and got not in other.keys(), "the name %r is taken", got)
            (node if n % 2 else other).add_child(got, cn.Node(n, {}))
        require(dict(c.category_counts) == model, "counts are %r instead of %r", c.category_counts, model)
    return sum(model.values()) > 2


@sub(P, "many", large.sizes(30, 140), quick=96, shards=8, weight=150, stride=5, want=large.fresh, rule="30 to 140 constraints of a few classes, mostly with automatic names")
def many(d):
    rng = random.Random(d["seed"])
    X = [[rng.randint(-40, 40) / 4, rng.randint(-40, 40) / 4] for _ in range(12)]
    prims = [[f"p{i}", ["P", i]] for i in range(6)] + [[f"l{i}", ["L", 2 * i, 2 * i + 1]] for i in range(6)]
    of = dict(P=[k for k, s in prims if s[0] == "P"], L=[k for k, s in prims if s[0] == "L"])
    some = [dict(n="Fix", kw={}, p=[[1.0, 2.0]]), dict(n="Length", kw={}, p=[2.5]), dict(n="Horizontal", kw={}, p=[]), dict(n="Coincident", kw={}, p=[]), dict(n="XDistance", kw={}, p=[-1.0])]
    some = rng.sample(some, rng.randint(1, 3))
    ops = [["prims", list(range(len(prims)))]]
    for i in range(d["n"]):
        c = rng.choice(some)
        c = dict(c, refs=[rng.choice(of[k]) for k in lay.CONS[c["n"]].kinds])
        name = rng.choice([None] * 12 + [f"own{i}", [rng.randrange(3 * d["n"])]])
        ops.append([rng.choice(["con"] * 15 + ["dup", "kind", "param+", "same object"]), c, name, rng.randrange(99)])
    return check_history(dict(prims=prims, X=X, ops=ops, own=0)) or True

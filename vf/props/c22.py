"""C22: refreshing replaces exactly the parameters that depend on plotted axes"""

import numpy as np
from hypothesis import strategies as st
from matplotlib.figure import Figure

from .. import core, gen, lay
from ..core import close, label, require, sub
from .c21 import constraint, params_equal, snapshot

from mpllayout import constraints as cr, constructions as con, containers as cn, solver
from mpllayout.layout import Layout, update_layout_constraints, update_root_param

P = "C22"


class Both(con.CompoundConstruction, con._AxesSignature):
    """The thicknesses of both axes of some axes, given as a user's compound constraint"""

    def __init__(self):
        super().__init__()

    @classmethod
    def init_children(cls):
        return (("X", "Y"), (cr.XAxisThickness(), cr.YAxisThickness()), (("arg0/XAxis",), ("arg0/YAxis",)), lambda params: ((None,), (None,)))

    @classmethod
    def init_signature(cls):
        return cls.make_signature(0)

    @classmethod
    def assem(cls, prims):
        return super().assem(prims)


def axes_paths(prims):
    return [(p, s) for p, s in lay.paths(prims) if s[0] == "A"]


@st.composite
def plain(draw, by_kind):
    c = draw(constraint(by_kind, None))
    return None if c is None or c["n"].endswith("Thickness") else c


def axis_boxes(prims):
    """(path of the axis box, path of its axes, 'x' or 'y')"""
    return [(f"{p}/{k}", p, k[-5].lower()) for p, s in axes_paths(prims) for k, c in lay.children(s) if c[0] == "Q" and k != "Frame"]


@st.composite
def scene(draw):
    prims, X = draw(lay.geometry(3, kinds="QLPAAN"))
    keys = {k for k, _ in prims}

    def axes():
        opts = dict(xaxis=draw(st.integers(0, 3)) < 3, yaxis=draw(st.integers(0, 3)) < 3)
        opts.update(twinx=opts["xaxis"] and draw(st.booleans()), twiny=opts["yaxis"] and draw(st.booleans()))
        parts = []
        for i, o in enumerate([True, opts["xaxis"], opts["yaxis"], opts["twinx"], opts["twiny"]]):
            if o:
                ids = list(range(len(X), len(X) + 4))
                X.extend([[draw(lay.half), draw(lay.half)] for _ in ids])
                if i == 0:
                    parts.append(ids)
                else:
                    X.append([draw(lay.half), draw(lay.half)])
                    parts.append([ids, len(X) - 1])
        return ["A", opts, parts]
    for name in draw(st.one_of(*[st.lists(st.sampled_from(["Axes0", "Axes1", "Figure", "Axes", "Axes10"]), unique=True, min_size=1, max_size=3)] * 9,
                               st.integers(9, 12).map(lambda n: [f"Axes{i}" for i in range(n)]))):
        if name not in keys:
            prims.append([name, axes()])
    if draw(st.integers(0, 3)) and "Panel" not in keys:
        # the same name in a group as at the top
        inner = [[name, axes()] for name in draw(st.lists(st.sampled_from(["Axes0", "Axes1", "Panel"]), unique=True, min_size=1, max_size=2))]
        if draw(st.booleans()):
            inner = [["Sub", ["N", inner]], ["Axes1", axes()]]
        prims.insert(draw(st.integers(0, len(prims))), ["Panel", ["N", inner]])
    by_kind = lay.refs_by_kind(prims)
    by_kind["A"] = [a for a in by_kind["A"] if a[1][1]["xaxis"]]
    both = [p for p, s in axes_paths(prims) if s[1]["xaxis"] and s[1]["yaxis"]]
    boxes = axis_boxes(prims)
    cons = []
    for _ in range(draw(st.sampled_from([6, 4, 8, 10, 2, 1] if len(prims) < 9 else [16, 24]))):
        kind = draw(st.sampled_from(["thick"] * 5 + ["plain"] * 3 + ["both"]))
        if kind == "thick" and boxes:
            p, a, u = draw(st.sampled_from(boxes))
            cons.append(dict(n=f"{u.upper()}AxisThickness", kw={}, refs=[p], p=[None]))
        elif kind == "both" and both:
            cons.append(dict(n="Both", kw={}, refs=[draw(st.sampled_from(both))], p=[]))
        else:
            c = draw(plain(by_kind))
            if c:
                cons.append(c)
    names = [draw(st.one_of(st.none(), st.none(), st.sampled_from(["XAxisThickness77", "Height", "a b", f"n{i}"]))) for i in range(len(cons))]
    names = [n if names.index(n) == i else None for i, n in enumerate(names)]
    plots = draw(st.lists(st.lists(st.integers(0, 7), min_size=3, max_size=3), min_size=1, max_size=3))
    more = []
    for _ in range(draw(st.integers(0, 4))):
        more.append([draw(st.integers(0, 3)), draw(plain(by_kind))])
    return dict(prims=prims, X=X, S=X, cons=cons, names=names, plots=plots, more=more, extra=draw(st.booleans()))


LABELS = ["1", "10000", "a\nb", "", "$x^2$", "long label", "0.5", "-3"]


def plot(case, numbers):
    """Axes of a figure for every axes primitive, all with different ticks"""
    fig = Figure(figsize=(3 + numbers[0] / 4, 2 + numbers[1] / 4))
    axs = {}
    paths = [p for p, _ in axes_paths(case["prims"])]
    if case["extra"]:
        paths = ["unused"] + paths
    for i, p in enumerate(paths):
        ax = axs[p] = fig.add_axes((0.2 + 0.02 * i, 0.2, 0.3, 0.4))
        ax.set_xticks([0, 1], [LABELS[(numbers[2] + i) % 8], "x"], fontsize=6 + 3 * i + numbers[0])
        ax.set_yticks([0, 1], [LABELS[(numbers[1] + 3 * i) % 8], "y"], fontsize=5 + 2 * i + numbers[1])
    return axs


def make(c):
    return Both() if c["n"] == "Both" else lay.CONS[c["n"]].make(c["kw"])


def records(l):
    return [[(k, n) for k, n in cn.iter_flat("", t)][1:] for t in (l.root_constraint, l.root_prim_keys, l.root_param)]


def same_param(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and params_equal(a, b)


def thickness_owner(case, ks):
    """axes path and axis of the box of a thickness constraint"""
    ref, = ks
    path, name = ref.rsplit("/", 1)
    return path, name[-5].lower()


@sub(P, "refresh", scene(), quick=440, shards=8, weight=30,
     rule="at least one thickness constraint and one other constraint")
def refresh(case):
    l = Layout()
    pts = lay.points(case["X"])
    for key, s in case["prims"]:
        l.add_prim(lay.build_struct(s, pts), key)
    for c, name in zip(case["cons"], case["names"]):
        l.add_constraint(make(c), tuple(c["refs"]), lay.con_params(c) if c["n"] != "Both" else (), **({} if name is None else dict(key=name)))
    first = snapshot(l)
    old = l
    thick = sum(c["n"].endswith("Thickness") or c["n"] == "Both" for c in case["cons"])
    nested = sum((c["n"].endswith("Thickness") and c["refs"][0].count("/") > 1) or (c["n"] == "Both" and "/" in c["refs"][0]) for c in case["cons"])
    for numbers in case["plots"]:
        axs = plot(case, numbers)
        before = snapshot(old)
        new = update_layout_constraints(old, axs)
        require(isinstance(new, Layout), "the refreshed layout is a %s", type(new))
        require(snapshot(old) == before, "the layout given to update_layout_constraints was changed")
        require(snapshot(l) == first, "the first layout was changed")
        (oc, ok, op), (nc, nk, np_) = records(old), records(new)
        require([k for k, _ in nc] == [k for k, _ in oc] and all(a is b for (_, a), (_, b) in zip(nc, oc)), "constraints differ after the refresh")
        require([(k, n.value) for k, n in nk] == [(k, n.value) for k, n in ok], "primitive keys differ after the refresh")
        require([k for k, _ in np_] == [k for k, _ in op], "parameter keys %r became %r", [k for k, _ in op], [k for k, _ in np_])
        require([(k, type(a), np.asarray(a.value).tolist()) for k, a in cn.iter_flat("", new.root_prim)]
                == [(k, type(a), np.asarray(a.value).tolist()) for k, a in cn.iter_flat("", old.root_prim)], "primitives differ after the refresh")
        owner = None
        for (k, c), (_, ks), (_, a), (_, b) in zip(nc, nk, op, np_):
            if isinstance(c, (cr.XAxisThickness, cr.YAxisThickness)):
                path, u = thickness_owner(case, ks.value)
                want = getattr(axs[path], u + "axis")
                require(type(b.value) is tuple and len(b.value) == 1 and b.value[0] is want,
                        "%s on %s has parameters %r after the refresh, not the %s axis of %s", k, ks.value, b.value, u, path)
                owner = (k, want)
            elif owner and k.startswith(owner[0] + "/"):
                close(np.asarray(b.value, dtype=float), [float(cr.get_axis_thickness(owner[1], owner[1].get_ticks_position()))], f"parameter of {k}", rtol=1e-12, atol=1e-12)
            else:
                require(same_param(b.value, a.value), "parameters of %s are %r instead of %r", k, b.value, a.value)
        fresh = Layout()
        for key, s in case["prims"]:
            fresh.add_prim(l.root_prim[key], key)
        # residuals: the relation with the new axis, for every constraint on its own
        cs, kk, ps = new.flat_constraints()
        with np.errstate(all="ignore"):
            got = [np.asarray(r, dtype=float) for r in solver.assem_constraint_residual(new.root_prim, cs, kk, ps)] if cs else []
        for (k, c), (_, ks), r in zip(nc, nk, got):
            if isinstance(c, (cr.XAxisThickness, cr.YAxisThickness)):
                path, u = thickness_owner(case, ks.value)
                q = lay.raw(lay.find(dict(prims=case["prims"]), ks.value[0]), case["X"])
                d = q[2][1] - q[1][1] if u == "x" else q[1][0] - q[0][0]
                axis = getattr(axs[path], u + "axis")
                t = float(cr.get_axis_thickness(axis, axis.get_ticks_position()))
                total = np.concatenate([x for (k2, _), x in zip(nc, got) if k2 == k or k2.startswith(k + "/")])
                close(total, [d - t], f"residual of {k} after the refresh", rtol=1e-9, atol=1e-9)
        # additions to one do not show in the other
        for n, (who, c) in enumerate(case["more"]):
            a, b = (old, new) if who % 2 else (new, old)
            was = snapshot(b)
            if who >= 2 or c is None:
                key = f"added{n} {len(list(a.root_prim.keys()))}"
                a.add_prim(lay.build_struct(["P", 0], lay.points([[1.0, 2.0]])), key)
                require(key in a.root_prim, "%s was not added", key)
            else:
                count = len(list(a.root_constraint.keys()))
                a.add_constraint(make(c), tuple(c["refs"]), lay.con_params(c))
                require(len(list(a.root_constraint.keys())) == count + 1, "the constraint was not added")
                label("constraint added after the refresh")
            require(snapshot(b) == was, "adding to one layout changed the other (%s)", "the refreshed one" if b is new else "the original")
            for x in (a, b):
                cs, kk, ps = x.flat_constraints()
                require(len(cs) == len(kk) == len(ps), "a layout has %d constraints, %d primitive keys and %d parameters", len(cs), len(kk), len(ps))
        first = snapshot(l)
        old = new
    label(f"refreshes {len(case['plots'])}", f"thickness {min(thick, 4)}", "nested" if nested else "top level only")
    return thick > 0 and len(case["cons"]) > thick


# ---- replacing parameters by name


@st.composite
def replacement(draw):
    prims, X = draw(lay.geometry(5, kinds="PLQQQANA"))
    by_kind = lay.refs_by_kind(prims)
    by_kind["A"] = [a for a in by_kind["A"] if a[1][1]["xaxis"]]
    cons = [c for c in [draw(constraint(by_kind, None)) for _ in range(draw(st.integers(1, 8)))] if c]
    new = []
    for i, c in enumerate(cons):
        if draw(st.booleans()):
            def other(p):
                if isinstance(p, list):
                    return [other(x) for x in p]
                if isinstance(p, bool) or p is None:
                    return p
                return draw(gen.coord)
            new.append([i, [other(p) for p in c["p"]]])
    if draw(st.booleans()):
        new.reverse()
    return dict(prims=prims, X=X, cons=cons, new=new, kid=draw(st.one_of(st.none(), st.integers(0, 20))), pad=draw(gen.coord))


@sub(P, "replace", replacement(), quick=800, shards=4, weight=10, rule="at least one but not all of the constraints are replaced")
def replace(case):
    def declare(cons):
        l = Layout()
        pts = lay.points(case["X"])
        for key, s in case["prims"]:
            l.add_prim(lay.build_struct(s, pts), key)
        for c in cons:
            l.add_constraint(make(c), tuple(c["refs"]), lay.con_params(c))
        return l
    l = declare(case["cons"])
    names = list(l.root_constraint.keys())
    changed = dict((i, p) for i, p in case["new"])
    target = declare([dict(c, p=changed.get(i, c["p"])) for i, c in enumerate(case["cons"])])
    before = snapshot(l)
    updates = {names[i]: lay.con_params(dict(p=p)) for i, p in case["new"]}
    kid = None
    if case["kid"] is not None:
        # also one part of a compound constraint, named by its path
        kids = [(k[1:], n) for k, n in records(l)[2] if k.count("/") > 1 and k[1:].split("/")[0] not in updates
                and len(n.value) == 1 and isinstance(n.value[0], (int, float)) and not isinstance(n.value[0], bool)]
        if kids:
            kid = kids[case["kid"] % len(kids)][0]
            updates[kid] = (case["pad"],)
            label("one part replaced")
    got = update_root_param(l.root_constraint, l.root_param, updates)
    require(snapshot(l) == before, "update_root_param changed the layout")
    g, w = [(k, n.value) for k, n in cn.iter_flat("", got)][1:], [(k, n.value) for k, n in cn.iter_flat("", target.root_param)][1:]
    require([k for k, _ in g] == [k for k, _ in w], "parameter keys are %r instead of %r", [k for k, _ in g], [k for k, _ in w])
    for (k, a), (_, b) in zip(g, w):
        if kid is not None and k[1:] == kid:
            require(same_param(a, (case["pad"],)), "part %s has parameters %r instead of %r", kid, a, case["pad"])
        elif kid is not None and k[1:].startswith(kid + "/"):
            continue
        else:
            require(same_param(a, b), "parameters of %s are %r instead of %r", k, a, b)
    label(f"replaced {min(len(case['new']), 4)} of {len(case['cons'])}")
    return 0 < len(case["new"]) < len(case["cons"])

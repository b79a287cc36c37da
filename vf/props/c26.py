"""C26: drawings of primitives show every primitive at its true coordinates"""

import math
import warnings

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure

from .. import core, gen, geom as g, lay, mk
from ..core import close, label, require, sub, Violation

from mpllayout import containers as cn, primitives as pr, ui

P = "C26"


@st.composite
def scene(draw):
    prims, X = draw(lay.geometry(draw(st.sampled_from([4, 3, 5, 1])), kinds="PLLQGAANN"))
    X = [list(p) for p in X]
    # some lines without length, upside down and axis-parallel ones
    for _ in range(draw(st.integers(0, 3))):
        i, j = draw(st.integers(0, max(len(X) - 1, 0))), draw(st.integers(0, max(len(X) - 1, 0)))
        if X:
            X[i] = list(X[j])
            if draw(st.booleans()):
                X[i][1] += draw(st.sampled_from([-1.0, 1.0, -0.125]))
    how = draw(st.sampled_from(["prims", "prims", "figure", "prim", "group"]))
    # some in groups of groups
    for i in range(len(prims)):
        if draw(st.integers(0, 5)) == 0:
            for n in range(draw(st.integers(1, 7))):
                prims[i] = [prims[i][0] if n % 2 else f"in{n}", ["N", [prims[i]] + ([["P", ["P", 0]]] if draw(st.integers(0, 3)) == 0 and prims[i][0] != "P" and X else [])]]
    # or many
    if draw(st.integers(0, 11)) == 0:
        for n in range(draw(st.integers(10, 40))):
            X += [[n / 2 - 8, 9 - n / 4], [n / 4, n / 2 + 1]]
            prims.append([f"m{n}", [["P", len(X) - 1], ["L", len(X) - 1, len(X) - 2]][n % 2]])
    names = [k for k, _ in prims]
    prims = [[k if names.count(k) == 1 else f"{k}_{i}", s] for i, (k, s) in enumerate(prims)]
    # in any unit
    unit = draw(st.sampled_from([1.0] * 7 + [2.0 ** -12, 2.0 ** -20, 1e-9] + ([] if how == "figure" else [1e5])))
    X = [[c * unit for c in p] for p in X]
    return dict(prims=prims, X=X, how=how, depth=draw(st.one_of(st.none(), st.none(), st.integers(0, 4))), pick=draw(st.integers(0, 9)),
                mine=draw(st.sampled_from(["", "", "PLGQAN", "L", "PG", "Q", "A"])),
                size=[draw(st.sampled_from([2, 8, 5.5])), draw(st.sampled_from([3, 8]))], tick=draw(st.sampled_from([None, [1.0, 0.25], [0.5, 0.5]])))


class MyPoint(pr.Point):
    pass


class MyLine(pr.Line):
    pass


class MyPolygon(pr.Polygon):
    pass


class MyQuad(pr.Quadrilateral):
    pass


class MyAxes(pr.Axes):
    pass


class MyNode(pr.PrimitiveNode):
    pass


MINE = dict(P=(pr.Point, MyPoint), L=(pr.Line, MyLine), G=(pr.Polygon, MyPolygon), Q=(pr.Quadrilateral, MyQuad), A=(pr.Axes, MyAxes), N=(pr.PrimitiveNode, MyNode))


def derive(node, kinds):
    """Make primitives ones of classes a user derived"""
    swap = dict(MINE[k] for k in kinds)
    for c in node.values():
        derive(c, kinds)
    node.__class__ = swap.get(type(node), type(node))


def expected(key, s, X, keep, out, depth=0, at=""):
    """Every artist a primitive stands for"""
    text = None if keep is not None and depth > keep else key
    if s[0] == "P":
        out.append(dict(kind="P", v=[X[s[1]]], text=text, depth=depth, at=at))
    elif s[0] == "L":
        a, b = X[s[1]], X[s[2]]
        if list(a) != list(b):
            out.append(dict(kind="L", v=[a, b], text=text, depth=depth, at=at))
        return
    elif s[0] in "GQ":
        out.append(dict(kind="G", v=[X[i] for i in s[1]], text=text, depth=depth, at=at))
    for k, c in lay.children(s):
        expected(k, c, X, keep, out, depth + 1, f"{at}/{k}")


def take(pool, test, what):
    for i, a in enumerate(pool):
        if test(a):
            return pool.pop(i)
    raise Violation(f"{what} is not in the drawing (or not often enough)")


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12 * max(np.abs(a).max(initial=0), np.abs(b).max(initial=0)))


def turn(a, b):
    """Difference of two angles in degrees"""
    return abs((a - b + 180) % 360 - 180)


def named(t, name):
    """Whether a label names the primitive"""
    return t == name or t.endswith("/" + name)


def judge(ax, want):
    lines, patches, texts = list(ax.lines), list(ax.patches), list(ax.texts)
    for w in want:
        what = f"{dict(P='point', L='line', G='polygon')[w['kind']]} {w['at']} at {w['v']}"
        if w["kind"] == "G":
            # (closed already if it ends where it starts)
            v = w["v"] + [w["v"][0]] if len(w["v"]) == 1 or list(w["v"][0]) != list(w["v"][-1]) else w["v"]
            p = take(patches, lambda p: same(p.get_xy(), v), what)
            require(p.get_closed() and p.get_visible(), "%s is not a closed patch", what)
            require(np.allclose(p.get_transform().transform(p.get_xy()), ax.transData.transform(v), rtol=1e-9, atol=1e-6), "%s is drawn elsewhere", what)
            at, rot = w["v"][0], 0.0
        else:
            a = take(lines, lambda l: same(l.get_xydata(), w["v"]) and l.get_transform() == ax.transData, what)
            require(a.get_visible() and (w["kind"] == "L" or a.get_marker() not in ("", "None", None, " ")), "%s can not be seen", what)
            require(w["kind"] == "P" or a.get_linestyle() not in ("", "None", " "), "%s can not be seen", what)
            at = np.mean(w["v"], axis=0)
            rot = math.degrees(math.atan2(w["v"][1][1] - w["v"][0][1], w["v"][1][0] - w["v"][0][0])) if w["kind"] == "L" else 0.0
        if w["text"] is not None:
            t = take(texts, lambda t: named(t.get_text(), w["text"]) and same(t.xy, at) and t.xycoords == "data" and turn(t.get_rotation(), rot) < 1e-4 * core.slack(1e4),
                     f"the label {w['text']!r} of {what}, turned by {rot:.4f} degrees, at {np.asarray(at).tolist()}; labels are " +
                     str([(t.get_text(), np.asarray(t.xy).tolist(), t.get_rotation()) for t in texts if named(t.get_text(), w["text"])]))
            require(w["kind"] == "G" or (t.get_ha() == "center" and same(t.get_position(), at)), "the label of %s is not centred on it", what)
    require(not lines, "the drawing has %d more lines, e.g. %s", len(lines), [l.get_xydata().tolist() for l in lines[:2]])
    require(not patches, "the drawing has %d more patches, e.g. %s", len(patches), [p.get_xy().tolist() for p in patches[:2]])
    left = [t.get_text() for t in texts if t.get_text()]
    require(not left, "the drawing has labels %r of nothing", left)


@sub(P, "drawing", scene(), quick=640, shards=8, weight=15, rule="at least four primitives are drawn, one of them below another primitive")
def drawing(case):
    spec = case["prims"]
    X = case["X"]
    pts = lay.points(X)
    root = pr.PrimitiveNode(np.array([]), {k: lay.build_struct(s, pts) for k, s in spec})
    derive(root, case.get("mine", ""))
    before = [(k, type(n), np.asarray(n.value).tolist()) for k, n in cn.iter_flat("", root)]
    want = []
    fig = None
    keep = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["how"] == "figure":
                other, there = plt.subplots()
                there.plot([0, 1], [2, 3])
                kw = {} if case["tick"] is None else dict(fig_size=tuple(case["size"]), major_tick_interval=case["tick"][0], minor_tick_interval=case["tick"][1])
                fig, ax = ui.figure_prims(root, **kw)
                close(fig.get_size_inches(), kw.get("fig_size", (8, 8)), "figure size")
                require(ax.get_aspect() == 1, "the aspect of the drawing is %r", ax.get_aspect())
                require(ax.lines is not None and fig.axes == [ax], "the figure has other axes")
                require(fig is not other and other.axes == [there] and len(there.lines) == 1 and not there.patches and not there.texts, "a figure that was there before was drawn into")
            else:
                fig = Figure(figsize=(4, 4))
                FigureCanvasAgg(fig)
                ax = fig.add_axes((0.1, 0.1, 0.8, 0.8))
            if case["how"] in ("figure", "prims"):
                if case["how"] == "prims":
                    ui.plot_prims(ax, root)
                for k, s in spec:
                    expected(k, s, X, None, want, 0, k)
            elif case["how"] == "prim":
                k, s = spec[case["pick"] % len(spec)]
                keep = case["depth"]
                ui.plot_prim(ax, root[k], k, **({} if keep is None else dict(max_label_depth=keep)))
                expected(k, s, X, keep, want, 0, k)
            else:
                # the whole tree as one primitive
                keep = case["depth"]
                ui.plot_prim(ax, root, **({} if keep is None else dict(max_label_depth=keep)))
                for k, s in spec:
                    expected(k, s, X, keep, want, 1, k)
            after = [(k, type(n), np.asarray(n.value).tolist()) for k, n in cn.iter_flat("", root)]
            require(after == before, "drawing changed the primitives")
            judge(ax, want)
            if case["how"] in ("figure", "prims"):
                # one colour for each top-level primitive
                colours = {}
                for a in ax.lines:
                    colours.setdefault(to_rgba(a.get_color(), 1), 0)
                require(len(colours) <= len(spec), "%d colours for %d primitives", len(colours), len(spec))
            for a in [*ax.lines, *ax.patches]:
                alpha = a.get_alpha()
                require(alpha is None or 0 < alpha <= 1, "opacity %r", alpha)
            fig.canvas.draw()
            if case["how"] == "figure":
                for k, s in spec:
                    for p, c in lay.paths([[k, s]]):
                        if c[0] == "P":
                            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
                            x, y = X[c[1]]
                            drawn = any(w["kind"] != "P" and [x, y] in [list(v) for v in w["v"]] or w["v"] == [[x, y]] for w in want if len(set(map(tuple, w["v"]))) == len(w["v"]) > 1 or w["kind"] == "P")
                            require(not drawn or (x0 <= x <= x1 and y0 <= y <= y1), "point %s at %r is outside the drawing", p, [x, y])
    finally:
        plt.close("all")
    label(case["how"], "derived classes" if case.get("mine") else "built-in classes", f"drawn {min(len(want), 24) // 4 * 4}+", "labels cut" if keep is not None else "all labels")
    return len(want) >= 4 and any(w["depth"] > 0 for w in want)


# ---- single primitives with the caller's own settings


@st.composite
def one(draw):
    kind = draw(st.sampled_from("PLQG"))
    raw = draw(st.lists(gen.point, min_size=1, max_size=6)) if kind == "G" else draw(dict(P=gen.point, L=gen.line(), Q=gen.quad())[kind])
    return dict(kind=kind, raw=raw, kw=draw(st.sampled_from([{}, dict(alpha=0.5), dict(color="red"), dict(alpha=1, color="blue")])),
                label=draw(st.one_of(st.none(), gen.name)), mine=draw(st.integers(0, 2)) == 0, made=draw(st.booleans()))


@sub(P, "single", one(), quick=500, shards=2, weight=6, rule="drawn with a label")
def single_prim(case):
    fig = Figure(figsize=(3, 3))
    FigureCanvasAgg(fig)
    ax = fig.add_axes((0.1, 0.1, 0.8, 0.8))
    k, raw = case["kind"], case["raw"]
    p = mk.polygon(raw) if k == "G" else mk.KIND[k](raw)
    if case.get("mine"):
        derive(p, "PLGQ")
    plot = ui.make_plot(p) if case["made"] else {"P": ui.plot_point, "L": ui.plot_line, "Q": ui.plot_polygon, "G": ui.plot_polygon}[k]
    kw = dict(case["kw"])
    if case["label"] is not None:
        kw["label"] = case["label"]
    plot(ax, p, **kw)
    want = []
    if not (k == "L" and list(raw[0]) == list(raw[1])):
        want.append(dict(kind="G" if k == "Q" else k, v=[raw] if k == "P" else [list(v) for v in raw], text=case["label"], depth=0, at="it"))
    judge(ax, want)
    if "color" in kw:
        for a in ax.lines:
            require(to_rgba(a.get_color()) == to_rgba(kw["color"]), "the colour is %r", a.get_color())
    fig.canvas.draw()
    label(k, "with opacity" if "alpha" in kw else "default opacity")
    return case["label"] is not None


@st.composite
def direction(draw):
    return dict(l=draw(gen.line()), turn=draw(gen.nums(-360, 360, 1)), r=draw(gen.size), exact=draw(st.booleans()))


@sub(P, "rotation", direction(), quick=800, shards=1, weight=4, rule="the line points down")
def rotation(case):
    l = case["l"]
    if case["exact"]:
        t = math.radians(case["turn"])
        l = [l[0], [l[0][0] + case["r"] * math.cos(t), l[0][1] + case["r"] * math.sin(t)]]
    v = g.vec(l)
    if math.hypot(*v) < 1e-3:
        return False
    got = float(ui.rotation_from_line(mk.line(l)))
    want = math.degrees(math.atan2(v[1], v[0]))
    # (arc cosine: half the digits near 0 and 180 degrees)
    require(turn(got, want) < 1e-4, "the line %s points at %.6f degrees, rotation_from_line gives %.6f", l, want, got)
    return v[1] < 0


def tame(case):
    """No lines so short that single precision takes them for points"""
    X = np.array(case["X"], dtype=float).reshape(-1, 2)
    d = np.hypot(*(X[:, None] - X[None]).transpose(2, 0, 1))
    return bool(np.all((d == 0) | (d > 1e-3 * np.abs(X).max(initial=1e-6))))


core.single(P, "drawing", scene().filter(tame), drawing, quick=160, shards=8, weight=15, rule="at least four primitives are drawn, one of them below another primitive")

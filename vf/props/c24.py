"""C24: figures and axes get the size, position and sides of their primitives"""

import random
import warnings

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

from .. import core, figs, gen, geom as g, lay, large, mk
from ..core import close, label, require, single, sub, Violation

from mpllayout import matplotlibutils as mu, primitives as pr

P = "C24"

inch = st.one_of(gen.nums(1, 8, 4), gen.nums(1, 9, 100))
coord = st.one_of(gen.nums(-4, 4, 4), gen.nums(-5, 9, 100))


@st.composite
def geometry(draw, opts, nested, labels_from=None):
    """Figure box and, for every axes, frame, sides, thicknesses and label points"""
    o = [draw(coord), draw(coord)] if draw(st.integers(0, 3)) else [0.0, 0.0]
    W, H = draw(inch), draw(inch)
    axs = []
    for a in opts:
        x, y, w, h = o[0] + draw(gen.nums(-0.5, 4, 8)), o[1] + draw(gen.nums(-0.5, 4, 8)), draw(gen.nums(0.125, 5, 16)), draw(gen.nums(0.125, 5, 16))
        frame = [[float(v) for v in p] for p in g.box(x, y, w, h)]
        parts = {"Frame": frame}
        sides = {}
        for u, up in (("x", "X"), ("y", "Y")):
            if a[u + "axis"]:
                sides[u] = draw(st.sampled_from(("bottom", "top") if u == "x" else ("left", "right")))
                parts[up + "Axis"] = [[float(v) for v in p] for p in figs.outer_box(frame, sides[u], draw(st.sampled_from([0.25, 0.0, 0.5, 1.0])))]
                parts[up + "AxisLabel"] = [draw(coord), draw(coord)]
                if a["twin" + u]:
                    parts[f"Twin{up}Axis"] = [[float(v) for v in p] for p in figs.outer_box(frame, g.OPP[sides[u]], 0.25)]
                    parts[f"Twin{up}AxisLabel"] = [draw(coord), draw(coord)]
        axs.append(dict(parts=parts, sides=sides))
    return dict(o=o, W=W, H=H, axs=axs)


@st.composite
def nudged(draw, old):
    """The same geometry, nearly"""
    d = draw(st.sampled_from([1e-2, 4e-3, 1e-3, 1e-4, 1e-6]))
    n = lambda: draw(st.sampled_from([0.0, d, -d, d / 2]))
    shift = lambda q, v: [[p[0] + v[0], p[1] + v[1]] for p in q]
    o = [n(), n()]
    new = dict(o=[old["o"][0] + o[0], old["o"][1] + o[1]], W=old["W"] + n(), H=old["H"] + n(), axs=[])
    for a in old["axs"]:
        v = [n(), n()]
        parts = {k: [q[0] + n(), q[1] + n()] if k.endswith("Label") else shift(q, v) for k, q in a["parts"].items()}
        new["axs"].append(dict(parts=parts, sides=a["sides"]))
    return new


@st.composite
def scene(draw):
    n = draw(st.sampled_from([2, 3, 1, 4, 0]))
    opts, keys = [], []
    pool = ["Axes", "Axes0", "Axes1", "Axes10", "LeftAxes", "AxesXAxis", "Axes2", "Axes_3", "a", "axes", "Ax es", "MyAxes1", "left_Axes_2", "00Axes", "xAxesx"]
    names = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    for i in range(n):
        a = dict(xaxis=draw(st.integers(0, 3)) > 0, yaxis=draw(st.integers(0, 3)) > 0)
        a.update(twinx=a["xaxis"] and draw(st.integers(0, 3)) == 0, twiny=a["yaxis"] and draw(st.integers(0, 3)) == 0)
        opts.append(a)
        keys.append(("Panel/" if draw(st.integers(0, 3)) == 0 else "") + names[i])
    fig = draw(st.sampled_from(["Figure", "Figure", "Figure", "F", "Panel/Figure"]))
    steps = [draw(geometry(opts, None))]
    for _ in range(draw(st.integers(0, 2))):
        steps.append(draw(nudged(steps[-1])) if draw(st.booleans()) else draw(geometry(opts, None)))
    extra = draw(st.lists(st.sampled_from(["L", "P", "Q"]), max_size=2))
    select = draw(st.one_of(st.none(), st.permutations(range(n)).flatmap(lambda p: st.integers(0, n).map(lambda k: list(p)[:n - k]))))
    last = draw(st.booleans())
    text = [[draw(st.sampled_from(["", "x", "label"])) for _ in "xy"] for _ in range(n)]
    return dict(opts=opts, keys=keys, fig=fig, steps=steps, extra=extra, select=select, last=last, text=text, own=draw(st.integers(0, 2)) == 0, dpi=draw(st.sampled_from([None, 72, 50, 300])),
                hide=draw(st.lists(st.sampled_from([[i, what] for i in range(n) for what in ("axes", "x", "y")]), max_size=3, unique_by=tuple)) if n else [])


def root(case, step):
    top, panel = {}, {}

    def put(key, prim):
        (panel if key.startswith("Panel/") else top)[key.split("/")[-1]] = prim
    figq = mk.quad(g.box(step["o"][0], step["o"][1], step["W"], step["H"]))
    if not case["last"]:
        put(case["fig"], figq)
    for i, k in enumerate(case["extra"]):
        put(f"extra{i}", mk.KIND[k]({"P": [1.0, 2.0], "L": [[0, 0], [1, 1]], "Q": g.box(0, 0, 1, 1)}[k]))
    for key, o, a in zip(case["keys"], case["opts"], step["axs"]):
        p = a["parts"]
        order = ["Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"]
        parts = [[p["Frame"]]] + [[p[k], p[k + "Label"]] for k in order[1:] if k in p]
        put(key, mk.axes(dict(o, parts=[parts[0][0]] + parts[1:])))
    if case["last"]:
        put(case["fig"], figq)
    if panel:
        top["Panel"] = pr.PrimitiveNode(np.array([]), panel)
    return pr.PrimitiveNode(np.array([]), top)


def decorate(case, axs, afresh=False):
    # matplotlib's set_xlabel itself recentres the label; after creation that lasts until the next update
    for key, t in zip(case["keys"], case["text"]):
        if key in axs:
            if afresh:
                axs[key].xaxis.label.set_text(t[0])
                axs[key].yaxis.label.set_text(t[1])
            else:
                axs[key].set_xlabel(t[0])
                axs[key].set_ylabel(t[1])
            axs[key].plot([0, 1, 2], [0, 3, 1])


def anchor(fig, axis):
    """Where an axis label is anchored, in inches from the figure's lower left corner"""
    return axis.label.get_transform().transform(axis.label.get_position()) / fig.dpi


def where(axis, u):
    """Sides that show tick marks, and tick labels"""
    t = axis.get_major_ticks()[0]
    one, two = ("bottom", "top") if u == "x" else ("left", "right")
    return ([s for s, on in ((one, t.tick1line.get_visible()), (two, t.tick2line.get_visible())) if on],
            [s for s, on in ((one, t.label1.get_visible()), (two, t.label2.get_visible())) if on])


def judge(case, step, fig, axs, keys, what):
    close(fig.get_size_inches(), [step["W"], step["H"]], f"{what}: figure size", rtol=1e-12)
    require(list(axs.keys()) == keys, "%s: axes are %r instead of %r", what, list(axs.keys()), keys)
    require(len(set(map(id, axs.values()))) == len(keys), "%s: two keys share one axes", what)
    require(set(map(id, fig.axes)) == set(map(id, axs.values())), "%s: the figure has %d axes, %d are returned", what, len(fig.axes), len(axs))
    fig.canvas.draw()
    size = np.array([step["W"], step["H"]])
    for key, a in zip(case["keys"], step["axs"]):
        if key not in axs:
            continue
        ax, p = axs[key], a["parts"]
        box = ax.get_position().get_points() * size
        close(box, [np.subtract(p["Frame"][0], step["o"]), np.subtract(p["Frame"][2], step["o"])], f"{what}: corners of {key} in inches", rtol=1e-9, atol=1e-9)
        close(ax.get_window_extent().get_points() / fig.dpi, [np.subtract(p["Frame"][0], step["o"]), np.subtract(p["Frame"][2], step["o"])],
              f"{what}: drawn corners of {key} in inches", rtol=1e-9, atol=1e-9)
        for u in "xy":
            axis = getattr(ax, u + "axis")
            if u in a["sides"]:
                close(anchor(fig, axis), np.subtract(p[u.upper() + "AxisLabel"], step["o"]), f"{what}: {u} label of {key} in inches", rtol=1e-9, atol=1e-9)
                require(axis.get_ticks_position() == a["sides"][u], "%s: %s ticks of %s are at %s instead of %s", what, u, key, axis.get_ticks_position(), a["sides"][u])
                require(where(axis, u) == ([a["sides"][u]], [a["sides"][u]]), "%s: %s ticks and labels of %s are on %r instead of %s", what, u, key, where(axis, u), a["sides"][u])


def part(ax, what):
    return ax if what == "axes" else getattr(ax, what + "axis")


def image(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba()).copy()


@sub(P, "subplots", scene(), quick=420, shards=8, weight=40, rule="at least one axes with an axis and a figure box away from the origin")
def subplots(case):
    with warnings.catch_warnings():
        # (in single precision rounding may look like an axis that is out of line)
        warnings.simplefilter("error" if core.slack() == 1 else "ignore")
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        try:
            return bool(scenario(case))
        finally:
            plt.close("all")


def scenario(case):
    steps = case["steps"]
    tree = root(case, steps[0])
    wanted = [k for k in tree.keys() if "Axes" in k]
    kw = {} if case["fig"] == "Figure" else dict(fig_key=case["fig"])
    nested = any("/" in k for k in case["keys"])
    if case["select"] is None:
        keys = wanted
    else:
        keys = kw["axs_keys"] = [case["keys"][i] for i in case["select"]]
    own = case["own"]
    if own:
        # a figure the user made
        fig = plt.figure(figsize=(3, 2))
        axs = {k: fig.add_axes((0.1 * i, 0.1, 0.2, 0.3)) for i, k in enumerate(keys)}
        out = mu.update_subplots(tree, case["fig"], fig, axs)
        require(out[0] is fig and list(out[1]) == keys and all(out[1][k] is axs[k] for k in keys), "update_subplots returned other objects")
    else:
        fig, axs = mu.subplots(tree, **kw)
        require(isinstance(fig, Figure) and isinstance(axs, dict), "subplots returned %s", type(fig))
    if case["dpi"]:
        fig.set_dpi(case["dpi"])
    judge(case, steps[0], fig, axs, keys, "first")
    decorate(case, axs)
    for n, step in enumerate(steps[1:]):
        tree = root(case, step)
        before = repr(tree)
        data = {k: [l.get_xydata().tolist() for l in ax.lines] for k, ax in axs.items()}
        # what is hidden during the update, and shown again later, has its place too
        hidden = [part(axs[case["keys"][i]], what) for i, what in case.get("hide", []) if case["keys"][i] in axs]
        for h in hidden:
            h.set_visible(False)
        out = mu.update_subplots(tree, case["fig"], fig, axs)
        require(not any(h.get_visible() for h in hidden), "update_subplots showed what the user had hidden")
        for h in hidden:
            h.set_visible(True)
        require(out[0] is fig and list(out[1]) == keys and all(out[1][k] is axs[k] for k in keys), "update_subplots returned other objects")
        require(repr(tree) == before, "update_subplots changed the primitives")
        require(data == {k: [l.get_xydata().tolist() for l in ax.lines] for k, ax in axs.items()}, "update_subplots changed the plotted data")
        judge(case, step, fig, axs, keys, f"after update {n + 1}")
    if len(steps) > 1:
        # the same as a fresh figure, to the pixel
        fresh, faxs = mu.subplots(tree, fig_key=case["fig"], axs_keys=keys)
        if case["dpi"]:
            fresh.set_dpi(case["dpi"])
        decorate(case, faxs, True)
        judge(case, steps[-1], fresh, faxs, keys, "afresh")
        if not own:
            a, b = image(fig), image(fresh)
            require(a.shape == b.shape and np.array_equal(a, b), "the updated figure looks different from one created afresh")
        # and updating again changes nothing
        was = image(fig)
        mu.update_subplots(tree, case["fig"], fig, axs)
        require(np.array_equal(was, image(fig)), "a second update with the same geometry changed the figure")
    # every axes has limits of its own
    for i, ax in enumerate(axs.values()):
        ax.set(xlim=(i, i + 2), ylim=(-i, 3))
    for i, (k, ax) in enumerate(axs.items()):
        require(tuple(ax.get_xlim()) == (i, i + 2) and tuple(ax.get_ylim()) == (-i, 3), "setting limits of other axes changed those of %s", k)
    label("default axes" if case["select"] is None else "chosen axes", "nested" if nested else "top level", f"steps {len(steps)}", "own figure" if own else "new figure",
          f"axes {len(keys)}", "origin" if steps[-1]["o"] == [0.0, 0.0] else "elsewhere")
    return steps[-1]["o"] != [0.0, 0.0] and any(case["steps"][0]["axs"][i]["sides"] for i, k in enumerate(case["keys"]) if k in keys)


@sub(P, "many axes", large.sizes(8, 24), quick=24, shards=8, weight=400, stride=5, want=large.fresh, rule="figures of 8 to 24 axes, updated")
def many(d):
    rng = random.Random(d["seed"])
    num = lambda lo, hi: rng.randint(8 * lo, 8 * hi) / 8
    n, opts = d["n"], []
    for _ in range(n):
        a = dict(xaxis=rng.random() < 0.7, yaxis=rng.random() < 0.7)
        opts.append(dict(a, twinx=a["xaxis"] and rng.random() < 0.2, twiny=a["yaxis"] and rng.random() < 0.2))

    def geometry():
        o = [num(-4, 4), num(-4, 4)]
        step = dict(o=o, W=num(2, 12), H=num(2, 9), axs=[])
        for a in opts:
            frame = [[float(v) for v in p] for p in g.box(o[0] + num(-1, 8), o[1] + num(-1, 8), 0.125 + num(0, 4), 0.125 + num(0, 4))]
            parts, sides = {"Frame": frame}, {}
            for u, up in (("x", "X"), ("y", "Y")):
                if a[u + "axis"]:
                    sides[u] = rng.choice(("bottom", "top") if u == "x" else ("left", "right"))
                    parts[up + "Axis"] = [[float(v) for v in p] for p in figs.outer_box(frame, sides[u], rng.choice([0.25, 0.0, 0.5]))]
                    parts[up + "AxisLabel"] = [num(-4, 4), num(-4, 4)]
                    if a["twin" + u]:
                        parts[f"Twin{up}Axis"] = [[float(v) for v in p] for p in figs.outer_box(frame, g.OPP[sides[u]], 0.25)]
                        parts[f"Twin{up}AxisLabel"] = [num(-4, 4), num(-4, 4)]
            step["axs"].append(dict(parts=parts, sides=sides))
        return step
    keys = [("Panel/" if rng.random() < 0.2 else "") + f"Axes{i}" for i in rng.sample(range(30), n)]
    return subplots(dict(opts=opts, keys=keys, fig="Figure", steps=[geometry() for _ in range(rng.randint(1, 2))], extra=[], last=rng.random() < 0.5, dpi=rng.choice([None, 50]),
                         select=rng.choice([None, rng.sample(range(n), n), rng.sample(range(n), rng.randint(1, n))]), text=[[rng.choice(["", "x"]) for _ in "xy"] for _ in range(n)],
                         own=rng.random() < 0.2))


# ---- the helpers


@st.composite
def boxes(draw):
    b, f = draw(gen.box()), draw(gen.box())
    side = draw(gen.sides)
    return dict(b=b, f=f, side=side, t=draw(st.sampled_from([0.0, 0.25, 1.0, 3.0])), shift=draw(st.sampled_from([0, 0, 1e-12, -1e-11])),
                away=draw(st.sampled_from([0.001, 0.01, 0.05])))


@sub(P, "helpers", boxes(), quick=400, shards=1, weight=4, rule="the figure box is not at the origin")
def helpers(case):
    b, f = mk.quad(case["b"]), mk.quad(case["f"])
    (x0, y0), _, (x1, y1), _ = case["b"]
    (u0, v0), _, (u1, v1), _ = case["f"]
    close(mu.width_and_height_from_quad(b), [x1 - x0, y1 - y0], "width and height", rtol=1e-12, atol=1e-12)
    o, s = np.array([u0, v0]), np.array([u1 - u0, v1 - v0])
    close(mu.rect_from_box(b, o, s), [(x0 - u0) / s[0], (y0 - v0) / s[1], (x1 - x0) / s[0], (y1 - y0) / s[1]], "rectangle in figure units", rtol=1e-9, atol=1e-9)
    close(mu.rect_from_box(b, o), [x0 - u0, y0 - v0, x1 - x0, y1 - y0], "rectangle in inches", rtol=1e-9, atol=1e-9)
    q = [[x + case["shift"], y + case["shift"]] for x, y in figs.outer_box(case["b"], case["side"], case["t"])]
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        got = mu.find_axis_position(b, mk.quad(q))
    require(got == case["side"], "an axis box on the %s of the frame is found on the %s", case["side"], got)
    if case.get("away"):
        # a little away from the frame: the same side, with a warning
        q = figs.outer_box(case["b"], case["side"], case["t"])
        k = case["away"] * {"bottom": -1, "left": -1, "top": 1, "right": 1}[case["side"]]
        q = [[x + k * (case["side"] in ("left", "right")), y + k * (case["side"] in ("bottom", "top"))] for x, y in q]
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            got = mu.find_axis_position(b, mk.quad(q))
        require(any(issubclass(w.category, UserWarning) for w in seen), "no warning about an axis box %g away from the %s of the frame", case["away"], case["side"])
        require(got == case["side"] or min(x1 - x0, y1 - y0) + case["t"] < 0.25, "an axis box %g away from the %s of the frame is found on the %s", case["away"], case["side"], got)
    return case["f"][0] != [0.0, 0.0]


single(P, "subplots", scene(), subplots, quick=120, shards=8, weight=40, rule="at least one axes with an axis and a figure box away from the origin")

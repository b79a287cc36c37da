"""C23: the thickness of an axis is what its rendered tick labels need"""

import warnings

import numpy as np
from hypothesis import strategies as st
from matplotlib import ticker
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

from .. import core, gen, geom as g, mk
from ..core import close, label, require, sub, Violation

from mpllayout import constraints as cr

P = "C23"

TEXTS = ["", "0", "-1", "10000000", "two\nlines", "$x^2$", "$10^{-12}$", "gypq", "WWWWWWWWWW", "a b", "."]


@st.composite
def axis(draw, u):
    d = dict(mode=draw(st.sampled_from(["texts", "texts", "auto", "auto", "log", "minor", "none", "off", "offset", "manual", "null", "hidden"])))
    d["side"] = draw(st.sampled_from(("bottom", "top") if u == "x" else ("left", "right")))
    d["n"] = draw(st.integers(1, 6))
    d["texts"] = draw(st.lists(st.sampled_from(TEXTS), min_size=d["n"], max_size=d["n"]))
    d["scale"] = draw(st.sampled_from([1.0, 1e-6, 1e3, 1e7, 0.1]))
    d["at"] = draw(st.sampled_from([0.0, 1e5, -3.5, 7e8]))
    d["invert"] = draw(st.booleans())
    d["direction"] = draw(st.sampled_from(["out", "in", "inout"]))
    d["length"] = draw(st.sampled_from([0, 3.5, 10, 30]))
    d["pad"] = draw(st.sampled_from([3.5, 0, 12, 30]))
    d["size"] = draw(st.sampled_from([10, 4, 7.5, 24]))
    d["rotation"] = draw(st.sampled_from([0, 0, 90, 45, -30, 180]))
    d["title"] = draw(st.sampled_from(["", "title", "two\nlines", "g" * 30]))
    d["titlepad"] = draw(st.sampled_from([4, 0, -20, 60]))
    d["titleon"] = draw(st.booleans())
    d["titlesize"] = draw(st.sampled_from([10, 30]))
    d["narrow"] = draw(st.integers(0, 4)) == 0
    return d


@st.composite
def figure(draw):
    return dict(size=[draw(gen.nums(1, 9, 4)), draw(gen.nums(1, 9, 4))], dpi=draw(st.sampled_from([100, 72, 50, 200, 93.7, 300])),
                rect=[draw(gen.nums(0, 0.5, 16)), draw(gen.nums(0, 0.5, 16)), draw(gen.nums(0.125, 1, 16)), draw(gen.nums(0.125, 1, 16))],
                x=draw(axis("x")), y=draw(axis("y")), other=draw(st.booleans()), heading=draw(st.booleans()),
                aspect=draw(st.integers(0, 4)) == 0, box=draw(gen.quad()), gone=draw(st.sampled_from([None] * 10 + ["off", "invisible"])), resize=draw(st.one_of(st.none(), st.none(), st.just([5.5, 2.5]))))


def build(case, title=True):
    fig = Figure(figsize=case["size"], dpi=case["dpi"])
    FigureCanvasAgg(fig)
    ax = fig.add_axes(case["rect"])
    if case["other"]:
        o = fig.add_axes((0.5, 0.5, 0.3, 0.3))
        o.set_xlabel("other")
        o.tick_params(labelsize=20)
    if case["heading"]:
        ax.set_title("heading", pad=20)
        ax.text(-0.5, -0.5, "text", fontsize=30, transform=ax.transAxes)
    for u in "xy":
        d = case[u]
        a = getattr(ax, u + "axis")
        lo, hi = d["at"] / max(d["scale"], 1), d["at"] / max(d["scale"], 1) + 1
        lo, hi = lo * d["scale"], hi * d["scale"]
        setlim, setticks = getattr(ax, f"set_{u}lim"), getattr(ax, f"set_{u}ticks")
        if d["mode"] == "log":
            getattr(ax, f"set_{u}scale")("log")
            setlim(1e-3, 1e2)
        elif d["mode"] in ("texts", "minor"):
            ticks = np.linspace(0, 1, d["n"]) if d["n"] > 1 else [0.5]
            setlim(0, 1)
            setticks(ticks, d["texts"], minor=d["mode"] == "minor")
            if d["mode"] == "minor" and d["n"] % 2:
                setticks([])
            if d["narrow"]:
                setlim(0.2, 0.6)
        elif d["mode"] == "offset":
            setlim(5e8 + d["n"], 5e8 + d["n"] + 1e-1 * d["n"])
        elif d["mode"] == "null":
            setlim(lo, hi)
            a.set_major_formatter(ticker.NullFormatter())
        else:
            setlim(lo, hi)
            if d["mode"] == "none":
                setticks([])
            if d["mode"] == "manual":
                setticks([lo, lo + (hi - lo) / 3, hi + 100 * (hi - lo)])
                setlim(lo, hi)
        if d["invert"]:
            (ax.invert_xaxis if u == "x" else ax.invert_yaxis)()
        kw = dict(direction=d["direction"], length=d["length"], pad=d["pad"], labelsize=d["size"], labelrotation=d["rotation"])
        ax.tick_params(axis=u, which="both", **kw)
        a.set_ticks_position(d["side"])
        if d["mode"] == "off":
            ax.tick_params(axis=u, which="both", **{f"label{d['side']}": False})
        if d["mode"] == "hidden":
            a.set_visible(False)
        if title:
            getattr(ax, f"set_{u}label")(d["title"], fontsize=d["titlesize"], labelpad=d["titlepad"])
            a.label.set_visible(d["titleon"])
    if case.get("gone") == "off":
        ax.set_axis_off()
    elif case.get("gone") == "invisible":
        ax.set_visible(False)
    if case["aspect"]:
        # (the other modes would give extremely flat axes)
        ax.set_aspect(0.5 if all(case[u]["mode"] in ("texts", "minor") for u in "xy") else "auto")
    return fig, ax


def extent(fig, ax, u, side):
    """Reference: text by text, in pixels of the drawn figure"""
    fig.canvas.draw()
    r = fig.canvas.get_renderer()
    a = getattr(ax, u + "axis")
    lo, hi = sorted(a.get_view_interval())
    if not (ax.get_visible() and ax.axison and a.get_visible()):
        # nothing is rendered
        return 0.0
    t = a.get_transform()
    lo, hi = sorted(t.transform([lo, hi]))
    eps = 1e-9 * (hi - lo)
    texts = []
    for tick in [*a.get_major_ticks(), *a.get_minor_ticks()]:
        loc = t.transform([tick.get_loc()])[0]
        if lo - eps <= loc <= hi + eps:
            texts += [tick.label1, tick.label2]
    texts.append(a.get_offset_text())
    boxes = [x.get_window_extent(r) for x in texts if x.get_visible() and x.get_text().strip()]
    frame = ax.patch.get_window_extent(r)
    if not boxes:
        return 0.0
    out = {"bottom": frame.y0 - min(b.y0 for b in boxes), "top": max(b.y1 for b in boxes) - frame.y1,
           "left": frame.x0 - min(b.x0 for b in boxes), "right": max(b.x1 for b in boxes) - frame.x1}[side]
    return out / fig.dpi


def state(ax):
    out = [ax.figure.get_size_inches().tolist(), ax.figure.dpi, np.asarray(ax.get_position(True).bounds).tolist()]
    for a in (ax.xaxis, ax.yaxis):
        out += [a.offsetText.get_visible(), a.label.get_visible(), a.label.get_text(), a.get_ticks_position(), a.get_label_position(), a.get_visible(), a.get_view_interval().tolist(),
                a.get_major_locator(), a.get_major_formatter(), a.labelpad]
    return out + [ax.axison, ax.get_visible(), [c.get_visible() for c in ax.get_children()]]


def pixels(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba()).copy()


@sub(P, "rendered", figure(), quick=330, shards=8, weight=20, rule="both axes have some thickness")
def rendered(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, ax = build(case)
        if case["resize"]:
            fig.canvas.draw()
            fig.set_size_inches(case["resize"])
        ref, _ = build(case)
        if case["resize"]:
            ref.set_size_inches(case["resize"])
        # the same figure, never measured
        pristine = pixels(ref)
        for u in "xy":
            d = case[u]
            a = getattr(ax, u + "axis")
            before = state(ax)
            # measured first on an undrawn figure
            got = float(cr.get_axis_thickness(a, a.get_ticks_position()))
            require(state(ax) == before, "measuring the %s axis changed the figure from %s to %s", u, before, state(ax))
            image = pixels(fig)
            require(np.array_equal(image, pristine), "the figure looks different from one that was never measured (%s axis)", u)
            want = extent(fig, ax, u, d["side"])
            require(abs(got - want) <= 0.51 / fig.dpi + 1e-9, "thickness of the %s axis on the %s (%s) is %.6f in, its labels stick out by %.6f in", u, d["side"], d["mode"], got, want)
            # the labels need nothing: the documented zero
            again = float(cr.get_axis_thickness(a, a.get_ticks_position()))
            require(abs(again - got) <= 0.51 / fig.dpi + 1e-9, "thickness was %.6f before and %.6f after drawing", got, again)
            q = mk.quad(case["box"])
            C = cr.XAxisThickness if u == "x" else cr.YAxisThickness
            v = g.vec((case["box"][1], case["box"][2]))[1] if u == "x" else g.vec((case["box"][0], case["box"][1]))[0]
            close(C()((q,), a), [v - again], f"residual of {C.__name__}", rtol=1e-9, atol=1e-9)
            close(C()((q,), None), [v], f"residual of {C.__name__} without axis", rtol=1e-9, atol=1e-9)
            close(cr.AxisThickness(axis=u)((q,), a), [v - again], f"residual of AxisThickness({u})", rtol=1e-9, atol=1e-9)
            require(state(ax) == before, "the constraint changed the figure from %s to %s", before, state(ax))
            require(np.array_equal(image, pixels(fig)), "the figure looks different after measuring the %s axis", u)
            label("axes " + (case.get("gone") or "shown"), f"{d['mode']} {'zero' if want == 0 else 'inside' if want < 0 else 'thick'}", d["side"], "title shown" if d["titleon"] and d["title"] else "no title")
            if want == 0:
                require(abs(got) < 1e-12, "thickness of an axis without labels is %r", got)
        # without axis titles nothing changes
        fig2, ax2 = build(case, title=False)
        if case["resize"]:
            fig2.set_size_inches(case["resize"])
        values = []
        for u in "xy":
            a, b = getattr(ax, u + "axis"), getattr(ax2, u + "axis")
            fig2.canvas.draw()
            t1, t2 = float(cr.get_axis_thickness(a, a.get_ticks_position())), float(cr.get_axis_thickness(b, b.get_ticks_position()))
            require(abs(t1 - t2) <= 0.51 / fig.dpi + 1e-9, "thickness of the %s axis is %.6f with and %.6f without the axis title", u, t1, t2)
            values.append(t1)
    return values[0] > 0 and values[1] > 0


# ---- a measurement that fails


class Failing(ticker.Formatter):
    def __call__(self, x, pos=None):
        raise RuntimeError("no text")


@st.composite
def failing(draw):
    return dict(u=draw(st.sampled_from("xy")), how=draw(st.sampled_from(["default", "both", "none", "formatter"])), on=draw(st.booleans()), call=draw(st.booleans()),
                box=draw(gen.quad()))


@sub(P, "failing", failing(), quick=60, shards=1, weight=5, rule="the axis title is shown")
def fail(case):
    fig = Figure(figsize=(3, 2))
    FigureCanvasAgg(fig)
    ax = fig.add_axes((0.2, 0.2, 0.5, 0.5))
    a = getattr(ax, case["u"] + "axis")
    a.label.set_visible(case["on"])
    if case["how"] == "formatter":
        a.set_major_formatter(Failing())
    else:
        a.set_ticks_position(case["how"])
    C = cr.XAxisThickness if case["u"] == "x" else cr.YAxisThickness
    before = state(ax)
    try:
        if case["call"]:
            C()((mk.quad(case["box"]),), a)
        else:
            cr.get_axis_thickness(a, a.get_ticks_position())
    except Exception:
        label("raised")
    require(state(ax) == before, "a failing measurement (%s) changed the figure from %s to %s", case["how"], before, state(ax))
    return case["on"]


# ---- one figure measured again and again while it is being changed

CHANGES = {
    "size": [10, 4, 24], "rotation": [0, 90, 45], "pad": [3.5, 20], "length": [0, 3.5, 30],
    "texts": [["a", "b"], ["two\nlines", "WWWWWWWW"], ["", "0"], []], "auto": [[0, 1], [0, 1e6], [5e8, 5e8 + 0.1], [1e-9, 2e-9]],
    "side": [0, 1], "rect": [[0.1, 0.1, 0.8, 0.8], [0.3, 0.2, 0.5, 0.6]], "inches": [[4, 3], [6, 2.5]], "dpi": [100, 72, 200],
    "labels": [True, False], "axison": [True, False], "visible": [True, False], "title": ["", "title"], "font": ["sans-serif", "monospace"],
    "one": [30, 5], "format": ["{x:.3f}", "value {x}"], "twin": [0],
}


@st.composite
def change(draw):
    how = draw(st.sampled_from(sorted(CHANGES)))
    return [how, draw(st.sampled_from("xy")), draw(st.sampled_from(CHANGES[how]))]


@st.composite
def history(draw):
    return dict(case=draw(figure()), changes=draw(st.lists(change(), min_size=1, max_size=6)), draws=draw(st.booleans()), box=draw(gen.quad()))


def apply(fig, ax, how, u, v):
    a = getattr(ax, u + "axis")
    if how in ("size", "rotation", "pad", "length"):
        ax.tick_params(axis=u, which="both", **{dict(size="labelsize", rotation="labelrotation").get(how, how): v})
    elif how == "texts":
        getattr(ax, f"set_{u}scale")("linear")
        getattr(ax, f"set_{u}ticks")(np.linspace(0, 1, len(v)) if v else [], v)
        getattr(ax, f"set_{u}lim")(0, 1)
    elif how == "auto":
        getattr(ax, f"set_{u}scale")("linear")
        a.set_major_locator(ticker.AutoLocator())
        a.set_major_formatter(ticker.ScalarFormatter())
        getattr(ax, f"set_{u}lim")(*v)
    elif how == "side":
        a.set_ticks_position((("bottom", "top") if u == "x" else ("left", "right"))[v])
    elif how == "rect":
        ax.set_position(v)
    elif how == "inches":
        fig.set_size_inches(v)
    elif how == "dpi":
        fig.set_dpi(v)
    elif how == "labels":
        side = a.get_ticks_position()
        if side in g.SIDES:
            ax.tick_params(axis=u, which="both", **{"label" + side: v})
    elif how == "axison":
        ax.axison = v
    elif how == "visible":
        a.set_visible(v)
    elif how == "title":
        getattr(ax, f"set_{u}label")(v)
    elif how == "font":
        ax.tick_params(axis=u, which="both", labelfontfamily=v)
    elif how == "one":
        # a text of its own (only kept for as long as the ticks are)
        for t in a.get_ticklabels():
            t.set_fontsize(v)
    elif how == "format":
        a.set_major_formatter(ticker.StrMethodFormatter(v))
    else:
        (ax.twiny if u == "x" else ax.twinx)()


@sub(P, "changing", history(), quick=120, shards=8, weight=55, rule="some thickness changed")
def changing(h):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        case = dict(h["case"], aspect=False)
        fig, ax = build(case)
        seen = {"x": set(), "y": set()}
        for n, (how, u, v) in enumerate([[None] * 3, *h["changes"]]):
            if how is not None:
                apply(fig, ax, how, u, v)
                label(how)
            if h["draws"]:
                fig.canvas.draw()
            got = {}
            for w in "xy":
                a = getattr(ax, w + "axis")
                C = cr.XAxisThickness if w == "x" else cr.YAxisThickness
                size = g.vec((h["box"][1], h["box"][2]))[1] if w == "x" else g.vec((h["box"][0], h["box"][1]))[0]
                try:
                    got[w] = size - float(C()((mk.quad(h["box"]),), a)[0])
                except ValueError:
                    # the side of an axis is not known while its labels are switched off (with offset text)
                    require(a.get_ticks_position() not in g.SIDES, "measuring the %s axis on the %s failed", w, a.get_ticks_position())
            for w in got:
                a = getattr(ax, w + "axis")
                want = extent(fig, ax, w, a.get_ticks_position())
                require(abs(got[w] - want) <= 0.51 / fig.dpi + 1e-8 * (1 + abs(size)), "after change %d (%s) the thickness of the %s axis is %.6f in, its labels stick out by %.6f in", n, how, w, got[w], want)
                seen[w].add(round(want, 3))
    return len(seen["x"]) > 1 or len(seen["y"]) > 1


# ---- axes as users make them


@st.composite
def made(draw):
    kind = draw(st.sampled_from(["grid", "grid", "grid", "twin", "inset", "secondary", "plain", "plain"]))
    data = st.sampled_from([["numbers", [0, 1000, 3]], ["numbers", [-1e7, 2]], ["numbers", [1e-12, 3e-12]], ["numbers", [5e8, 5e8 + 0.02]], ["words", ["apple", "pear\nred", "fig"]],
                            ["words", ["a" * 12]], ["dates", [0, 60]], ["dates", [0, 1]], ["dates", [0, 9000]], ["none", []]])
    return dict(kind=kind, rows=draw(st.integers(1, 3)), cols=draw(st.integers(1, 3)), share=[draw(st.sampled_from([False, True, "all", "row", "col"])) for _ in "xy"],
                data=draw(st.lists(data, min_size=1, max_size=9)), how=draw(st.sampled_from(["plot", "plot", "bar", "barh", "imshow", "scatter"])),
                dpi=draw(st.sampled_from([100, 72, 143])), size=[draw(gen.nums(3, 9, 4)), draw(gen.nums(3, 9, 4))],
                spine=draw(st.sampled_from([None, None, ["outward", 20], ["data", 0.5], ["axes", 0.25], ["axes", -0.2], "gone"])), box=draw(st.sampled_from([None, None, 0.5, 2])),
                style=draw(st.sampled_from([None, None, "hide one", "outer", "autofmt", "margins", "sci", "symlog", "deg"])), first=draw(st.booleans()))


def make(case):
    import datetime

    fig = Figure(figsize=case["size"], dpi=case["dpi"])
    FigureCanvasAgg(fig)
    if case["kind"] == "grid":
        axs = [a for r in fig.subplots(case["rows"], case["cols"], sharex=case["share"][0], sharey=case["share"][1], squeeze=False) for a in r]
    else:
        axs = [fig.add_axes((0.25, 0.25, 0.5, 0.5))]
    for i, ax in enumerate(axs):
        kind, vals = case["data"][i % len(case["data"])]
        if case["kind"] == "grid":
            # one kind of values for shared axes
            kind, vals = (kind, vals) if not any(case["share"]) else case["data"][0] if case["data"][0][0] != "numbers" else [k for k in case["data"] if k[0] == "numbers"][i % sum(k[0] == "numbers" for k in case["data"])]
        xs = [datetime.datetime(2020, 1, 1) + datetime.timedelta(days=v) for v in vals] if kind == "dates" else vals
        ys = list(range(len(xs)))
        if case["how"] == "imshow" and kind == "numbers":
            ax.imshow([[1, 2], [3, 4], [5, 6]])
        elif case["how"] == "barh" and kind == "words":
            ax.barh(xs, ys)
        elif case["how"] == "bar" and kind != "none":
            ax.bar(xs, [1.0] * len(xs))
        elif case["how"] == "scatter":
            ax.scatter(xs, ys)
        else:
            ax.plot(xs, ys)
        if kind == "numbers" and case["style"] == "symlog" and case["how"] == "plot":
            (ax.set_yscale if case["first"] else ax.set_xscale)(case["style"])
        if case["style"] == "margins":
            ax.margins(0.3, 0)
        if case["style"] == "sci" and kind == "numbers" and case["how"] == "plot":
            ax.ticklabel_format(style="sci", scilimits=(0, 0), useMathText=case["first"])
        if case["style"] == "deg" and kind == "numbers":
            ax.yaxis.set_major_formatter(ticker.StrMethodFormatter("{x:.0f}°"))
        if case["style"] == "outer" and case["kind"] == "grid":
            ax.label_outer()
        if case["spine"] == "gone":
            ax.spines[["left", "bottom"]].set_visible(False)
        elif case["spine"] and (case["spine"][0] != "data" or kind == "words"):
            # (positions in data of another size would be off the figure by miles)
            ax.spines["left"].set_position(tuple(case["spine"]))
            if case["first"]:
                ax.spines["bottom"].set_position(tuple(case["spine"]))
        if case["box"] and case["how"] != "imshow":
            ax.set_box_aspect(case["box"])
        if case["style"] == "hide one" and ax.get_xticklabels():
            labels = ax.get_xticklabels() + ax.get_yticklabels()
            labels[len(labels) // 2].set_visible(False)
    if case["style"] == "autofmt":
        fig.autofmt_xdate()
    out = [(ax, u, side) for ax in axs for u, side in (("x", "bottom"), ("y", "left"))]
    if case["kind"] == "twin":
        t = axs[0].twinx() if case["first"] else axs[0].twiny()
        (t.set_ylim if case["first"] else t.set_xlim)(0, 1e7)
        out.append((t, "y", "right") if case["first"] else (t, "x", "top"))
    elif case["kind"] == "inset":
        i = axs[0].inset_axes((0.5, 0.5, 0.3, 0.4))
        out += [(i, "x", "bottom"), (i, "y", "left")]
    elif case["kind"] == "secondary":
        s = axs[0].secondary_xaxis("top", functions=(lambda v: 2 * v, lambda v: v / 2)) if case["first"] else axs[0].secondary_yaxis("right", functions=(lambda v: 2 * v, lambda v: v / 2))
        out.append((s, "x", "top") if case["first"] else (s, "y", "right"))
    return fig, out


@sub(P, "users axes", made(), quick=160, shards=8, weight=60, rule="some axis has some thickness")
def users_axes(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, axes = make(case)
        ref, _ = make(case)
        # (axes placed by other axes only know their place once drawn)
        if not case["first"] or case["kind"] in ("inset", "secondary"):
            fig.canvas.draw()
        thick = 0
        # (the side of an axis is not known to matplotlib while its first label is hidden)
        axes = [(ax, u, side) for ax, u, side in axes if getattr(ax, u + "axis").get_ticks_position() == side]
        got = [float(cr.get_axis_thickness(getattr(ax, u + "axis"), side)) for ax, u, side in axes]
        require(np.array_equal(pixels(fig), pixels(ref)), "the figure looks different from one that was never measured")
        for n, ((ax, u, side), t) in enumerate(zip(axes, got)):
            want = extent(fig, ax, u, side)
            require(abs(t - want) <= 0.51 / fig.dpi + 1e-9, "thickness of %s axis %d on the %s is %.6f in, its labels stick out by %.6f in", u, n, side, t, want)
            thick += want > 0
        label(case["kind"], case["how"], f"style {case['style']}", f"spine {case['spine']}")
    return thick > 0

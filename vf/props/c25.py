"""C25: a declared layout comes out of matplotlib with the declared inches"""

import warnings

import jax
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from .. import core, figs, gen, geom as g, lay
from ..core import close, label, require, sub, Violation, precision
from .c23 import extent
from .c24 import anchor

from mpllayout import constraints as cr, matplotlibutils as mu, solver
from mpllayout.layout import update_layout_constraints

P = "C25"


def index(decl):
    r, c = decl["shape"]
    return {"left": 0, "top": 0, "right": c - 1, "bottom": (r - 1) * c}


def geometry(decl, thick):
    """What the declared numbers mean, in inches from the figure's lower left corner; thick(k, u): thickness of an axis"""
    r, c = decl["shape"]
    t = {}
    for s, k in index(decl).items():
        kind = decl["target"][s]
        t[s] = 0.0 if kind == "Frame" else thick(k, "x" if "X" in kind else "y")
    m, gx, gy, cw, rh = decl["margin"], decl["gx"], decl["gy"], list(decl["cw"]), list(decl["rh"])
    W = m["left"] + t["left"] + sum(cw) + sum(gx) + t["right"] + m["right"]
    H = m["bottom"] + t["bottom"] + sum(rh) + sum(gy) + t["top"] + m["top"]
    if decl["sized"] == "figure":
        # the frames share what is left, in proportion
        a, b = 1 + (decl["W"] - W) / sum(cw), 1 + (decl["H"] - H) / sum(rh)
        cw, rh = [a * w for w in cw], [b * h for h in rh]
        W, H = decl["W"], decl["H"]
    frames, labels = [], []
    x = m["left"] + t["left"]
    xs, ys = [], []
    for j in range(c):
        xs.append(x)
        x += cw[j] + (gx[j] if j < c - 1 else 0)
    y = H - m["top"] - t["top"]
    for i in range(r):
        y -= rh[i]
        ys.append(y)
        y -= gy[i] if i < r - 1 else 0
    for k, a in enumerate(decl["axes"]):
        x0, y0, w, h = xs[k % c], ys[k // c], cw[k % c], rh[k // c]
        frames.append([x0, y0, w, h])
        out = {}
        for u in "xy":
            if not a[u + "axis"] or a["how" + u] == "none":
                continue
            side, d, f = a["side" + u], thick(k, u) + a["pad" + u], a["at" + u]
            if a["how" + u] == "offset":
                # declared as an offset from the lower left corner of the frame
                w0, h0 = decl["cw"][k % c], decl["rh"][k // c]
                d = a["t" + u] + a["pad" + u]
                out[u] = {"bottom": [x0 + f * w0, y0 - d], "top": [x0 + f * w0, y0 + h0 + d], "left": [x0 - d, y0 + f * h0], "right": [x0 + w0 + d, y0 + f * h0]}[side]
            else:
                out[u] = {"bottom": [x0 + f * w, y0 - d], "top": [x0 + f * w, y0 + h + d], "left": [x0 - d, y0 + f * h], "right": [x0 + w + d, y0 + f * h]}[side]
        labels.append(out)
    return W, H, frames, labels


def judge(decl, thick, fig, axs, tol, what):
    W, H, frames, labels = geometry(decl, thick)
    got = fig.get_size_inches()
    def near(a, b, name):
        close(a, b, f"{what}: {name}", rtol=0, atol=tol)
    near(got, [W, H], "figure size in inches")
    fig.canvas.draw()
    boxes = [axs[k].get_position().get_points() * got for k in decl["keys"]]
    r, c = decl["shape"]
    for k, (b, f) in enumerate(zip(boxes, frames)):
        near(b[1] - b[0], f[2:], f"size of axes {k} in inches")
        near(b[0], f[:2], f"lower left corner of axes {k} in inches")
    for k in range(r * c):
        if k % c < c - 1:
            near([boxes[k + 1][0][0] - boxes[k][1][0]], [decl["gx"][k % c]], f"gap between axes {k} and {k + 1}")
            near([boxes[k + 1][0][1]], [boxes[k][0][1]], f"bottom of axes {k + 1} and {k} in one row")
        if k // c < r - 1:
            near([boxes[k][0][1] - boxes[k + c][1][1]], [decl["gy"][k // c]], f"gap between axes {k} and {k + c}")
            near([boxes[k + c][0][0]], [boxes[k][0][0]], f"left of axes {k + c} and {k} in one column")
    for side, k in index(decl).items():
        t = 0.0 if decl["target"][side] == "Frame" else thick(k, "x" if "X" in decl["target"][side] else "y")
        b = boxes[k]
        d = {"left": b[0][0], "bottom": b[0][1], "right": got[0] - b[1][0], "top": got[1] - b[1][1]}[side]
        near([d - t], [decl["margin"][side]], f"margin on the {side}")
    for k, (key, out) in enumerate(zip(decl["keys"], labels)):
        a = decl["axes"][k]
        for u in "xy":
            axis = getattr(axs[key], u + "axis")
            if a[u + "axis"]:
                require(axis.get_ticks_position() == a["side" + u], "%s: %s ticks of axes %d are at %s instead of %s", what, u, k, axis.get_ticks_position(), a["side" + u])
            if u in out:
                near(anchor(fig, axis), out[u], f"{u} label of axes {k}")


def declared_thickness(decl):
    return lambda k, u: decl["axes"][k]["t" + u] if decl["axes"][k][u + "axis"] else 0.0


def make(spec, bits, names=None):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, max_iter=40)
    return l, root


def start(sized):
    return ("near",) if sized else ("default",)


def tolerance(bits, decl):
    size = decl["W"] + decl["H"] + sum(map(abs, decl["origin"]))
    return 1e-6 * max(size, 1) if bits == 64 else 3e-5 * max(size, 1)


@st.composite
def case_plain(draw):
    spec = draw(figs.figure(2, 3, start=("default",), plot=True))
    if spec["decl"]["sized"] == "aspect":
        # (a proportion alone needs a start of about the right size)
        rng = np.random.RandomState(draw(st.integers(0, 999)))
        spec["S"] = [[float(v) for v in p] for p in np.array(spec["X"]) + rng.uniform(-1, 1, (len(spec["X"]), 2)) * 0.02]
    return dict(spec=spec, bits=draw(st.sampled_from([32, 32, 64])))


def selected(decl):
    return dict(axs_keys=list(decl["keys"])) if any("/" in k for k in decl["keys"]) else {}


@sub(P, "declared", case_plain(), quick=64, thorough=2000, shards=8, weight=170, stride=5, want=lambda c: len(c["spec"]["decl"]["keys"]) > 1 or len(c["spec"]["cons"]) > 10,
     rule="more than one axes, or an axis with a label")
def declared(case):
    spec, bits = case["spec"], case["bits"]
    decl = spec["decl"]
    try:
        with precision(bits), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            l, root = make(spec, bits)
            fig, axs = mu.subplots(root, **selected(decl))
            require(sorted(axs) == sorted(decl["keys"]), "axes are %r instead of %r", list(axs), decl["keys"])
            judge(decl, declared_thickness(decl), fig, axs, tolerance(bits, decl), f"in {bits} bits")
    finally:
        plt.close("all")
    label(f"{bits} bits", decl["sized"], decl["style"], f"axes {len(decl['keys'])}", "origin" if decl["origin"] == [0, 0] else "elsewhere")
    return True


# ---- plotting, refreshing, solving again


TEXTS = ["0", "-10", "1000000", "two\nlines", "$x^2$", "long label", "gy", "1"]


@st.composite
def case_cycle(draw):
    spec = draw(figs.figure(2, 2, start=("default",), plot=True))
    decl = spec["decl"]
    if decl["sized"] == "aspect":
        # the same proportions, stated with the height
        decl["sized"] = "frames"
        for c in spec["cons"]:
            if c["n"] == "AspectRatio":
                c["n"], c["p"] = "Height", [decl["rh"][0]]
    # every axis box gets the thickness of the plotted axis
    for c in spec["cons"]:
        if c["refs"][0].endswith("/XAxis") and c["n"] == "Height" or c["refs"][0].endswith("/YAxis") and c["n"] == "Width":
            c["n"], c["p"] = c["refs"][0][-5] + "AxisThickness", [None]
    ticks = []
    for _ in range(draw(st.integers(1, 2))):
        ticks.append([[[draw(st.sampled_from(TEXTS)) for _ in range(draw(st.integers(0, 3)))], draw(st.sampled_from([10, 6, 14])), draw(st.sampled_from([0, 0, 90, 45])), draw(st.sampled_from([3.5, 8]))]
                      for _ in range(2 * len(decl["keys"]))])
    return dict(spec=spec, ticks=ticks, bits=draw(st.sampled_from([32, 32, 64])), chain=draw(st.booleans()), dpi=draw(st.sampled_from([None, None, 300, 72, 220])))


def decorate(axs, decl, ticks):
    for n, key in enumerate(decl["keys"]):
        ax = axs[key]
        ax.set_xlim(0, 1)
        ax.set_ylim(0, 1)
        for i, u in enumerate("xy"):
            texts, size, rotation, pad = ticks[2 * n + i]
            getattr(ax, f"set_{u}ticks")(np.linspace(0.25, 0.75, len(texts)), texts, fontsize=size)
            ax.tick_params(axis=u, labelrotation=rotation, pad=pad)
        ax.set_xlabel(f"x of {n}")
        ax.set_ylabel("y")


@sub(P, "refreshed", case_cycle(), quick=30, thorough=900, shards=8, weight=330, stride=5,
     want=lambda c: any(a["xaxis"] or a["yaxis"] for a in c["spec"]["decl"]["axes"]) and any(t[0] for t in c["ticks"][0]),
     rule="some axis with tick labels takes part in a margin or label position")
def refreshed(case):
    spec, bits = case["spec"], case["bits"]
    decl = spec["decl"]
    tol = tolerance(bits, decl)
    useful = False
    try:
        with precision(bits), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            l, root = make(spec, bits)
            fig, axs = mu.subplots(root, **selected(decl))
            if case["dpi"]:
                fig.set_dpi(case["dpi"])
            thick0 = lambda k, u: 0.0
            if decl["sized"] != "figure" or room(decl, thick0):
                judge(decl, thick0, fig, axs, tol, f"before plotting, {bits} bits")
            old = l
            for n, ticks in enumerate(case["ticks"]):
                decorate(axs, decl, ticks)
                seen = {}
                for k, key in enumerate(decl["keys"]):
                    for u in "xy":
                        seen[k, u] = extent(fig, axs[key], u, decl["axes"][k]["side" + u]) if decl["axes"][k][u + "axis"] else 0.0
                thick = lambda k, u: seen[k, u]
                if decl["sized"] == "figure" and not room(decl, thick):
                    label("no room")
                    break
                new = update_layout_constraints(old if case["chain"] else l, axs)
                with np.errstate(all="ignore"):
                    root, info = solver.solve(new, max_iter=40)
                fig, axs = mu.update_subplots(root, "Figure", fig, axs)
                pixel = 1.01 / fig.dpi
                judge(decl, thick, fig, axs, tol + pixel, f"after refresh {n + 1}, {bits} bits")
                # from the figure edge to the outside of the drawn tick labels
                size = fig.get_size_inches()
                for side, k in index(decl).items():
                    kind = decl["target"][side]
                    if kind == "Frame":
                        continue
                    u = "x" if "X" in kind else "y"
                    ax = axs[decl["keys"][k]]
                    b = ax.get_position().get_points() * size
                    t = extent(fig, ax, u, side)
                    d = {"left": b[0][0], "bottom": b[0][1], "right": size[0] - b[1][0], "top": size[1] - b[1][1]}[side] - t
                    require(abs(d - decl["margin"][side]) <= tol + 2 * pixel, "after refresh %d: %.5f in between the figure edge and the tick labels on the %s, %.5f declared",
                            n + 1, d, side, decl["margin"][side])
                    if t > 0.05:
                        useful = True
                        label(f"tick labels on the {side}")
                old = new
    finally:
        plt.close("all")
    label(f"dpi {case['dpi']}", f"{bits} bits", decl["sized"], decl["style"], f"axes {len(decl['keys'])}", f"refreshes {len(case['ticks'])}", "from the last layout" if case["chain"] else "from the first layout")
    return useful or any(a["how" + u] == "line" and a[u + "axis"] for a in decl["axes"] for u in "xy")


def room(decl, thick):
    W, H, frames, labels = geometry(decl, thick)
    return all(f[2] > 0.2 and f[3] > 0.2 for f in frames)

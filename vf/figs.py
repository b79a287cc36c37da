"""
Figure layouts as users declare them: a figure box, a grid of axes with axis boxes and labels

The target geometry comes first, from the declared inches; the constraints are then
stated with the declared numbers only (`spec["decl"]` keeps them for the plotted figure).
"""

import numpy as np
from hypothesis import strategies as st

from . import gen, geom as g, lay

inch = st.one_of(gen.nums(0.5, 4, 4), gen.nums(0.4, 5, 100))
gap = st.one_of(gen.nums(0, 1, 8), gen.nums(0.05, 1.5, 100))
thin = st.one_of(gen.nums(0.125, 0.5, 8), gen.nums(0.05, 0.8, 100))
origin = st.one_of(st.just([0.0, 0.0]), st.just([0.0, 0.0]), st.tuples(gen.nums(-6, 6, 4), gen.nums(-6, 6, 4)).map(list))


def outer_box(frame, side, t):
    """Box of thickness t outside `side` of the frame"""
    x0, y0 = frame[0]
    x1, y1 = frame[2]
    return {"bottom": g.box(x0, y0 - t, x1 - x0, t), "top": g.box(x0, y1, x1 - x0, t),
            "left": g.box(x0 - t, y0, t, y1 - y0), "right": g.box(x1, y0, t, y1 - y0)}[side]


@st.composite
def figure(draw, rmax=3, cmax=3, start=("default", "near", "random"), plot=False):
    r, c = draw(st.integers(1, rmax)), draw(st.integers(1, cmax))
    n = r * c
    cw, rh = [draw(inch) for _ in range(c)], [draw(inch) for _ in range(r)]
    gx, gy = [draw(gap) for _ in range(c - 1)], [draw(gap) for _ in range(r - 1)]
    margin = {s: draw(gap) for s in g.SIDES}
    o = draw(origin)
    axs = []
    same = draw(st.booleans())
    for k in range(n):
        if k == 0 or not same:
            a = dict(xaxis=draw(st.booleans()), yaxis=draw(st.booleans()))
            for u, sides in (("x", ("bottom", "top")), ("y", ("left", "right"))):
                a["side" + u] = draw(st.sampled_from(sides))
                a["t" + u] = draw(st.one_of(thin, thin, st.just(0.0)))
                a["twin" + u] = bool(a[u + "axis"] and not plot and draw(st.integers(0, 3)) == 0)
                a["tt" + u] = draw(thin)
                a["at" + u] = draw(st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.8]))
                a["pad" + u] = draw(thin)
                a["how" + u] = draw(st.sampled_from(("line", "line", "offset", "none")))
        axs.append(dict(a))
    # frames, x from the left margin, y from the top row down
    corner = {"left": axs[0], "top": axs[0], "right": axs[c - 1], "bottom": axs[(r - 1) * c]}
    at = {"left": 0, "top": 0, "right": c - 1, "bottom": (r - 1) * c}
    thick, target = {}, {}
    for s in g.SIDES:
        a, u = corner[s], "x" if s in ("bottom", "top") else "y"
        kinds = ["Frame"]
        if a[u + "axis"] and a["side" + u] == s:
            kinds.append(u.upper() + "Axis")
        if a["twin" + u] and a["side" + u] == g.OPP[s]:
            kinds.append("Twin" + u.upper() + "Axis")
        kind = draw(st.sampled_from(kinds))
        target[s] = kind
        thick[s] = 0.0 if kind == "Frame" else a["tt" + u] if kind[0] == "T" else a["t" + u]
    x = o[0] + margin["left"] + thick["left"]
    xs = []
    for j in range(c):
        xs.append(x)
        x += cw[j] + (gx[j] if j < c - 1 else 0)
    W = x + thick["right"] + margin["right"] - o[0]
    H = margin["bottom"] + thick["bottom"] + sum(rh) + sum(gy) + thick["top"] + margin["top"]
    y = o[1] + H - margin["top"] - thick["top"]
    ys = []
    for i in range(r):
        y -= rh[i]
        ys.append(y)
        y -= gy[i] if i < r - 1 else 0
    X = []

    def new(p):
        X.append([float(p[0]), float(p[1])])
        return len(X) - 1

    figq = [new(v) for v in g.box(o[0], o[1], W, H)]
    prims, keys, cons = [["Figure", ["Q", figq]]], [], []

    def add(n, refs, p=(), **kw):
        cons.append(dict(n=n, kw=kw, refs=list(refs), p=list(p)))
    add("Box", ["Figure"])
    add("Fix", ["Figure/Line0/Point0"], [list(o)])
    group = draw(st.integers(0, 3)) == 0
    base = draw(st.sampled_from(["Axes", "MyAxes", "Axes"]))
    groups = []
    for k in range(n):
        a = axs[k]
        f = g.box(xs[k % c], ys[k // c], cw[k % c], rh[k // c])
        key = f"{base}{k}"
        if group and k % 2 == 0:
            path = f"Panel/{key}"
        else:
            path = key
        keys.append(path)
        parts = [[new(v) for v in f]]
        opts = dict(xaxis=a["xaxis"], yaxis=a["yaxis"], twinx=a["twinx"], twiny=a["twiny"])
        extra = []
        for u, twin in (("x", False), ("y", False), ("x", True), ("y", True)):
            if not (a["twin" + u] if twin else a[u + "axis"]):
                continue
            side = g.OPP[a["side" + u]] if twin else a["side" + u]
            t = a["tt" + u] if twin else a["t" + u]
            b = outer_box(f, side, t)
            # label: fraction along the frame, outward of the axis box by the pad
            pad = a["pad" + u]
            fx = a["at" + u]
            lx = f[0][0] + fx * (f[1][0] - f[0][0])
            ly = f[0][1] + fx * (f[2][1] - f[0][1])
            l = {"bottom": [lx, f[0][1] - t - pad], "top": [lx, f[2][1] + t + pad],
                 "left": [f[0][0] - t - pad, ly], "right": [f[2][0] + t + pad, ly]}[side]
            if a["how" + u] == "none":
                l = None
            parts.append([[new(v) for v in b], new(l or [0, 0])])
            name = ("Twin" if twin else "") + u.upper() + "Axis"
            add("Box", [f"{path}/{name}"])
            if not twin:
                add(f"Position{u.upper()}Axis", [path], side=side, twin=a["twin" + u])
            if t == 0.0 and not twin and draw(st.booleans()):
                add(f"{u.upper()}AxisThickness", [f"{path}/{name}"], [None])
            else:
                add("Height" if u == "x" else "Width", [f"{path}/{name}"], [t])
            edge = {"bottom": "Line0", "right": "Line1", "top": "Line2", "left": "Line3"}[side]
            if a["how" + u] == "line":
                add(f"Position{u.upper()}AxisLabel", [path], [fx], twin=twin)
                add("PointToLineDistance", [f"{path}/{name}Label", f"{path}/{name}/{edge}"], [True, pad])
            elif a["how" + u] == "offset":
                corner0 = f"{path}/Frame/Line0/Point0"
                add("XDistance", [corner0, f"{path}/{name}Label"], [l[0] - f[0][0]])
                add("YDistance", [corner0, f"{path}/{name}Label"], [l[1] - f[0][1]])
            extra.append((path, name, side, t, l))
        a["extra"] = [e[1:] for e in extra]
        add("Box", [f"{path}/Frame"])
        s = ["A", opts, parts]
        if group and k % 2 == 0:
            groups.append([key, s])
        else:
            prims.append([key, s])
    if groups:
        prims.insert(draw(st.integers(0, len(prims))), ["Panel", ["N", groups]])
    frames = [f"{p}/Frame" for p in keys]
    # grid
    sized = draw(st.sampled_from(["frames", "figure", "aspect"]))
    style = draw(st.sampled_from(["Grid", "Grid", "Rectilinear", "pairs"]))
    if n > 1:
        if style == "Grid":
            add("Grid", frames, [[w / cw[0] for w in cw[1:]], [h / rh[0] for h in rh[1:]], gx, gy], shape=[r, c])
        else:
            if style == "Rectilinear":
                add("RectilinearGrid", frames, shape=[r, c])
            else:
                for i in range(r):
                    for j in range(1, c):
                        add("AlignRow", [frames[i * c], frames[i * c + j]])
                for j in range(c):
                    for i in range(1, r):
                        add("AlignColumn", [frames[j], frames[i * c + j]])
            for j in range(1, c):
                if sized == "frames" and draw(st.booleans()):
                    add("Width", [frames[j]], [cw[j]])
                else:
                    add("RelativeLength", [frames[j] + "/Line0", frames[0] + "/Line0"], [cw[j] / cw[0]])
            for i in range(1, r):
                if sized == "frames" and draw(st.booleans()):
                    add("Height", [frames[i * c]], [rh[i]])
                else:
                    add("RelativeLength", [frames[i * c] + "/Line1", frames[0] + "/Line1"], [rh[i] / rh[0]])
            if c > 1:
                if draw(st.booleans()):
                    add("OuterMarginArray", frames[:c], gx, shape=[c], side="right")
                else:
                    for j in range(1, c):
                        add("OuterMargin-left", [frames[j], frames[j - 1]], [gx[j - 1]])
            if r > 1:
                for i in range(1, r):
                    add("OuterMargin-bottom", [frames[(i - 1) * c], frames[i * c]], [gy[i - 1]])
    # sizes
    if sized == "frames":
        add("Width", [frames[0]], [cw[0]])
        add("Height", [frames[0]], [rh[0]])
    elif sized == "aspect":
        add("Width", [frames[0]], [cw[0]])
        add("AspectRatio", [frames[0]], [cw[0] / rh[0]])
    else:
        add("Width", ["Figure"], [W])
        add("Height", ["Figure"], [H])
    for s in g.SIDES:
        path = keys[at[s]]
        add(f"InnerMargin-{s}", [f"{path}/{target[s]}", "Figure"], [margin[s]])
    order = draw(st.sampled_from(["as is", "reversed", "shuffled"]))
    rng = np.random.RandomState(draw(st.integers(0, 9999)))
    if order == "reversed":
        cons.reverse()
    elif order == "shuffled":
        cons = [cons[i] for i in rng.permutation(len(cons))]
    kind = draw(st.sampled_from(start))
    if kind == "default":
        S = [None] * len(X)
        for _, s in lay.paths(prims):
            if s[0] == "Q":
                for i, p in zip(s[1], g.box(0, 0, 1, 1)):
                    S[i] = [float(v) for v in p]
            if s[0] == "P" and S[s[1]] is None:
                S[s[1]] = [0.0, 0.0]
    elif kind == "near":
        S = [[float(v) for v in p] for p in np.array(X) + rng.uniform(-1, 1, (len(X), 2)) * 0.02]
    elif n > 1:
        # (alignment is no linear relation: Newton's method is not bound to find it from everywhere)
        kind = "moved"
        a, b = rng.choice([0.5, 1, 1.5, 3], 2), rng.randint(-80, 80, 2) / 4
        S = [[float(v) for v in p] for p in np.array(X) * a + b + rng.uniform(-1, 1, (len(X), 2)) * 0.02]
    else:
        # every box somewhere else, of another size
        S = [None] * len(X)
        for _, s in lay.paths(prims):
            if s[0] == "Q":
                x, y, w, h = rng.randint(-20, 20) / 4, rng.randint(-20, 20) / 4, rng.randint(1, 20) / 4, rng.randint(1, 20) / 4
                for i, p in zip(s[1], g.box(x, y, w, h)):
                    S[i] = [float(v) for v in p]
            if s[0] == "P" and S[s[1]] is None:
                S[s[1]] = [float(v) for v in rng.randint(-20, 20, 2) / 4]
    decl = dict(W=W, H=H, origin=o, keys=keys, shape=[r, c], cw=cw, rh=rh, gx=gx, gy=gy, margin=margin, target=target,
                axes=axs, sized=sized, style=style)
    return dict(prims=prims, X=X, S=S, cons=cons, start=kind, decl=decl)


def free_points(spec):
    """Label points that no constraint places"""
    out = set()
    for key, a in zip(spec["decl"]["keys"], spec["decl"]["axes"]):
        for name, side, t, l in a["extra"]:
            if l is None:
                out.add(lay.find(spec, f"{key}/{name}Label")[1])
    return out

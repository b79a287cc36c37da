"""Every built-in construction and constraint applied to random geometry"""

from hypothesis import strategies as st

from . import gen, geom as g, lay, meas, mk

NAMES = sorted(meas.MEAS) + [f"c:{n}" for n in sorted(lay.CONS) if not n.startswith("Built")]


@st.composite
def axes_raw(draw, opts):
    parts = [draw(gen.box())]
    for o in ("xaxis", "yaxis", "twinx", "twiny"):
        if opts[o]:
            parts.append([draw(gen.quad()), draw(gen.point)])
    return dict(opts, parts=parts)


def axes_opts(draw, need):
    opts = {o: o in need or draw(st.booleans()) for o in ("xaxis", "yaxis")}
    opts["twinx"] = "twinx" in need or (opts["xaxis"] and draw(st.booleans()))
    opts["twiny"] = "twiny" in need or (opts["yaxis"] and draw(st.booleans()))
    return opts


@st.composite
def application(draw, pool=None):
    """dict(name, kw, kinds, raws, params)"""
    name = draw(st.sampled_from(pool or NAMES))
    kw = {}
    if not name.startswith("c:"):
        m = meas.MEAS[name]
        return dict(name=name, kw=kw, kinds=m.kinds, raws=[draw(meas.KINDS[k]) for k in m.kinds], params=[draw(s) for s in m.params])
    n = name[2:]
    c = lay.CONS[n]
    kinds, params = c.kinds, []
    need = []
    if c.value is not None:
        m = c.value
        raws = [draw(meas.KINDS[k]) for k in kinds]
        params = [draw(s) for s in m.params]
        if m.name in ("Coordinate",):
            params.append([draw(gen.coord), draw(gen.coord)])
        else:
            params.append(draw(gen.coord))
        return dict(name=name, kw=kw, kinds=kinds, raws=raws, params=params)
    if n == "RelativeLength":
        params = [draw(gen.size)]
    elif n == "CoincidentLines":
        params = [draw(st.booleans())]
    elif n in ("Grid", "RectilinearGrid"):
        r, k = draw(st.integers(1, 3)), draw(st.integers(1, 4))
        kw = dict(shape=[r, k])
        kinds = "Q" * (r * k)
        if n == "Grid":
            f = lambda m: [draw(gen.nums(0.25, 3, 4)) for _ in range(m)]
            params = [f(k - 1), f(r - 1), f(k - 1), f(r - 1)]
    elif n == "OuterMarginArray":
        k = draw(st.integers(1, 5))
        kw = dict(shape=[k], side=draw(gen.sides))
        kinds = "Q" * k
        params = [draw(gen.coord) for _ in range(k - 1)]
    elif n.startswith("Position"):
        u = n[8].lower()
        need = [u + "axis"]
        kw = dict(twin=draw(st.booleans()))
        if kw["twin"]:
            need.append("twin" + u)
        if n.endswith("Label"):
            params = [draw(gen.nums(-1, 2, 8))]
        else:
            kw["side"] = draw(st.sampled_from(("bottom", "top") if u == "x" else ("left", "right")))
    elif n.endswith("Thickness"):
        params = [None]
    raws = []
    for k in kinds:
        raws.append(draw(axes_raw(axes_opts(draw, need))) if k == "A" else draw(meas.KINDS[k]))
    return dict(name=name, kw=kw, kinds=kinds, raws=raws, params=params)


def make(case):
    if case["name"].startswith("c:"):
        return lay.CONS[case["name"][2:]].make(case["kw"])
    return meas.MEAS[case["name"]].make()


def prims(case):
    return tuple(mk.axes(r) if k == "A" else mk.KIND[k](r) for k, r in zip(case["kinds"], case["raws"]))


def ok(case, least=0.02):
    """Whether every line and edge has some length"""
    for k, r in zip(case["kinds"], case["raws"]):
        qs = [p if i == 0 else p[0] for i, p in enumerate(r["parts"])] if k == "A" else [r] if k == "Q" else []
        if any(min(g.length((q[i], q[(i + 1) % 4])) for i in range(4)) < least for q in qs):
            return False
        if k == "L" and g.length(r) < least:
            return False
    return True


def scale(case):
    flat = [1.0]

    def walk(x):
        if isinstance(x, dict):
            walk(x["parts"])
        elif isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, (int, float)):
            flat.append(abs(x))
    walk(case["raws"])
    s = max(flat)
    for p in case["params"]:
        flat = [1.0]
        walk(p)
        s *= max(flat)
    return s

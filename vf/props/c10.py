"""C10: grid constraints describe a grid of any shape"""

import numpy as np
from hypothesis import strategies as st

from vf import gen, geom as g, mk
from vf.core import close, label, require, single, slack, sub, vec, Violation

from mpllayout import constraints as cr
from mpllayout.layout import Layout


@st.composite
def grid(draw, rmax=5, cmax=5, cells=16):
    """Cells row-major from the top left; sizes, gaps; possibly sheared; possibly one cell changed"""
    r, c = draw(st.integers(1, rmax)), draw(st.integers(1, cmax))
    while r * c > cells:
        r, c = max(1, r - 1), max(1, c - 1)
    ratio = st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0, 0.25, 0.7])
    w0, h0 = draw(gen.size), draw(gen.size)
    wr = [draw(ratio) for _ in range(c - 1)]
    hr = [draw(ratio) for _ in range(r - 1)]
    cm = [draw(gen.nums(-1, 2, 8)) for _ in range(c - 1)]
    rm = [draw(gen.nums(-1, 2, 8)) for _ in range(r - 1)]
    x0, y0 = draw(gen.coord), draw(gen.coord)
    ws, hs = [w0] + [w0 * f for f in wr], [h0] + [h0 * f for f in hr]
    quads = []
    y = y0
    for i in range(r):
        x = x0
        for j in range(c):
            quads.append(g.box(x, y - hs[i], ws[j], hs[i]))
            if j < c - 1:
                x += ws[j] + cm[j]
        if i < r - 1:
            y -= hs[i] + rm[i]
    case = dict(r=r, c=c, quads=quads, wr=wr, hr=hr, cm=cm, rm=rm, change=None)
    kind = draw(st.sampled_from(["none", "none", "vertex", "vertex", "vertex", "shift", "resize", "param"]))
    if kind == "param":
        lists = [k for k in ("wr", "hr", "cm", "rm") if case[k]]
        if lists:
            k = draw(st.sampled_from(lists))
            i = draw(st.integers(0, len(case[k]) - 1))
            case[k] = list(case[k])
            case[k][i] += draw(gen.anyoff)
            case["change"] = [k, i]
    elif kind != "none":
        n = draw(st.integers(0, r * c - 1))
        d = draw(gen.anyoff)
        q = [list(v) for v in quads[n]]
        if kind == "vertex":
            v, a = draw(st.integers(0, 3)), draw(st.integers(0, 1))
            q[v][a] += d
            case["change"] = ["vertex", n, v, a]
        elif kind == "shift":
            a = draw(st.integers(0, 1))
            for v in q:
                v[a] += d
            case["change"] = ["shift", n, a]
        else:
            side = draw(gen.sides)
            for k in g.EDGE[side]:
                q[k][0 if side in ("left", "right") else 1] += d
            case["change"] = ["resize", n, side]
        case["quads"] = quads[:n] + [q] + quads[n + 1:]
    if draw(st.integers(0, 3)) == 0:
        case["shear"] = [draw(gen.nums(-1, 1, 4)), draw(gen.nums(-1, 1, 4)) * 0.5]
    return case


def degenerate(quads):
    return any(min(g.length((q[i], q[(i + 1) % 4])) for i in range(4)) < 0.02 for q in quads)


def aligned_err(quads, r, c):
    err = 0.0
    for i in range(r):
        for j in range(c):
            for k in range(j + 1, c):
                err = max(err, g.align_row_err(quads[i * c + j], quads[i * c + k]))
    for j in range(c):
        for i in range(r):
            for k in range(i + 1, r):
                err = max(err, g.align_col_err(quads[i * c + j], quads[k * c + j]))
    return err


def size_err(case):
    q, r, c = case["quads"], case["r"], case["c"]
    L = lambda quad, s: g.length(g.edge(quad, s))
    errs = [0.0]
    for j in range(1, c):
        errs.append(abs(L(q[j], "bottom") - case["wr"][j - 1] * L(q[0], "bottom")))
    for i in range(1, r):
        errs.append(abs(L(q[i * c], "right") - case["hr"][i - 1] * L(q[0], "right")))
    for j in range(c - 1):
        errs.append(abs(g.outer_margin(q[j], q[j + 1], "right") - case["cm"][j]))
    for i in range(r - 1):
        errs.append(abs(g.outer_margin(q[i * c], q[(i + 1) * c], "bottom") - case["rm"][i]))
    return max(errs)


def verdict(res, err, s, what):
    require(np.all(np.isfinite(res)), "%s: residual %s", what, res.tolist())
    big = float(np.max(np.abs(res))) if res.size else 0.0
    if err <= 1e-11 * s:
        require(big <= 1e-9 * s * s * slack(), "%s: relation holds but the residual is up to %g", what, big)
        return "holds"
    if err >= (1e-5 if slack() == 1 else 0.1):
        require(big >= 1e-6 * err, "%s: relation is broken by %g but the residual is only %g", what, err, big)
        return "broken"
    return None


def shear(case):
    k = case.get("shear")
    if not k or abs(1 - k[0] * k[1]) < 0.2:
        return case["quads"]
    return [[[x + k[0] * y, y + k[1] * x] for x, y in q] for q in case["quads"]]


@sub("C10", "rectilinear", grid(), quick=2100, shards=8, weight=12,
     rule="RectilinearGrid on an r x c grid (1..5 each, up to 16 cells, possibly sheared), exact or with one cell changed; non-trivial if r*c > 1")
def rectilinear(case):
    quads, r, c = shear(case), case["r"], case["c"]
    if degenerate(quads):
        return False
    res = vec(cr.RectilinearGrid(shape=(r, c))(tuple(mk.quad(q) for q in quads)))
    v = verdict(res, aligned_err(quads, r, c), g.pts_scale(quads), f"RectilinearGrid({r},{c}) change {case['change']} of {quads}")
    if v:
        label(f"{v}", f"{r}x{c}")
    return bool(v) and r * c > 1


@sub("C10", "dimensioned", grid(), quick=2100, shards=8, weight=16,
     rule="Grid on an r x c grid of boxes, exact or with one cell or one parameter changed; non-trivial if r*c > 1")
def dimensioned(case):
    quads, r, c = case["quads"], case["r"], case["c"]
    if degenerate(quads):
        return False
    params = tuple(np.array(case[k], dtype=float) for k in ("wr", "hr", "cm", "rm"))
    res = vec(cr.Grid(shape=(r, c))(tuple(mk.quad(q) for q in quads), *params))
    err = max(aligned_err(quads, r, c), size_err(case))
    v = verdict(res, err, g.pts_scale(quads), f"Grid({r},{c}) change {case['change']} ratios {case['wr']},{case['hr']} gaps {case['cm']},{case['rm']} of {quads}")
    if v:
        label(f"{v}", f"{r}x{c}")
    return bool(v) and r * c > 1


@st.composite
def misfit(draw):
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    right = [c - 1, r - 1, c - 1, r - 1]
    sizes = [max(0, n + d) for n, d in zip(right, draw(st.lists(st.sampled_from([0, 0, 0, 1, -1, 2]), min_size=4, max_size=4)))]
    if draw(st.booleans()):
        i = draw(st.integers(0, 3))
        sizes = right[:i] + [sizes[i]] + right[i + 1:]
    return dict(r=r, c=c, sizes=sizes, value=draw(gen.size), side=draw(gen.sides), n=draw(st.integers(1, 6)), extra=draw(st.sampled_from([1, -1, 2, -2])))


@sub("C10", "wrong sizes", misfit(), quick=1200, shards=4, weight=6,
     rule="grids with too many or too few widths, heights or margins and margin arrays with too many or too few margins; non-trivial if a grid array has the wrong length")
def wrong_sizes(case):
    r, c, sizes = case["r"], case["c"], case["sizes"]
    right = [c - 1, r - 1, c - 1, r - 1]
    quads = tuple(mk.quad(g.box(1.5 * j, -1.25 * i, 1, 1)) for i in range(r) for j in range(c))
    params = tuple(np.full(n, case["value"]) for n in sizes)
    grid = cr.Grid(shape=(r, c))
    bad = False
    if sizes == right:
        vec(grid(quads, *params))
    else:
        bad = True
        l = Layout()
        for i, q in enumerate(quads):
            l.add_prim(q, f"Q{i}")
        keys = tuple(f"Q{i}" for i in range(r * c))
        what = f"a {r} by {c} grid with {sizes} instead of {right} widths, heights, column and row margins"
        for name, f in (("calling", lambda: grid(quads, *params)), ("adding", lambda: l.add_constraint(grid, keys, params))):
            try:
                f()
            except Exception:
                continue
            raise Violation(f"{name} {what} did not raise")
        label("too many" if any(a > b for a, b in zip(sizes, right)) else "too few")
    n = case["n"]
    m = max(0, n - 1 + case["extra"])
    if m != n - 1:
        chain = cr.OuterMarginArray(shape=(n,), side=case["side"])
        qs = tuple(mk.quad(g.box(1.5 * j, 0, 1, 1)) for j in range(n))
        try:
            chain(qs, *[case["value"]] * m)
        except Exception:
            pass
        else:
            raise Violation(f"a margin array of {n} quadrilaterals accepts {m} margins")
    return bad


@st.composite
def chain(draw):
    n = draw(st.one_of(st.integers(1, 13), st.integers(1, 13), st.integers(1, 13), st.integers(14, 40)))
    side = draw(gen.sides)
    quads = [draw(gen.quad()) for _ in range(n)]
    gaps = [g.outer_margin(quads[k], quads[k + 1], side) for k in range(n - 1)]
    if gaps and draw(st.booleans()):
        gaps[draw(st.integers(0, n - 2))] += draw(gen.anyoff)
    return dict(side=side, quads=quads, gaps=gaps, number=draw(st.integers(0, 2)) == 0)


@sub("C10", "margin array", chain(), quick=1500, shards=4, weight=6,
     rule="OuterMarginArray on 1..40 quadrilaterals on a drawn side; non-trivial from 2 on")
def margin_array(case):
    quads, n, side = case["quads"], len(case["quads"]), case["side"]
    # the documentation allows for a number or a tuple
    res = cr.OuterMarginArray(shape=n if case.get("number") else (n,), side=side)(tuple(mk.quad(q) for q in quads), *case["gaps"])
    want = [g.outer_margin(quads[k], quads[k + 1], side) - case["gaps"][k] for k in range(n - 1)]
    close(res, want, f"OuterMarginArray({n}, {side}) residuals", atol=1e-10 * g.pts_scale(quads))
    label(side, f"n={n}")
    return n > 1


@sub("C10", "large", st.tuples(grid(14, 14, 40), st.booleans()), quick=64, shards=8, weight=60, stride=4, rule="the same for grids of up to fourteen rows or columns")
def big(case):
    case, dimension = case
    return dimensioned(case) if dimension else rectilinear(case)


def tame(case):
    return g.pts_scale(*case["quads"]) < 100


single("C10", "rectilinear", grid(), lambda c: tame(c) and rectilinear(c), quick=600, shards=8, weight=12, rule="coordinates up to a hundred; broken by 0.1 or more")
single("C10", "dimensioned", grid(), lambda c: tame(c) and dimensioned(c), quick=600, shards=8, weight=12, rule="coordinates up to a hundred; broken by 0.1 or more")
single("C10", "margin array", chain(), lambda c: tame(c) and margin_array(c), quick=400, shards=4, weight=8, rule="coordinates up to a hundred")

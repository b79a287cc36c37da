"""C01: solving a consistent layout yields geometry satisfying every constraint"""

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from .. import core, figs, large as lg, lay
from ..core import eager, interpreted, label, require, single, sub

from mpllayout import containers as cn, primitives as pr, solver

P = "C01"


def describe(c):
    return f"{c['n']}({c.get('kw') or ''}) on {c['refs']} with {c['p']}" if c else ""


def scale(spec):
    return lay.size(spec["X"], spec["S"])


def solved(spec, tol, **kw):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, **kw)
    X = lay.read(root, spec)
    e, c = lay.worst(spec, X)
    require(e <= tol * core.slack(1e4) * scale(spec), "the solution misses %s by %g (start: %s)", describe(c), e, spec["start"])
    return X, info


def start_error(spec):
    e, _ = lay.worst(spec, spec["S"])
    return e


@sub(P, "linear any start", lay.linear(wide=True), quick=176, thorough=4000, shards=8, weight=60, stride=5, want=lambda s: len(s["cons"]) > 1 and start_error(s) > 1e-3,
     rule="two or more relations, broken at the start by more than 1e-3")
def linear(spec):
    label(f"start {spec['start']}", *sorted({c["n"].split("-")[0] for c in spec["cons"]}))
    label(f"relations {min(len(spec['cons']), 12) // 4 * 4}+")
    solved(spec, 1e-8)
    return len(spec["cons"]) > 1 and start_error(spec) > 1e-3


@sub(P, "curved near start", lay.curved(), quick=140, thorough=3000, shards=8, weight=80, stride=5, want=lambda s: s["curved"] > 0,
     rule="some relation not linear in the coordinates, broken at the start by more than 1e-6")
def curved(spec):
    label(*sorted({c["n"].split("-")[0] for c in spec["cons"]}))
    label(f"curved relations {spec['curved']}")
    solved(spec, 1e-7)
    return spec["curved"] > 0 and start_error(spec) > 1e-6


def newton_errors(spec, steps):
    """Residual norms of plain Newton iterations on the constraints, called one by one, from the start and from right beside it"""
    root = lay.layout(spec).root_prim
    flat = cn.flatten("", root)
    index, values = pr.filter_unique_values_from_prim(root)
    bounds = np.cumsum([0] + [v.size for v in values])

    @jax.jit
    def res(x):
        tree = pr.build_prim_from_unique_values(flat, index, [x[a:b] for a, b in zip(bounds[:-1], bounds[1:])])
        return jnp.concatenate([lay.CONS[c["n"]].make(c.get("kw", {}))(tuple(tree[r] for r in c["refs"]), *lay.con_params(c)) for c in spec["cons"]])
    jac = jax.jit(jax.jacfwd(res))
    out = []
    for shift in (0.0, 1e-6):
        x, errs = np.concatenate(values) + shift * np.random.RandomState(1).uniform(-1, 1, bounds[-1]), []
        for _ in range(steps):
            r = np.asarray(res(x))
            errs.append(float(np.linalg.norm(r)))
            if not np.isfinite(errs[-1]):
                break
            x = x - np.linalg.lstsq(np.asarray(jac(x)), r, rcond=None)[0]
        out.append(errs)
    return out


@sub(P, "curved within reach", st.one_of(lay.curved(delta=0.4), lay.curved(delta=1.5), lay.curved(delta=4.0)), quick=48, thorough=1500, shards=8, weight=200,
     stride=6, want=lambda s: s["curved"] > 0, rule="some relation not linear, and plain Newton iterations from the start find a solution in 8 steps")
def within_reach(spec):
    if not spec["curved"]:
        return False
    with np.errstate(all="ignore"):
        histories = newton_errors(spec, 9)
    for errs in histories:
        if len(errs) < 9 or errs[-1] > 1e-9 * scale(spec) or max(errs) > 1e3 * scale(spec) ** 2:
            label("out of reach")
            return False
    first = histories[0]
    label("error grows first" if first[1] > first[0] else "error shrinks", f"steps {sum(e > 1e-9 * scale(spec) for e in first)}")
    solved(spec, 1e-7)
    return start_error(spec) > 1e-6


def wanted(spec):
    # from afar, a prescribed aspect ratio can send Newton's method astray
    return spec["start"] == "near" or spec["decl"]["sized"] != "aspect"


def check_figure(spec):
    if not wanted(spec):
        return False
    d = spec["decl"]
    label(f"start {spec['start']}", f"style {d['style']}", f"sized {d['sized']}", f"shape {d['shape']}",
          "grouped" if any(k[0] == "Panel" for k, _ in [(p, 0) for p in d["keys"]]) else "flat")
    X, _ = solved(spec, 1e-7, max_iter=40)
    free = figs.free_points(spec)
    for i, (a, b) in enumerate(zip(X, spec["X"])):
        if i not in free:
            require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 1e-6 * core.slack(1e3) * scale(spec),
                    "a fully determined point of the figure is at %r instead of %r", a, b)
    return True


@sub(P, "figures", figs.figure(2, 2), quick=56, thorough=1500, shards=8, weight=260, stride=6, want=wanted,
     rule="a figure layout whose every placed point is determined by the declared inches")
def figures(spec):
    return check_figure(spec)


@sub(P, "large grids", figs.figure(3, 3), quick=8, thorough=400, shards=8, weight=500, stride=30, want=lambda s: wanted(s) and sum(s["decl"]["shape"]) > 4,
     rule="a figure layout whose every placed point is determined by the declared inches")
def large(spec):
    return check_figure(spec)


interpreted(P, "linear any start", lay.linear(wide=True), linear, quick=400, thorough=40000, shards=8, weight=12, stride=3, want=lambda s: len(s["cons"]) > 1 and start_error(s) > 1e-3,
            rule="two or more relations, broken at the start by more than 1e-3")
interpreted(P, "curved near start", lay.curved(), curved, quick=320, thorough=30000, shards=8, weight=16, stride=3, want=lambda s: s["curved"] > 0,
            rule="some relation not linear in the coordinates, broken at the start by more than 1e-6")
interpreted(P, "figures", figs.figure(3, 3), figures, quick=24, thorough=4000, shards=8, weight=200, stride=4, want=wanted,
            rule="a figure layout whose every placed point is determined by the declared inches")


def check_large(d):
    spec = lay.big(d)
    X, _ = solved(spec, 1e-8)
    for i, (a, b) in enumerate(zip(X, spec["X"])):
        require(max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 1e-7 * scale(spec), "point %d, determined by the relations, is at %r instead of %r", i, a, b)
    label(f"relations {len(spec['cons']) // 100 * 100}+")
    return True


@sub(P, "many primitives", lg.sizes(20, 45), quick=4, thorough=400, shards=4, weight=900, stride=5, want=lg.fresh, rule="20 to 45 points, every one determined by 40 to 100 relations")
def many(d):
    return check_large(d)


interpreted(P, "many primitives", lg.sizes(30, 160), check_large, quick=24, thorough=3000, shards=8, weight=300, stride=5, want=lg.fresh,
            rule="30 to 160 points, every one determined by 60 to 370 relations")


single(P, "linear", lay.linear(), eager(linear), quick=240, thorough=20000, shards=8, weight=12, stride=3, want=lambda s: len(s["cons"]) > 1 and start_error(s) > 1e-3,
       rule="two or more relations, broken at the start by more than 1e-3")
single(P, "curved", lay.curved(), eager(curved), quick=200, thorough=15000, shards=8, weight=16, stride=3, want=lambda s: s["curved"] > 0,
       rule="some relation not linear in the coordinates, broken at the start by more than 1e-6")
single(P, "figures", figs.figure(2, 2), eager(figures), quick=16, thorough=2000, shards=8, weight=200, stride=4, want=wanted,
       rule="a figure layout whose every placed point is determined by the declared inches")

"""C05: the minimisation method solves well-posed layouts like Newton's method does"""

import numpy as np
from hypothesis import strategies as st

from .. import core, figs, large, lay
from ..core import label, require, sub

from mpllayout import solver

P = "C05"
ACC = 2e-3  # L-BFGS-B stops by its own criteria on the squared residual


def norm(spec, root):
    return float(np.linalg.norm(lay.residual(spec, None, root)))


@sub(P, "never worse", st.fixed_dictionaries(dict(spec=st.one_of(lay.linear(4, 8), lay.curved(3, 8)), max_iter=st.integers(1, 12))),
     quick=240, thorough=4000, shards=8, weight=60, stride=4, want=lambda c: bool(c["spec"]["cons"]), rule="relations broken at the start")
def never_worse(c):
    spec = c["spec"]
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method="minimize", max_iter=c["max_iter"])
    a, b = norm(spec, l.root_prim), norm(spec, root)
    require(b <= a * (1 + 1e-9) + 1e-12, "the residual grew from %g to %g in %d iterations", a, b, c["max_iter"])
    label("converged" if b < 1e-6 else "improved" if b < a else "same")
    return a > 1e-6


@sub(P, "linear", lay.linear(4, 8, start=st.sampled_from(["near", "random", "unit", "zero", "far"])), quick=250, thorough=4000, shards=8, weight=60, stride=4,
     want=lambda s: len(s["cons"]) > 1, rule="two or more relations, broken at the start")
def linear(spec):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method="minimize", max_iter=5000, abs_tol=1e-12, rel_tol=1e-14)
    X = lay.read(root, spec)
    e, c = lay.worst(spec, X)
    label("within 1e-6" if e < 1e-6 else "within 1e-4" if e < 1e-4 else "within 1e-2")
    require(e <= 0.2 * ACC * lay.size(spec["X"], spec["S"]), "minimisation misses %s on %s by %g", c and c["n"], c and c["refs"], e)
    return lay.worst(spec, spec["S"])[0] > 1e-2


@sub(P, "curved", lay.curved(4, 8, delta=0.05), quick=200, thorough=2000, shards=8, weight=60, stride=4, want=lambda s: s["curved"] > 0,
     rule="some relation not linear in the coordinates; the start clearly misses")
def curved(spec):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method="minimize", max_iter=5000, abs_tol=1e-12, rel_tol=1e-14)
    X = lay.read(root, spec)
    e, c = lay.worst(spec, X)
    label("within 1e-6" if e < 1e-6 else "within 1e-4" if e < 1e-4 else "within 1e-2")
    require(e <= ACC * lay.size(spec["X"], spec["S"]), "minimisation misses %s on %s by %g", c and c["n"], c and c["refs"], e)
    return lay.worst(spec, spec["S"])[0] > 5 * ACC


@sub(P, "figures", figs.figure(1, 2, start=("near",)), quick=64, thorough=800, shards=8, weight=250, stride=6, rule="a figure layout with axes")
def figures(spec):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method="minimize", max_iter=5000, abs_tol=1e-12, rel_tol=1e-14)
    X = lay.read(root, spec)
    e, c = lay.worst(spec, X)
    label("within 1e-6" if e < 1e-6 else "within 1e-4" if e < 1e-4 else "within 1e-2")
    require(e <= ACC * lay.size(spec["X"], spec["S"]), "minimisation misses %s on %s by %g", c and c["n"], c and c["refs"], e)
    return True


@sub(P, "many primitives", large.sizes(8, 30), quick=24, thorough=800, shards=8, weight=250, stride=5, want=large.fresh, rule="8 to 30 points, every one determined by the relations")
def many(d):
    spec = lay.big(d)
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, method="minimize", max_iter=5000, abs_tol=1e-12, rel_tol=1e-14)
    X = lay.read(root, spec)
    e, c = lay.worst(spec, X)
    label("within 1e-6" if e < 1e-6 else "within 1e-4" if e < 1e-4 else "within 1e-2", f"iterations {len(info['abs_errs']) // 50 * 50}+")
    require(e <= ACC * lay.size(spec["X"], spec["S"]), "minimisation misses %s on %s by %g", c and c["n"], c and c["refs"], e)
    return True

"""C03: the solver's error report is truthful and its limits are honoured"""

import numpy as np
from hypothesis import strategies as st

from .. import core, gen, lay
from ..core import close, interpreted, label, raises, require, sub

from mpllayout import solver

P = "C03"


def norm(spec, root):
    return float(np.linalg.norm(lay.residual(spec, None, root)))


def run(spec, **kw):
    l = lay.layout(spec)
    with np.errstate(all="ignore"):
        root, info = solver.solve(l, **kw)
    return l, root, info


@st.composite
def system(draw, far=True):
    """Consistent or contradictory layouts, any start"""
    spec = draw(st.one_of(lay.linear(3, 6), lay.curved(3, 6)))
    if not spec["cons"]:
        return spec
    spec["twisted"] = False
    if draw(st.integers(0, 2)) == 0:
        # contradictory: state a relation again with another value
        cs = [c for c in spec["cons"] if c["p"] and not isinstance(c["p"][-1], bool)]
        if cs:
            c = dict(draw(st.sampled_from(cs)))
            d = draw(gen.nums(0.25, 2, 4))
            c["p"] = c["p"][:-1] + [[v + d for v in c["p"][-1]] if isinstance(c["p"][-1], list) else c["p"][-1] + d]
            spec["cons"] = spec["cons"] + [c]
            spec["twisted"] = True
    if far and spec["start"] == "near" and draw(st.integers(0, 3)):
        f = draw(st.sampled_from([1, 1, 3]))
        spec["S"] = [[a + f * draw(gen.nums(-1, 1, 8)), b + f * draw(gen.nums(-1, 1, 8))] for a, b in spec["S"]]
    return spec


tols = st.one_of(st.sampled_from([0.0, 1e-14, 1e-10, 1e-7]), st.integers(-9, 1).map(lambda k: 10.0 ** k))


@st.composite
def case(draw, method):
    c = dict(spec=draw(system()), abs_tol=draw(tols), rel_tol=draw(st.one_of(st.just(0.0), tols)),
             max_iter=draw(st.sampled_from([1, 2, 3, 4, 5, 10, 12, 30] + ([0, 60] if method == "newton" else []))), k=draw(st.integers(0, 3)))
    return c


def finite(errs):
    return bool(np.all(np.isfinite(errs)))


def well_formed(info, max_iter):
    require(set(info) >= {"abs_errs", "rel_errs"}, "the report has entries %r", sorted(info))
    a, r = list(info["abs_errs"]), list(info["rel_errs"])
    require(len(a) == len(r), "%d absolute but %d relative errors", len(a), len(r))
    require(len(a) <= max_iter, "%d errors reported for at most %d iterations", len(a), max_iter)
    a, r = np.array([float(v) for v in a]), np.array([float(v) for v in r])
    if len(a) and finite(a) and a[0] > 0:
        close(r, a / a[0], "relative errors are absolute errors over the first", rtol=1e-9)
    return a, r


def size_of(spec):
    return lay.size(spec["X"], spec["S"]) ** 2


def runs_into_a_corner(spec, max_iter):
    """Whether the iterations come to a geometry at which some residual has no derivative, such as a line of length zero"""
    for k in range(max_iter):
        try:
            _, root, _ = run(spec, abs_tol=0.0, rel_tol=0.0, max_iter=k)
        except np.linalg.LinAlgError:
            return False
        if not np.all(np.isfinite(lay.jacobian(spec, root))):
            return True
    return False


@sub(P, "newton", case("newton"), quick=240, thorough=2500, shards=8, weight=110, stride=5,
     want=lambda c: len(c["spec"]["cons"]) > 0, rule="at least two errors reported")
def newton(c):
    spec, tol = c["spec"], 1e-11 * size_of(c["spec"])
    kw = dict(abs_tol=c["abs_tol"], rel_tol=c["rel_tol"])
    try:
        l, root, info = run(spec, max_iter=c["max_iter"], **kw)
    except np.linalg.LinAlgError:
        require(runs_into_a_corner(spec, c["max_iter"]), "the linear system of a step was not solved though it is finite")
        label("no derivative on the way")
        return False
    a, r = well_formed(info, c["max_iter"])
    n = len(a)
    label("contradictory" if spec.get("twisted") else "consistent", f"{min(n, 5)} iterations")
    if c["max_iter"] == 0:
        require(n == 0, "%d errors with no iterations allowed", n)
        require(lay.read(root, spec) == lay.read(l.root_prim, spec), "geometry moved with no iterations allowed")
        return False
    require(n >= 1, "no errors reported")
    if not finite(a):
        label("diverged to infinity")
        return False
    if n > 1 and np.max(a) > a[0] * 1.01:
        label("error grew")
    start = norm(spec, l.root_prim)
    close(a[0], start, "the first reported error is the residual norm of the initial geometry", rtol=1e-8, atol=tol)
    # where it stopped
    for k in range(n - 1):
        require(a[k] > kw["abs_tol"] and r[k] > kw["rel_tol"],
                "iterate %d of %d already met a tolerance (absolute %g of %g, relative %g of %g)", k, n, a[k], kw["abs_tol"], r[k], kw["rel_tol"])
    if n < c["max_iter"]:
        require(a[-1] <= kw["abs_tol"] or not r[-1] > kw["rel_tol"],
                "stopped after %d of %d iterations with errors %g, %g above the tolerances %g, %g",
                n, c["max_iter"], a[-1], r[-1], kw["abs_tol"], kw["rel_tol"])
    # errors at later iterates, from stopping a second run there
    ks = sorted({min(n - 1, 1 + c["k"]), n - 1} - {0})
    for k in ks:
        _, root_k, info_k = run(spec, abs_tol=0.0, rel_tol=0.0, max_iter=k)
        if len(info_k["abs_errs"]) < k:
            continue
        e = norm(spec, root_k)
        # steps are only reproduced to rounding, which iterations may amplify: compare loosely when errors are tiny
        close(a[k], e, f"reported error {k} is the residual norm after {k} iterations", rtol=1e-5, atol=max(tol, 1e-7 * min(a[0], 1.0) * (k > 1)))
    return n >= 2


interpreted(P, "newton", case("newton"), newton, quick=400, thorough=20000, shards=8, weight=20, stride=3,
            want=lambda c: len(c["spec"]["cons"]) > 0, rule="at least two errors reported")


@sub(P, "minimize", case("minimize"), quick=160, thorough=2500, shards=8, weight=70, stride=5,
     want=lambda c: len(c["spec"]["cons"]) > 0, rule="at least one error reported above 1e-6 and not 1")
def minimize(c):
    spec, tol = c["spec"], 1e-11 * size_of(c["spec"])
    kw = dict(abs_tol=c["abs_tol"], rel_tol=c["rel_tol"])
    l, root, info = run(spec, max_iter=c["max_iter"], method="minimize", **kw)
    a, r = well_formed(info, c["max_iter"])
    n = len(a)
    label("contradictory" if spec.get("twisted") else "consistent", f"{min(n, 5)} iterations")
    if not finite(a):
        return False
    if n:
        close(a[-1], norm(spec, root), "the last reported error is the residual norm of the returned geometry", rtol=1e-8, atol=tol)
        _, root_1, _ = run(spec, max_iter=1, abs_tol=0.0, rel_tol=0.0, method="minimize")
        close(a[0], norm(spec, root_1), "the first reported error is the residual norm after one iteration", rtol=1e-8, atol=tol)
    # the same run without tolerances starts in the same way and goes on unless a tolerance is met
    _, _, info_0 = run(spec, max_iter=c["max_iter"], abs_tol=0.0, rel_tol=0.0, method="minimize")
    b, _ = well_formed(info_0, c["max_iter"])
    require(len(b) >= n, "%d errors reported, but only %d with tolerances of zero", n, len(b))
    close(a, b[:n], "errors with and without tolerances", rtol=1e-6, atol=tol)
    if n < len(b):
        label("stopped early")
        require(a[-1] <= kw["abs_tol"] or r[-1] <= kw["rel_tol"], "stopped after %d of %d iterations with errors %g, %g above the tolerances %g, %g",
                n, len(b), a[-1], r[-1], kw["abs_tol"], kw["rel_tol"])
    for k in range(n - 1):
        require(not a[k] < kw["abs_tol"] and not r[k] < kw["rel_tol"],
                "iterate %d of %d already met a tolerance (absolute %g of %g, relative %g of %g)", k, n, a[k], kw["abs_tol"], r[k], kw["rel_tol"])
    return n > 0 and bool(np.any((a > 1e-6) & (np.abs(a - 1) > 1e-6)))


METHODS = st.one_of(st.sampled_from(["Newton", "", "newton ", "minimise", "NEWTON", "lbfgs", "newton-cg", "min", "solve_newton", "L-BFGS-B"]),
                    st.text(max_size=9)).filter(lambda m: m not in ("newton", "minimize"))


@sub(P, "unknown method", st.fixed_dictionaries(dict(method=METHODS, spec=lay.linear(2, 4))), quick=60, thorough=1000, shards=1, weight=3,
     rule="method names other than the two")
def unknown(c):
    l = lay.layout(c["spec"])
    raises(ValueError, lambda: solver.solve(l, method=c["method"]), f"solve with method {c['method']!r}")
    return True

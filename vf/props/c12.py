"""C12: construction arithmetic is pointwise arithmetic on measured values"""

import numpy as np
from hypothesis import strategies as st

from vf import expr, gen, large, mk, trees
from vf.core import close, label, raises, require, single, sub, vec

from mpllayout import constructions as con
from mpllayout import containers as cn


def node_sizes(c):
    return [n.signature.value_size for _, n in cn.iter_flat("", c)]


@sub("C12", "expression", expr.expr(), quick=12000, shards=8, weight=3,
     rule="expression tree of sums, negations, products, quotients and powers (operator and function forms) over measurements, maps of them and user-defined trees of equal shape; non-trivial with at least one operator and a well-conditioned value")
def expression(e):
    r = expr.evaluate(e)
    if r is None:
        return False
    raws, params, vals, mag = r
    c = expr.build(e)
    prims = expr.prims_of(e, raws)
    want = np.concatenate(vals) if vals else np.array([])
    got = c(prims, *mk.params(params))
    close(got, want, f"value of {e}", rtol=1e-8, atol=1e-10 * mag)
    require(node_sizes(c) == [v.size for v in vals], "declared sizes of %s are %s, its nodes' values have %s", e, node_sizes(c), [v.size for v in vals])
    kinds = expr.kinds(e)
    require(tuple(c.signature.prim_types) == tuple(mk.TYPE[k] for k in kinds), "%s takes primitives %s", e, c.signature.prim_types)
    require(len(c.signature.param_types) == len(params), "%s has %d parameters, its operands %d", e, len(c.signature.param_types), len(params))
    for op in ops(e):
        label(op)
    return e[0] not in "mt"


def ops(e):
    yield e[0] if e[0] != "m" else e[1]
    if e[0] == "t":
        return
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            yield from ops(x)


@sub("C12", "arity", expr.expr(depth=2), quick=1200, shards=4, weight=3,
     rule="expression called with one primitive or parameter too few or too many; non-trivial with at least one operator")
def arity(e):
    r = expr.evaluate(e)
    if r is None or e[0] in "mt":
        return False
    raws, params, _, _ = r
    c = expr.build(e)
    prims = expr.prims_of(e, raws)
    ps = mk.params(params)
    raises(TypeError, lambda: c(prims + (mk.point([0, 0]),), *ps), f"{e} with an extra primitive")
    raises(TypeError, lambda: c(prims, *ps, 1.0), f"{e} with an extra parameter")
    if prims:
        raises(TypeError, lambda: c(prims[:-1], *ps), f"{e} without its last primitive")
    if ps:
        raises(TypeError, lambda: c(prims, *ps[:-1]), f"{e} without its last parameter")
    label(e[0])
    return True


@st.composite
def laws(draw):
    shape = draw(st.sampled_from(sorted(expr.SHAPES) + 5 * ["tree"]))
    if shape == "tree":
        shape = trees.shape_of(draw(trees.spec(depth=2)))
    return [draw(expr.expr(shape, 1)), draw(expr.expr(shape, 1)), draw(expr.expr(shape, 1)), draw(gen.nonzero), draw(gen.nonzero)]


@sub("C12", "laws", laws(), quick=750, shards=4, weight=14,
     rule="associativity, distributivity, double negation and cancellation over three operands of the same shape")
def check_laws(case):
    a, b, c, s, t = case
    rs = [expr.evaluate(x) for x in (a, b, c)]
    if any(r is None for r in rs):
        return False
    A, B, C = (expr.build(x) for x in (a, b, c))
    pr = [expr.prims_of(x, r[0]) for x, r in zip((a, b, c), rs)]
    pa = [mk.params(r[1]) for r in rs]
    mag = sum(r[3] for r in rs) * max(1, abs(s), abs(t)) ** 2

    def same(x, px, qx, y, py, qy, what):
        close(x(px, *qx), vec(y(py, *qy)), f"{what} for {case}", rtol=1e-8, atol=1e-10 * mag)
    same((A + B) + C, sum(pr, ()), sum(pa, ()), A + (B + C), sum(pr, ()), sum(pa, ()), "(a+b)+c = a+(b+c)")
    same((A + B) * s, pr[0] + pr[1], pa[0] + pa[1], A * s + B * s, pr[0] + pr[1], pa[0] + pa[1], "(a+b)*s = a*s+b*s")
    same(-(-A), pr[0], pa[0], A, pr[0], pa[0], "-(-a) = a")
    same((A * s) / s, pr[0], pa[0], A, pr[0], pa[0], "(a*s)/s = a")
    same((A * s) * t, pr[0], pa[0], A * (s * t), pr[0], pa[0], "(a*s)*t = a*(s*t)")
    z = vec((A + (-A))(pr[0] + pr[0], *(pa[0] + pa[0])))
    close(z, np.zeros(z.size), "a + (-a)", atol=1e-10 * mag)
    same(A ** 1, pr[0], pa[0], A, pr[0], pa[0], "a**1 = a")
    label(str(a[0]))
    return True


@sub("C12", "large", large.sizes(12, 70), quick=240, shards=8, weight=25, stride=5, want=large.fresh, rule="expressions of 12 to 70 operands")
def big(d):
    return expression(expr.big(d))


def tame(e):
    r = expr.evaluate(e)
    return r is not None and r[3] < 1e4


single("C12", "expression", expr.expr(), lambda e: tame(e) and expression(e), quick=2400, shards=8, weight=4, rule="at least one operator, and intermediate values below 1e4")

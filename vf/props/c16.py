"""C16: compiled values equal plain ones, automatic derivatives equal numerical ones"""

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree

from .. import builtin, core, expr, gen, geom as g, lay, meas, mk, trees
from ..core import close, label, require, sub, Violation

from mpllayout import constraints as cr, constructions as con, primitives as pr, solver
from mpllayout.layout import Layout

P = "C16"

NEAR = 1e-4


def numerical(f, x, h):
    """Central differences with one step of extrapolation, and an estimate of their error"""
    def d(h):
        return np.stack([(np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * h) for e in h * np.eye(x.size)], axis=-1)
    a, b = d(h), d(h / 2)
    return (4 * b - a) / 3, np.abs(a - b)


def judge(c, prims, params, what, mag, seed, smooth=True):
    """c: construction; the prims are the variables"""
    x0, unravel = ravel_pytree(prims)
    x0 = np.asarray(x0, dtype=float)
    rng = np.random.RandomState(seed)

    def f(x):
        return c(unravel(x), *params)
    plain = np.asarray(c(prims, *params), dtype=float)
    tol = dict(rtol=1e-9, atol=1e-9 * mag)
    # compiled as a function of its coordinates, or of its primitives
    if seed % 2:
        jf = jax.jit(f)
    else:
        tree = jax.jit(lambda p: c(p, *params))
        jf = lambda x: tree(unravel(jnp.asarray(x)))
        close(tree(prims), plain, f"{what} compiled, from its primitives", **tol)
    close(jf(x0), plain, f"{what} compiled", **tol)
    # the compiled function is the same function elsewhere
    for _ in range(2):
        x = x0 + NEAR * rng.uniform(-1, 1, x0.size)
        close(jf(x), c(unravel(jnp.asarray(x)), *params), f"{what} compiled, at other coordinates", **tol)
    if x0.size == 0 or plain.size == 0:
        return False
    J = np.asarray(jax.jacfwd(f)(x0), dtype=float)
    r, pull = jax.vjp(f, jnp.asarray(x0))
    w = rng.randint(1, 5, plain.size) * 1.0
    K = np.asarray(pull(jnp.asarray(w, dtype=r.dtype))[0], dtype=float)
    require(J.shape == (plain.size, x0.size), "%s has a derivative of shape %r for %d values of %d coordinates", what, J.shape, plain.size, x0.size)
    if np.all(np.isfinite(plain)):
        for name, D in (("forward", J), ("reverse", K)):
            require(np.all(np.isfinite(D)), "the %s derivative of %s is not finite: %r", name, what, D.tolist() if D.size < 80 else np.argwhere(~np.isfinite(D))[:5].tolist())
    N, err = numerical(jf, x0, 1e-5)
    # where even the numerical derivative is not settled, the value is not smooth
    slack = 1e-5 * (mag + np.abs(N)) + 10 * err
    bad = np.abs(J - N) > slack
    jump = err > 1e-3 * (mag + np.abs(N))
    if np.any(jump):
        label("not smooth here")
        if smooth:
            bad &= ~jump
    if np.any(bad):
        i, k = np.argwhere(bad)[0]
        raise Violation(f"{what}: derivative of value {i} with respect to coordinate {k} is {J[i, k]:.9g}, numerically {N[i, k]:.9g}")
    close(K, w @ J, f"{what}: reverse against forward derivative", rtol=1e-8, atol=1e-8 * mag * plain.size)
    return bool(np.any(J != 0))


seeds = st.integers(0, 999)


@st.composite
def seeded(draw, what):
    return [draw(what), draw(seeds)]


@sub(P, "built-in", seeded(builtin.application()), quick=380, shards=8, weight=45, rule="edges have some length; the derivative is not zero; every construction and constraint of the package",
     stride=3, want=lambda case: builtin.ok(case[0], 0.05))
def built_in(case):
    case, seed = case
    if not builtin.ok(case, 0.05):
        return False
    label(case["name"].split("-")[0])
    return judge(builtin.make(case), builtin.prims(case), mk.params(case["params"]), case["name"], builtin.scale(case), seed)


@st.composite
def exact(draw):
    """Special positions: axis-parallel, parallel, orthogonal lines, a point on its line, shared corners, zero values"""
    name = draw(st.sampled_from(sorted(n for n in builtin.NAMES if n.startswith("c:") and lay.CONS[n[2:]].kinds in ("L", "LL", "PL", "PP", "Q", "QQ", "P", "LLL"))
                                + sorted(n for n in meas.MEAS if meas.MEAS[n].kinds in ("L", "LL", "PL", "PP", "Q", "QQ", "P"))))
    small = st.integers(-2, 2).map(float)

    def point():
        return [draw(small), draw(small)]

    def line():
        a, k, turn = point(), draw(st.integers(1, 3)), draw(st.integers(0, 7))
        dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (-1, -1), (1, -1)][turn]
        return [a, [a[0] + k * dx, a[1] + k * dy]]
    kinds = lay.CONS[name[2:]].kinds if name.startswith("c:") else meas.MEAS[name].kinds
    raws = []
    for k in kinds:
        if k == "P":
            raws.append(point())
        elif k == "L":
            raws.append(line())
        else:
            raws.append([[float(a), float(b)] for a, b in g.box(*point(), draw(st.integers(1, 3)), draw(st.integers(1, 3)))])
    base = draw(builtin.application(pool=[name]))
    return [dict(base, raws=raws), draw(seeds)]


@sub(P, "special positions", exact(), quick=240, shards=8, weight=45, rule="edges have some length; the derivative is not zero", stride=3, want=lambda case: case[0]["raws"] != [])
def special(case):
    case, seed = case
    label(case["name"].split("-")[0])
    return judge(builtin.make(case), builtin.prims(case), mk.params(case["params"]), case["name"], builtin.scale(case), seed)


@sub(P, "expression", seeded(expr.expr(depth=3)), quick=150, shards=8, weight=60, rule="at least one operator; the derivative is not zero", stride=4, want=lambda c: c[0][0] not in "mt")
def expression(case):
    e, seed = case
    r = expr.evaluate(e)
    if r is None:
        return False
    raws, params, vals, mag = r
    for k, q in zip(expr.kinds(e), raws):
        if k == "L" and g.length(q) < 0.05 or k == "Q" and min(g.length((q[i], q[(i + 1) % 4])) for i in range(4)) < 0.05:
            return False
    moved = judge(expr.build(e), expr.prims_of(e, raws), mk.params(params), str(e), 10 * mag, seed)
    return moved and e[0] not in "mt"


@sub(P, "user tree", seeded(trees.applied()), quick=150, shards=8, weight=40, rule="construction trees with at least one child; the derivative is not zero",
     stride=4, want=lambda c: trees.count(c[0][0]) > 1)
def user_tree(case):
    (s, raws, params), seed = case
    tol = 10 * g.pts_scale(*raws, [params])
    moved = judge(trees.make(s), mk.build(s["kinds"], raws), tuple(params), f"tree {s}", tol, seed)
    label(f"nodes {min(trees.count(s), 12)}")
    return moved and trees.count(s) > 1


# ---- primitives of any size


@st.composite
def big(draw):
    n = draw(st.sampled_from([12, 11, 10, 3, 25, 101, 1, 2]))
    return dict(n=n, X=[[draw(gen.coord), draw(gen.coord)] for _ in range(n)], i=draw(st.integers(0, n - 1)), j=draw(st.integers(0, n - 1)), group=draw(st.booleans()), seed=draw(seeds))


class Weights(con.LeafConstruction, con._QuadrilateralSignature):
    """Every vertex of a polygon, in order"""

    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Polygon,), (), 1)

    @classmethod
    def assem(cls, prims):
        poly, = prims
        return sum((k + 1.0) * l["Point0"].value[0] + (k + 0.5) ** 2 * l["Point1"].value[1] for k, l in enumerate(poly.values()))


@sub(P, "polygons", big(), quick=60, shards=4, weight=30, rule="at least ten edges")
def polygons(case):
    n = case["n"]
    poly = mk.polygon(case["X"])
    tree = pr.PrimitiveNode(np.array([]), {"z": poly, "a": mk.point([1, 2])}) if case["group"] else poly
    get = (lambda t: t["z"]) if case["group"] else (lambda t: t)
    X = case["X"]
    want = sum((k + 1.0) * X[k][0] + (k + 0.5) ** 2 * X[(k + 1) % n][1] for k in range(n))
    mag = g.pts_scale(X) * (n + 1) ** 3
    close(jax.jit(lambda t: Weights()((get(t),)))(tree), [want], "weighted sum of the vertices, compiled", rtol=1e-9, atol=1e-12 * mag)
    out = jax.jit(lambda t: t)(tree)
    for k in range(n):
        close(get(out)[f"Line{k}/Point0"].value, X[k], f"vertex {k} of {n} after a compiled identity")
    a, b = case["i"], case["j"]
    C = con.MidpointXDistance()
    close(jax.jit(lambda t: C((get(t)[f"Line{a}"], get(t)[f"Line{b}"])))(tree),
          [(g.mid([X[b], X[(b + 1) % n]]) - g.mid([X[a], X[(a + 1) % n]]))[0]], "distance between two edges, compiled", rtol=1e-9, atol=1e-9 * g.pts_scale(X))
    def f(t):
        return Weights()((get(t),))[0]
    D = get(jax.grad(f)(tree))
    for k in range(n):
        # a vertex ends one edge and starts the next
        p0, p1 = np.asarray(D[f"Line{k}/Point0"].value), np.asarray(D[f"Line{k}/Point1"].value)
        require(np.allclose(p0, [k + 1.0, 0]) and np.allclose(p1, [0, (k + 0.5) ** 2]), "derivative with respect to edge %d of %d is %s, %s", k, n, p0, p1)
    label(f"edges {n}")
    return n >= 10

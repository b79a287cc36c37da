"""
Layout specifications: generators, builders, readers, and relation checks

spec = dict(prims=[[key, struct], ...], X=[[x, y], ...] target points (or None),
            S=[[x, y], ...] start points, cons=[dict(n, kw, refs, p), ...])

A struct refers to points by number, so points shared by several primitives have
one number: ["P", i], ["L", i, j], ["G", [i, ...]], ["Q", [i, j, k, l]],
["A", {xaxis, ...}, [[4 numbers], [[4 numbers], i], ...]], ["N", [[key, struct], ...]].
"""

import math
import random

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from . import core, gen, geom as g, meas, mk, rel
from .core import require

from mpllayout import constraints as cr, constructions as con, containers as cn, primitives as pr
from mpllayout.layout import Layout

# ---- structures


def axes_parts(s):
    """[(key, 'Q' or 'P', point numbers), ...] of an axes structure"""
    out = [("Frame", "Q", s[2][0])]
    keys = [mk.AXES_KEYS[k] for k in ("xaxis", "yaxis", "twinx", "twiny") if s[1].get(k)]
    for (kq, kp), (q, p) in zip(keys, s[2][1:]):
        out += [(kq, "Q", q), (kp, "P", p)]
    return out


def point_ids(s):
    k = s[0]
    if k == "P":
        return [s[1]]
    if k == "L":
        return [s[1], s[2]]
    if k in "GQ":
        return list(s[1])
    if k == "A":
        return [i for _, kind, v in axes_parts(s) for i in (v if kind == "Q" else [v])]
    return [i for _, c in s[1] for i in point_ids(c)]


def loop(ids):
    return [["L", a, b] for a, b in zip(ids, ids[1:] + ids[:1])]


def children(s):
    k = s[0]
    if k == "P":
        return []
    if k == "L":
        return [("Point0", ["P", s[1]]), ("Point1", ["P", s[2]])]
    if k in "GQ":
        return [(f"Line{n}", l) for n, l in enumerate(loop(s[1]))]
    if k == "A":
        return [(key, ["Q", v] if kind == "Q" else ["P", v]) for key, kind, v in axes_parts(s)]
    return [(key, c) for key, c in s[1]]


def paths(prims):
    """All (path, struct) below a list of (key, struct), depth first"""
    out = []
    for key, s in prims:
        out.append((key, s))
        out += [(f"{key}/{p}", c) for p, c in paths(children(s))]
    return out


def find(spec, ref):
    kids = spec["prims"]
    s = None
    for part in ref.split("/"):
        s = dict((k, c) for k, c in kids)[part]
        kids = children(s)
    return s


def raw(s, X):
    """Raw coordinates of a point, line, quadrilateral or polygon structure"""
    if s[0] == "P":
        return list(X[s[1]])
    if s[0] == "L":
        return [list(X[s[1]]), list(X[s[2]])]
    if s[0] in "GQ":
        return [list(X[i]) for i in s[1]]
    if s[0] == "A":
        return {key: raw(c, X) for key, c in children(s)}
    raise core.HarnessError(f"no coordinates for {s[0]}")


def build_struct(s, pts):
    k = s[0]
    if k == "P":
        return pts[s[1]]
    if k == "L":
        return pr.Line([], (pts[s[1]], pts[s[2]]))
    if k == "G":
        return pr.Polygon([], [pts[i] for i in s[1]])
    if k == "Q":
        return pr.Quadrilateral([], [pts[i] for i in s[1]])
    if k == "A":
        parts = [pr.Quadrilateral([], [pts[i] for i in v]) if kind == "Q" else pts[v] for _, kind, v in axes_parts(s)]
        return pr.Axes([], tuple(parts), **{o: bool(s[1].get(o)) for o in ("xaxis", "yaxis", "twinx", "twiny")})
    return pr.PrimitiveNode(np.array([]), {key: build_struct(c, pts) for key, c in s[1]})


TYPES = {"P": pr.Point, "L": pr.Line, "G": pr.Polygon, "Q": pr.Quadrilateral, "A": pr.Axes, "N": pr.PrimitiveNode}


def read(prim_root, spec, what="solution"):
    """Point coordinates from a primitive tree; structure, types and shared points are checked"""
    X = {}
    keys = [k for k, _ in spec["prims"]]
    require(list(prim_root.keys()) == keys, "%s has primitives %r instead of %r", what, prim_root.keys(), keys)

    def walk(p, s, at):
        require(type(p) is TYPES[s[0]], "%s: %s is a %s instead of %s", what, at, type(p).__name__, TYPES[s[0]].__name__)
        v = np.asarray(p.value, dtype=float)
        if s[0] == "P":
            require(v.shape == (2,), "%s: %s has value %r", what, at, v.tolist())
            if s[1] in X:
                require(X[s[1]] == v.tolist(), "%s: %s is at %r, the same point elsewhere at %r", what, at, v.tolist(), X[s[1]])
            X[s[1]] = v.tolist()
            require(len(p) == 0, "%s: %s has children", what, at)
            return
        require(v.size == 0, "%s: %s has value %r", what, at, v.tolist())
        kids = children(s)
        require(list(p.keys()) == [k for k, _ in kids], "%s: %s has parts %r instead of %r", what, at, p.keys(), [k for k, _ in kids])
        for k, c in kids:
            walk(p[k], c, f"{at}/{k}")
    for k, s in spec["prims"]:
        walk(prim_root[k], s, k)
    return [X.get(i) for i in range(len(spec["S"]))]


# ---- constraints


class C:
    """make(kw); kinds of the arguments; err(raws, params, kw) distance from the relation (vector)"""

    def __init__(self, make, kinds, err, linear, value=None, structural=False):
        self.make, self.kinds, self.err, self.linear, self.value = make, kinds, err, linear, value


CONS = {}
for _n, (_f, _m) in rel.VALUE.items():
    _mm = meas.MEAS[_m]

    def _err(raws, params, kw, mm=_mm):
        k = len(mm.params)
        return np.asarray(mm.value(raws, params[:k]), dtype=float) - np.asarray(params[k], dtype=float)
    CONS[_n] = C(lambda kw, f=_f: f(), _mm.kinds, _err, _mm.linear, _mm)
for _n, _r in {**rel.RELATIONS, **rel.QREL}.items():
    _lin = _n in ("Coincident", "Vertical", "Horizontal", "CoincidentLines", "Box") or _n.startswith("CoincidentOutwardFaces")
    CONS[_n] = C(lambda kw, r=_r: r.make(), _r.kinds, lambda raws, params, kw, r=_r: np.array([r.err(raws, params)]), _lin)
CONS["RelativeLength"] = C(lambda kw: cr.RelativeLength(), "LL", lambda r, p, kw: np.array([g.length(r[0]) - p[0] * g.length(r[1])]), False)


def _grid_err(dims):
    def err(quads, p, kw):
        r, c = kw["shape"]
        e = [0.0]
        for i in range(r):
            for j in range(1, c):
                e.append(g.align_row_err(quads[i * c], quads[i * c + j]))
        for j in range(c):
            for i in range(1, r):
                e.append(g.align_col_err(quads[j], quads[i * c + j]))
        if dims:
            L = lambda q, s: g.length(g.edge(q, s))
            for j in range(1, c):
                e.append(L(quads[j], "bottom") - p[0][j - 1] * L(quads[0], "bottom"))
                e.append(g.outer_margin(quads[j - 1], quads[j], "right") - p[2][j - 1])
            for i in range(1, r):
                e.append(L(quads[i * c], "right") - p[1][i - 1] * L(quads[0], "right"))
                e.append(g.outer_margin(quads[(i - 1) * c], quads[i * c], "bottom") - p[3][i - 1])
        return np.array(e)
    return err


CONS["Grid"] = C(lambda kw: cr.Grid(shape=tuple(kw["shape"])), "Q*", _grid_err(True), False)
CONS["RectilinearGrid"] = C(lambda kw: cr.RectilinearGrid(shape=tuple(kw["shape"])), "Q*", _grid_err(False), False)
CONS["OuterMarginArray"] = C(
    lambda kw: cr.OuterMarginArray(shape=tuple(kw["shape"]), side=kw["side"]), "Q*",
    lambda q, p, kw: np.array([0.0] + [g.outer_margin(q[k], q[k + 1], kw["side"]) - p[k] for k in range(len(q) - 1)]), True)


def _pos_err(up):
    def err(raws, p, kw):
        a, = raws
        e = [g.face_err(a["Frame"], a[up + "Axis"], kw["side"])]
        if kw.get("twin"):
            e.append(g.face_err(a["Frame"], a[f"Twin{up}Axis"], g.OPP[kw["side"]]))
        return np.array(e)
    return err


def _label_err(axis):
    def err(raws, p, kw):
        a, = raws
        f, l = a["Frame"], a[("Twin" if kw.get("twin") else "") + axis.upper() + "AxisLabel"]
        line = (f[0], f[1]) if axis == "x" else (f[1], f[2])
        return np.array([g.along(l, line, False) / g.length(line) - p[0]])
    return err


CONS["PositionXAxis"] = C(lambda kw: cr.PositionXAxis(**kw), "A", _pos_err("X"), True)
CONS["PositionYAxis"] = C(lambda kw: cr.PositionYAxis(**kw), "A", _pos_err("Y"), True)
CONS["PositionXAxisLabel"] = C(lambda kw: cr.PositionXAxisLabel(**kw), "A", _label_err("x"), False)
CONS["PositionYAxisLabel"] = C(lambda kw: cr.PositionYAxisLabel(**kw), "A", _label_err("y"), False)
CONS["XAxisThickness"] = C(lambda kw: cr.XAxisThickness(), "Q", lambda r, p, kw: np.array([g.vec((r[0][1], r[0][2]))[1]]), True)
CONS["YAxisThickness"] = C(lambda kw: cr.YAxisThickness(), "Q", lambda r, p, kw: np.array([g.vec((r[0][0], r[0][1]))[0]]), True)

# constraints that users make of constructions: kw says how, see `built`


def _built_parts(kw):
    """The measurements in order, each with its number of own parameters"""
    if kw["op"] == "sum":
        return [meas.MEAS[kw["m"]], meas.MEAS[kw["b"]]]
    return [meas.MEAS[kw["m"]]] * kw.get("n", 1)


def _built_make(kw):
    c = meas.MEAS[kw["m"]].make()
    op, f = kw["op"], kw.get("f")
    if op == "partial":
        c = con.transform_partial(c, *mk.params(kw["frozen"]))
    elif op == "scaled":
        c = [lambda: f * c, lambda: c * f, lambda: c / (1 / f), lambda: con.transform_scalar_mul(c, f), lambda: -(-f * c)][kw["form"]]()
    elif op == "sum":
        b = meas.MEAS[kw["b"]].make()
        c = c + (b if f == 1 else -b if f == -1 else f * b)
    elif op == "scalar":
        c = c * con.Scalar() if kw["form"] else con.Scalar() * c
    elif op == "map":
        k = meas.MEAS[kw["m"]].kinds
        c = con.transform_map(c, kw["n"] * [mk.TYPE[k[0]]] + [mk.TYPE[x] for x in k[1:]])
    return con.transform_constraint(c)


def _built_kinds(kw):
    k = meas.MEAS[kw["m"]].kinds
    if kw["op"] == "map":
        return kw["n"] * k[0] + k[1:]
    return k + (meas.MEAS[kw["b"]].kinds if kw["op"] == "sum" else "")


def _built_value(raws, params, kw):
    m = meas.MEAS[kw["m"]]
    op, k, n = kw["op"], len(m.kinds), len(m.params)
    val = lambda m, r, p: np.asarray(m.value(r, p), dtype=float)
    if op == "partial":
        return val(m, raws, list(params) + kw["frozen"])
    if op == "scaled":
        return kw["f"] * val(m, raws, params)
    if op == "scalar":
        return params[n] * val(m, raws, params)
    if op == "sum":
        return val(m, raws[:k], params[:n]) + kw["f"] * val(meas.MEAS[kw["b"]], raws[k:], params[n:])
    return np.concatenate([val(m, [r] + raws[kw["n"]:], params[i * n:(i + 1) * n]) for i, r in enumerate(raws[:kw["n"]])])


for _n in ("Built", "BuiltCurved"):
    CONS[_n] = C(_built_make, "*", lambda raws, p, kw: _built_value(raws, p[:-1], kw) - np.asarray(p[-1], dtype=float), _n == "Built")


@st.composite
def pick(draw, spec, by_kind, kinds):
    """Arguments of the given kinds, sometimes those of an earlier constraint"""
    if draw(st.integers(0, 2)) == 0:
        same = [c["refs"] for c in spec["cons"] if [find(spec, r)[0] for r in c["refs"]] == list(kinds)]
        if same:
            return draw(st.sampled_from(same))
    return [draw(st.sampled_from(by_kind[k]))[0] for k in kinds]


@st.composite
def built(draw, spec, by_kind, linear=True, wide=False):
    """A constraint made of one or more constructions that holds at the target points"""
    pool = [n for n, m in meas.MEAS.items() if m.linear] if linear else ["Length", "Angle", "PointOnLineDistance", "PointToLineDistance", "AspectRatio", "RelativePointOnLineDistance"]
    m = meas.MEAS[draw(st.sampled_from(pool))]
    op = draw(st.sampled_from(["partial", "scaled", "sum", "scalar", "map"]))
    kw = dict(op=op, m=m.name)
    factor = st.sampled_from([2, -1, 0.5, 3.0, -1.5] + ([2e4, 0.01] if wide else [10]))
    params = [draw(p) for p in m.params]
    if op == "partial":
        k = draw(st.integers(0, len(params)))
        kw["frozen"] = params[len(params) - k:]
        params = params[:len(params) - k]
    elif op == "scaled":
        kw.update(f=draw(factor), form=draw(st.integers(0, 4)))
    elif op == "scalar":
        kw["form"] = draw(st.integers(0, 1))
        params.append(draw(factor))
    elif op == "sum":
        size = lambda m: (m.group == "q" and m.name.split("-")[0], len(m.value([[[0, 0], [1, 0], [1, 1], [0, 1]][:4] if k == "Q" else [[0, 0], [1, 0]] if k == "L" else [0, 0] for k in m.kinds],
                                          [[1, 0] if s is meas.D else False for s in m.params])))
        b = meas.MEAS[draw(st.sampled_from([n for n in pool if size(meas.MEAS[n]) == size(m) and (m.group != "q" or n == m.name)]))]
        kw.update(b=b.name, f=draw(factor))
        params += [draw(p) for p in b.params]
    else:
        kw["n"] = draw(st.integers(2, 3))
        params = params + [draw(p) for _ in range(kw["n"] - 1) for p in m.params]
    kinds = _built_kinds(kw)
    if not all(by_kind[k] for k in kinds):
        return None
    refs, raws = [], []
    for k, ref in zip(kinds, draw(pick(spec, by_kind, kinds))):
        refs.append(ref)
        raws.append(raw(find(spec, ref), spec["X"]))
        if k == "L" and g.length(raws[-1]) < 0.2:
            return None
    value = [float(v) for v in _built_value(raws, params, kw)]
    if "Angle" in (m.name, kw.get("b")):
        ends = [raws[i:i + 2] for i in range(0, len(raws) - 1, 2)] if op != "map" else [[r, raws[-1]] for r in raws[:-1]]
        if any(len(r[0]) == 2 and isinstance(r[0][0], list) and len(r[1]) == 2 and abs(g.angle(*r)) > 2.8 for r in ends):
            return None  # near the jump between -pi and pi
    return dict(n="Built" if linear else "BuiltCurved", kw=kw, refs=refs, p=params + [value[0] if len(value) == 1 else value])


LINEAR = sorted(n for n, c in CONS.items() if c.linear and "A" not in c.kinds and "*" not in c.kinds and "Thickness" not in n)
CURVED = ["Length", "Angle", "PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance", "AspectRatio",
          "Parallel", "Orthogonal", "RelativeLength"]


def con_raws(spec, c, X):
    return [raw(find(spec, r), X) for r in c["refs"]]


def con_err(spec, c, X):
    return np.atleast_1d(CONS[c["n"]].err(con_raws(spec, c, X), c["p"], c.get("kw", {})))


def con_params(c):
    return tuple(np.array(p, dtype=float) if isinstance(p, list) else p for p in c["p"])


def points(X):
    return [pr.Point([float(x), float(y)]) for x, y in X]


def layout(spec, S=None, cons=None, names=None, prims=None):
    """Build the layout from start points S"""
    lay = Layout()
    pts = points(spec["S"] if S is None else S)
    for key, s in spec["prims"] if prims is None else prims:
        lay.add_prim(build_struct(s, pts), key)
    for i, c in enumerate(spec["cons"] if cons is None else cons):
        kw = {} if names is None or names[i] is None else dict(key=names[i])
        lay.add_constraint(CONS[c["n"]].make(c.get("kw", {})), tuple(c["refs"]), con_params(c), **kw)
    return lay


def residual(spec, lay_obj, prim_root):
    """Norm of all constraint residuals by direct calls, constraint by constraint"""
    out = [np.zeros(0)]
    for c in spec["cons"]:
        prims = tuple(prim_root[r] for r in c["refs"])
        out.append(np.asarray(CONS[c["n"]].make(c.get("kw", {}))(prims, *con_params(c)), dtype=float).reshape(-1))
    return np.concatenate(out)


def jacobian(spec, root):
    """Derivatives of all constraint residuals in the coordinates, by direct calls, constraint by constraint"""
    flat = cn.flatten("", root)
    index, values = pr.filter_unique_values_from_prim(root)
    bounds = np.cumsum([0] + [v.size for v in values])

    def res(x):
        tree = pr.build_prim_from_unique_values(flat, index, [x[a:b] for a, b in zip(bounds[:-1], bounds[1:])])
        return jnp.concatenate([jnp.zeros(0)] + [CONS[c["n"]].make(c.get("kw", {}))(tuple(tree[r] for r in c["refs"]), *con_params(c)) for c in spec["cons"]])
    return np.asarray(jax.jacfwd(res)(np.concatenate(values)))


def worst(spec, X):
    """(largest error, description) over all relations"""
    top, at = 0.0, None
    for c in spec["cons"]:
        with np.errstate(all="ignore"):
            try:
                e = con_err(spec, c, X)
            except ZeroDivisionError:
                e = np.array([math.nan])
        m = float(np.max(np.abs(e))) if np.all(np.isfinite(e)) else math.inf
        if m > top:
            top, at = m, c
    return top, at


# ---- generators

half = gen.nums(-4, 4, 2)
pos = gen.nums(0.5, 4, 2)


@st.composite
def geometry(draw, nmax=5, kinds="PLLQQQGAN"):
    """prims and target X with many coincidences"""
    X, prims = [], []
    keys = draw(gen.names(1, nmax))
    if draw(st.integers(0, 2)) == 0:
        # on a coarse grid many measurements agree
        half, pos = st.sampled_from([-1.0, 0.0, 1.0, 2.0]), st.sampled_from([1.0, 2.0])
    else:
        half, pos = globals()["half"], globals()["pos"]
    if nmax > 9 and draw(st.booleans()):
        keys = draw(gen.names(11, nmax))
    lone = []

    def new(p):
        X.append([float(p[0]), float(p[1])])
        return len(X) - 1

    def pt():
        if lone and draw(st.integers(0, 2)) == 0:
            return draw(st.sampled_from(lone))
        if X and draw(st.integers(0, 3)) == 0:
            return new(draw(st.sampled_from(X)))     # another point at the same place
        i = new([draw(half), draw(half)])
        return i

    def quad_pts():
        b = draw(st.integers(0, 5))
        x, y, w, h = draw(half), draw(half), draw(pos), draw(pos)
        q = g.box(x, y, w, h)
        if b == 0:
            f = gen.nums(-0.25, 0.25, 8)
            q = [[u + draw(f) * w, v + draw(f) * h] for u, v in q]
        return q

    def quad():
        return [new(v) for v in quad_pts()]

    def struct(depth):
        k = draw(st.sampled_from(kinds if depth else kinds.replace("N", "")))
        if k == "P":
            i = pt()
            lone.append(i)
            return ["P", i]
        if k == "L":
            i = pt()
            j = pt()
            tries = 0
            while X[i] == X[j]:
                tries += 1
                j = new([X[i][0] + draw(pos), X[i][1] + draw(st.sampled_from([0, 0, 1, -1.5]))])
            lone.extend([i, j])
            return ["L", i, j]
        if k == "Q":
            return ["Q", quad()]
        if k == "G":
            n = draw(st.integers(1, 5))
            ids = []
            for _ in range(n):
                i = pt()
                ids.append(i)
                if i not in lone:
                    lone.append(i)
            return ["G", ids]
        if k == "A":
            opts = {o: draw(st.booleans()) for o in ("xaxis", "yaxis")}
            opts["twinx"] = opts["xaxis"] and draw(st.integers(0, 2)) == 0
            opts["twiny"] = opts["yaxis"] and draw(st.integers(0, 2)) == 0
            frame = quad_pts()
            parts = [[new(v) for v in frame]]
            sx = draw(st.sampled_from(("bottom", "top")))
            sy = draw(st.sampled_from(("left", "right")))
            for o, side in (("xaxis", sx), ("yaxis", sy), ("twinx", g.OPP[sx]), ("twiny", g.OPP[sy])):
                if opts[o]:
                    q = quad_pts()
                    i, j = g.EDGE[side]
                    a, b = g.EDGE[g.OPP[side]]
                    q[b], q[a] = list(frame[i]), list(frame[j])
                    parts.append([[new(v) for v in q], new([draw(half), draw(half)])])
            return ["A", opts, parts]
        n = draw(st.integers(0, 3))
        return ["N", [[key, struct(0)] for key in draw(gen.names(n, n))]]
    for key in keys:
        prims.append([key, struct(1)])
    return prims, X


def edges_ok(struct_list, X, least=0.2):
    for _, s in paths(struct_list):
        if s[0] == "L" and g.length(raw(s, X)) < least:
            return False
    return True


@st.composite
def one_constraint(draw, spec, by_kind, names):
    name = draw(st.sampled_from(names))
    c = CONS[name]
    if not all(by_kind[k] for k in c.kinds):
        return None
    refs, raws = [], []
    X = spec["X"]
    if c.value is not None or name == "RelativeLength":
        for ref in draw(pick(spec, by_kind, c.kinds)):
            refs.append(ref)
            raws.append(raw(find(spec, ref), X))
        for k, r in zip(c.kinds, raws):
            if k == "L" and g.length(r) < 0.2:
                return None
        if name == "RelativeLength":
            return dict(n=name, refs=refs, p=[g.length(raws[0]) / g.length(raws[1])])
        params = [draw(s) for s in c.value.params]
        value = [float(v) for v in c.value.value(raws, params)]
        if name == "Angle" and abs(value[0]) > 2.8:
            return None
        if len(value) == 1:
            value = value[0]
        return dict(n=name, refs=refs, p=params + [value])
    # a relation: the last argument is one for which it holds at the target
    for k in c.kinds[:-1]:
        ref, s = draw(st.sampled_from(by_kind[k]))
        refs.append(ref)
        raws.append(raw(s, X))
    params = [draw(st.booleans())] if name == "CoincidentLines" else []
    good = []
    for ref, s in by_kind[c.kinds[-1]]:
        if ref in refs:
            continue
        try:
            if float(np.max(np.abs(c.err(raws + [raw(s, X)], params, {})))) < 1e-12:
                good.append(ref)
        except (ZeroDivisionError, ValueError):
            pass
    if not good:
        return None
    return dict(n=name, refs=refs + [draw(st.sampled_from(good))], p=params)


def refs_by_kind(prims):
    out = {"P": [], "L": [], "Q": [], "A": []}
    for path, s in paths(prims):
        if s[0] in out:
            out[s[0]].append((path, s))
    return out


@st.composite
def axes_constraints(draw, spec, by_kind):
    """Position constraints that hold for the axes of the target"""
    out = []
    for ref, s in by_kind["A"]:
        r = raw(s, spec["X"])
        for axis in "xy":
            if s[1].get(axis + "axis") and draw(st.integers(0, 1)):
                for side in (("bottom", "top") if axis == "x" else ("left", "right")):
                    kw = dict(side=side, twin=bool(s[1].get("twin" + axis)) and draw(st.booleans()))
                    c = dict(n=f"Position{axis.upper()}Axis", kw=kw, refs=[ref], p=[])
                    if float(np.max(con_err(spec, c, spec["X"]))) < 1e-12:
                        out.append(c)
    return out


starts = st.sampled_from(["near", "random", "random", "far", "unit", "zero", "target"])


def start_points(kind, X, rng):
    X = np.array(X, dtype=float)
    if kind == "near":
        S = X + rng.randint(-20, 21, X.shape) / 64 * max(1.0, np.max(np.abs(X), initial=0) / 8)
    elif kind == "random":
        S = rng.randint(-64, 65, X.shape) / 16
    elif kind == "far":
        S = X * 3 + rng.randint(-999, 999, X.shape) * 1.0
    elif kind == "unit":
        S = np.array([[(0, 0), (1, 0), (1, 1), (0, 1)][i % 4] for i in range(len(X))], dtype=float)
    elif kind == "zero":
        S = np.zeros(X.shape)
    else:
        S = X
    return [[float(a) for a in v] for v in S]


@st.composite
def linear(draw, nmax=5, cmax=14, start=starts, wide=False):
    """Consistent layout of linear relations, any start"""
    prims, X = draw(geometry(nmax))
    # lengths in other units: inches up to pixels
    unit = draw(st.sampled_from([1, 1, 1, 16, 128, 1 / 4]))
    X = [[unit * v for v in p] for p in X]
    spec = dict(prims=prims, X=X, cons=[])
    by_kind = refs_by_kind(prims)
    spec["cons"] += draw(axes_constraints(spec, by_kind))
    for _ in range(draw(st.integers(4, cmax))):
        c = draw(one_constraint(spec, by_kind, LINEAR) if draw(st.integers(0, 5)) else built(spec, by_kind, wide=wide))
        if c:
            spec["cons"].append(c)
    kind = draw(start)
    spec["start"] = kind
    spec["S"] = start_points(kind, X, np.random.RandomState(draw(st.integers(0, 9999))))
    if spec["cons"] and draw(st.integers(0, 3)) == 0:
        spec["cons"].append(draw(st.sampled_from(spec["cons"])))
    return spec


# relations whose error is a maximum of absolute values have no useful Jacobian: signed versions
def signed(name):
    return {
        "Coincident": lambda r, p: [r[0][0] - r[1][0], r[0][1] - r[1][1]],
        "Vertical": lambda r, p: [g.vec(r[0])[0]],
        "Horizontal": lambda r, p: [g.vec(r[0])[1]],
        "Parallel": lambda r, p: [g.cross(g.unit(r[0]), g.unit(r[1]))],
        "Orthogonal": lambda r, p: [g.dot(g.unit(r[0]), g.unit(r[1]))],
        "CoincidentLines": lambda r, p: [a - b for x, y in zip(r[0], r[1][::-1] if p[0] else r[1]) for a, b in zip(x, y)],
        "Box": lambda r, p: [r[0][0][1] - r[0][1][1], r[0][1][0] - r[0][2][0], r[0][2][1] - r[0][3][1], r[0][3][0] - r[0][0][0]],
    }.get(name)


def smooth_err(spec, c, X):
    f = signed(c["n"])
    if f:
        return np.asarray(f(con_raws(spec, c, X), c["p"]), dtype=float)
    if c["n"].startswith("CoincidentOutwardFaces"):
        a, b = con_raws(spec, c, X)
        side = c["n"].split("-")[1]
        e, h = g.edge(a, side), g.edge(b, g.OPP[side])
        return np.array([e[0][0] - h[1][0], e[0][1] - h[1][1], e[1][0] - h[0][0], e[1][1] - h[0][1]])
    return con_err(spec, c, X)


def smooth_jacobian(spec, cons, X):
    X = np.array(X, dtype=float)
    h = 1e-5

    def f(Y):
        return np.concatenate([smooth_err(spec, c, Y.tolist()) for c in cons]) if cons else np.zeros(0)
    cols = []
    for i in range(X.shape[0]):
        for j in range(2):
            Y, Z = X.copy(), X.copy()
            Y[i, j] += h
            Z[i, j] -= h
            cols.append((f(Y) - f(Z)) / (2 * h))
    J = np.array(cols).T
    n = np.linalg.norm(J, axis=1, keepdims=True) if J.size else 1.0
    return J / np.where(n < 1e-9, 1.0, n) if J.size else J


def rank(J, least=0.12):
    """Rank of J if its singular values are clearly zero or clearly not, else None"""
    if J.size == 0:
        return 0
    s = np.linalg.svd(J, compute_uv=False)
    if np.any((s > 1e-7) & (s < least)):
        return None
    return int(np.sum(s >= least))


@st.composite
def curved(draw, nmax=4, cmax=10, delta=0.01):
    """Consistent layout with non-linear relations, regular at its solution, start near it"""
    prims, X = draw(geometry(nmax, kinds="PLLLQQG"))
    spec = dict(prims=prims, X=X, cons=[])
    by_kind = refs_by_kind(prims)
    for _ in range(draw(st.integers(0, cmax // 2))):
        c = draw(one_constraint(spec, by_kind, LINEAR))
        if c:
            spec["cons"].append(c)
    J = smooth_jacobian(spec, spec["cons"], X)
    while spec["cons"] and rank(J) is None:
        spec["cons"].pop()
        J = smooth_jacobian(spec, spec["cons"], X)
    k = rank(J)
    least = [1.0]
    for _ in range(draw(st.integers(4, cmax))):
        c = draw(one_constraint(spec, by_kind, CURVED) if draw(st.integers(0, 5)) else built(spec, by_kind, draw(st.booleans())))
        if not c:
            continue
        row = smooth_jacobian(spec, [c], X)
        K = np.concatenate([J, row]) if J.size else row
        r = rank(K)
        if r is not None and r == k + row.shape[0]:
            spec["cons"].append(c)
            J, k = K, r
            for q in con_raws(spec, c, X):
                if isinstance(q[0], list):
                    least.append(min(g.length((q[i], q[(i + 1) % len(q)])) for i in range(len(q))))
    rng = np.random.RandomState(draw(st.integers(0, 9999)))
    d = delta * min(least)
    spec["start"] = "near"
    spec["S"] = [[float(a) for a in v] for v in np.array(X) + d * rng.uniform(-1, 1, (len(X), 2))]
    spec["curved"] = sum(not CONS[c["n"]].linear for c in spec["cons"])
    return spec


def size(*pointlists):
    """Largest coordinate magnitude, at least 1"""
    flat = [abs(v) for ps in pointlists for p in ps if p is not None for v in p]
    return max(flat + [1.0])


def big(d):
    """
    Layout of d["n"] points (dozens to hundreds) in all sorts of primitives, every point determined by the relations

    Distances along x and y connect the points like a tree; further relations, all met by the target, are redundant.
    """
    rng = random.Random(d["seed"])
    n = d["n"]
    X = [[rng.randint(-80, 80) / 8, rng.randint(-80, 80) / 8] for _ in range(n)]
    prims = [[f"p{i}", ["P", i]] for i in range(n)]
    some = lambda k: rng.sample(range(n), k)
    more = [[f"s{i}", rng.choice([lambda: ["L", *some(2)], lambda: ["Q", some(4)], lambda: ["G", some(rng.randint(3, min(n, 30)))],
                                  lambda: ["N", [[f"k{k}", ["P", j]] for k, j in enumerate(some(rng.randint(1, 9)))]]])()] for i in range(n // 4)]
    prims += more
    rng.shuffle(prims)
    spec = dict(prims=prims, X=X, cons=[], start="random")
    # points may also be called by what they are part of
    named = {}
    for path, s in paths(prims):
        if s[0] == "P":
            named.setdefault(s[1], []).append(path)
    at = lambda i: rng.choice(named[i])

    def add(name, refs):
        m = CONS[name].value
        spec["cons"].append(dict(n=name, kw={}, refs=refs, p=[np.asarray(m.value([raw(find(spec, r), X) for r in refs], []), dtype=float).tolist()]))
    add("Fix", [at(0)])
    for i in range(1, n):
        j = rng.randrange(i)
        for name in ("XDistance", "YDistance"):
            add(name, rng.sample([at(i), at(j)], 2))
    lines = [p for p, s in paths(prims) if s[0] == "L"]
    for _ in range(rng.randrange(n // 3)):
        if rng.random() < 0.5 or not lines:
            add(rng.choice(["XDistance", "YDistance"]), [at(i) for i in some(2)])
        else:
            add(rng.choice(["XLength", "YLength"]), [rng.choice(lines)])
    rng.shuffle(spec["cons"])
    spec["S"] = [[v + rng.randint(-8, 8) / 4 for v in p] for p in X] if rng.random() < 0.3 else [[rng.randint(-80, 80) / 8 for _ in p] for p in X]
    return spec

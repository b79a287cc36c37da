"""
Independent geometry oracle: plain numpy on raw coordinates

point = (x, y); line = (start, end); quad = 4 vertices counter-clockwise from the
bottom left of an upright box (bottom, right, top, left edges in this order).
"""

import math

import numpy as np

SIDES = ("bottom", "top", "left", "right")
OPP = dict(bottom="top", top="bottom", left="right", right="left")
EDGE = dict(bottom=(0, 1), right=(1, 2), top=(2, 3), left=(3, 0))


def A(x):
    return np.array(x, dtype=float)


def vec(line):
    return A(line[1]) - A(line[0])


def length(line):
    d = vec(line)
    return math.hypot(d[0], d[1])


def unit(line):
    return vec(line) / length(line)


def mid(line):
    return A([(line[0][0] + line[1][0]) / 2, (line[0][1] + line[1][1]) / 2])


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def angle(l0, l1):
    """Counter-clockwise angle from l0 to l1 in (-pi, pi]"""
    a, b = vec(l0), vec(l1)
    t = math.atan2(cross(a, b), dot(a, b))
    return math.pi if t == -math.pi else t


def along(p, line, reverse):
    o = A(line[1] if reverse else line[0])
    u = -unit(line) if reverse else unit(line)
    return dot(A(p) - o, u)


def offside(p, line, reverse):
    """Distance to the left of the line (to the right if reverse)"""
    d = A(p) - A(line[0])
    left = cross(unit(line), d)
    return -left if reverse else left


def edge(quad, side):
    i, j = EDGE[side]
    return (quad[i], quad[j])


def outward_gap(side, frm, to):
    """How far the point `to` lies outward of the point `frm` in direction `side`"""
    if side == "left":
        return frm[0] - to[0]
    if side == "right":
        return to[0] - frm[0]
    if side == "bottom":
        return frm[1] - to[1]
    return to[1] - frm[1]


def inner_margin(qa, qb, side):
    return outward_gap(side, mid(edge(qa, side)), mid(edge(qb, side)))


def outer_margin(qa, qb, side):
    return outward_gap(side, mid(edge(qa, side)), mid(edge(qb, OPP[side])))


def width(quad):
    return quad[1][0] - quad[0][0]


def height(quad):
    return quad[2][1] - quad[1][1]


def aspect(quad):
    return length((quad[0], quad[1])) / length((quad[1], quad[2]))


def line_offset(line, p):
    """Distance of p from the infinite line"""
    return abs(cross(unit(line), A(p) - A(line[0])))


def box(x, y, w, h):
    return [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]


def pts_scale(*objs):
    """Largest coordinate magnitude in nested lists"""
    flat = np.concatenate([np.asarray(o, dtype=float).reshape(-1) for o in objs]) if objs else np.zeros(1)
    return float(max(1.0, np.max(np.abs(flat)))) if flat.size else 1.0


def is_box_err(quad):
    """Largest deviation from an axis-aligned box"""
    (a, b, c, d) = [A(v) for v in quad]
    return max(abs(a[1] - b[1]), abs(b[0] - c[0]), abs(c[1] - d[1]), abs(d[0] - a[0]))


def face_err(frame, axis, side):
    """How far `axis` is from abutting the outside of `side` of `frame` over its full length"""
    f, g = edge(frame, side), edge(axis, OPP[side])
    # outward facing edges run in opposite directions
    return max(np.max(np.abs(A(f[0]) - A(g[1]))), np.max(np.abs(A(f[1]) - A(g[0]))))


def collinear_err(l0, l1):
    """Distance of l1's end points from the infinite line through l0"""
    return max(line_offset(l0, l1[0]), line_offset(l0, l1[1]))


def parallel_err(l0, l1):
    """|sin| of the angle between the lines"""
    return abs(cross(unit(l0), unit(l1)))


def orthogonal_err(l0, l1):
    return abs(dot(unit(l0), unit(l1)))


def align_row_err(qa, qb):
    return max(collinear_err(edge(qa, "bottom"), edge(qb, "bottom")), collinear_err(edge(qa, "top"), edge(qb, "top")))


def align_col_err(qa, qb):
    return max(collinear_err(edge(qa, "left"), edge(qb, "left")), collinear_err(edge(qa, "right"), edge(qb, "right")))

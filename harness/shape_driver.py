#!/usr/bin/env -S python3-vt -W ignore
"""Drives the shapes and the reciprocal geometry of the Python layer"""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *


def cartesian(v):
    r = np.zeros(3, dtype=np.float32)
    v = np.atleast_1d(np.asarray(v, dtype=np.float32))
    if v.ndim != 1 or len(v) > 3:
        raise TypeError("not a position")
    r[:len(v)] = v
    return r


class Shape:
    """The core's shapes"""
    def __init__(self, vertices, contains):
        self.vertices = [cartesian(v) for v in vertices]
        if len(self.vertices) < 2:
            raise RuntimeError("too few vertices")
        self._f = contains
        self.lattice_offset = np.zeros(3)

    def contains(self, x, y, z):
        x, y, z = (np.atleast_1d(np.asarray(v, dtype=np.float32)) for v in (x, y, z))
        return np.asarray(self._f(x, y, z)).astype(bool)


class Polygon(Shape):
    def __init__(self, vertices):
        super().__init__(vertices, self.within)

    def within(self, x, y, z):
        inside = np.zeros(len(x), dtype=bool)
        vs = [v.astype(float) for v in self.vertices]
        for a, b in zip(vs, vs[-1:] + vs[:-1]):
            if a[1] != b[1]:
                cross = ((a[1] > y) != (b[1] > y)) & (x > (b[0] - a[0]) / (b[1] - a[1]) * (y - a[1]) + a[0])
                inside ^= cross
        return inside


class FreeformShape(Shape):
    def __init__(self, contains, width, center):
        w, c = cartesian(width), cartesian(center)
        a, b = c - w / 2, c + w / 2
        super().__init__([[(a, b)[i][0], (a, b)[j][1], (a, b)[k][2]] for k in (0, 1) for j in (0, 1) for i in (0, 1)], contains)


class Line(Shape):
    def __init__(self, a, b):
        if len(a) > 3 or len(b) > 3:
            raise TypeError("not a position")
        super().__init__([a, b], None)


class Core:
    """The lattice of the core: vectors only"""
    def __init__(self, *vectors):
        self.vectors = [cartesian(v) for v in vectors]
        self.ndim = len(vectors)


cpp.Shape, cpp.Polygon, cpp.FreeformShape, cpp.Line, cpp.Lattice = Shape, Polygon, FreeformShape, Line, Core
cpp.TranslationalSymmetry = lambda *a: ("symmetry",) + a
cpp.Primitive = lambda *a: ("primitive",) + a
import matplotlib.pyplot as plt
import pybinding as pb
from pybinding import shape as shapes

DRAWN = []
plt.plot = lambda x, y, **k: DRAWN.append([x, y])
plt.imshow = lambda area, extent, **k: DRAWN.append([area, extent])


def vertices(s):
    return [[to_int(2 * c, 1e-4) for c in cartesian(v)] for v in s.vertices]


def box(o):
    def contains(x, y, z):
        r = np.ones(len(x), dtype=bool)
        for v, (lo, hi) in zip((x, y, z), o["box"]):
            r &= (2 * v > lo) & (2 * v < hi)
        return r
    return contains


OPS = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b}


def half(v):
    return [c / 2 for c in v]


def drawing(s, o):
    del DRAWN[:]
    vs = [cartesian(v) for v in s.vertices]
    if isinstance(s, (pb.Polygon, shapes.Line)):
        s.plot()
        (x, y), = DRAWN
        return {"outline": [[to_int(2 * a, 1e-4), to_int(2 * b, 1e-4)] for a, b in zip(x, y)], "extent": [], "area": []}
    count = [int(round(o["fine"] * 2 * float(max(v[k] for v in vs) - min(v[k] for v in vs)))) + 1 for k in range(2)]
    s.plot(resolution=tuple(count))
    (area, extent), = DRAWN
    return {"outline": [], "extent": [to_int(2 * v, 1e-4) for v in extent], "area": [[bool(v) for v in row] for row in np.ma.filled(area, False)]}


def one_op(w, o):
    op = o["op"]
    if op == "draw":
        return dict(drawing(w[o["look"]], o), vertices=vertices(w[o["look"]]))
    if op == "polygon":
        w.append(pb.Polygon([half(v) for v in o["vertices"]]))
    elif op == "rectangle":
        w.append(pb.rectangle(*[c / 2 for c in o["sides"]]))
    elif op == "regular":
        w.append(pb.regular_polygon(4, o["radius"] / 2, angle=o["quarters"] * math.pi / 2))
    elif op == "circle":
        w.append(pb.circle(o["radius"] / 2, center=half(o["center"])))
    elif op == "box":
        kw = {"center": half(o["center"])} if o["center"] or o["explicit"] else {}
        w.append(pb.FreeformShape(box(o), half(o["width"]) if len(o["width"]) > 1 or o["explicit"] else o["width"][0] / 2, **kw))
    elif op == "compose":
        w.append(OPS[o["how"]](w[o["a"]], w[o["b"]]))
    elif op == "offset":
        v = half(o["by"])
        w.append(w[o["of"]].with_offset(np.array(v) if o["array"] else v))
    elif op == "line":
        form = (lambda p: p[0] / 2) if len(o["a"]) == 1 else half
        s = pb.line(form(o["a"]), form(o["b"]))
        if o["by"]:
            s = s.with_offset(np.array(half(o["by"])) if o["array"] else half(o["by"]))
        return dict(drawing(s, o), vertices=vertices(s), ends=[[to_int(2 * c) for c in v] for v in (s.a, s.b)])
    elif op == "symmetry":
        r = shapes.translational_symmetry(**{k: v for k, v in o["args"].items()})
        return {"lengths": [to_int(2 * c) for c in r[1:]]}
    elif op == "lattice":
        vs = o["vectors"]
        lat = pb.Lattice(*([c / 2 for c in v] if len(v) > 1 else v[0] / 2 for v in vs))
        n = len(vs)
        det = o["det"]      # the reciprocal vectors are integers when multiplied with it
        rec = [[to_int(det * c / (4 * math.pi), 1e-4) for c in v] for v in np.atleast_2d(lat.reciprocal_vectors())]
        if n == 3:
            return {"reciprocal": rec, "zone": []}
        z = [np.atleast_1d(v) for v in lat.brillouin_zone()]
        # vertices are multiples of 4 pi / (2 det^2) ...
        return {"reciprocal": rec, "zone": [[to_int(2 * det * det * c / (4 * math.pi), 1e-3) for c in v] for v in z]}
    s = w[o["look"] if "look" in o else -1]
    x, y, z = (np.array([p[k] / 2 for p in o["points"]], dtype=np.float32) for k in range(3))
    return {"vertices": vertices(s), "in": [bool(v) for v in s.contains(x, y, z)]}


main_loop(lambda sc: run_ops(sc, [], one_op))

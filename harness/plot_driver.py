#!/usr/bin/env -S python3-vt -W ignore
"""Drives the plots of the Python layer: a stand-in for matplotlib writes down what is drawn"""
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py_common
from py_common import *

py_common.Finder.real.add("pybinding.pltutils")
import matplotlib as mpl
import matplotlib.pyplot as plt
import matplotlib.collections
import matplotlib.colors
import matplotlib.path
import matplotlib.transforms
import mpl_toolkits.mplot3d.art3d as art3d
import mpl_toolkits.mplot3d.proj3d as proj3d


# ------------------------------------------------------------------ stand-in for matplotlib
class Collection:
    def __init__(self, offsets=None, **kw):
        self._offsets, self.kw, self._A, self.axes = np.zeros((0, 2)) if offsets is None else np.array(offsets, dtype=float), kw, None, None

    def set_array(self, a):
        self._A = a

    def get_array(self):
        return self._A

    def get_offsets(self):
        return self._offsets

    def set_offsets(self, o):
        self._offsets = np.array(o, dtype=float)

    def set_rasterized(self, v):
        pass

    set_transform = set_linewidth = set_lw = set_facecolors = set_edgecolors = set_facecolor = set_edgecolor = set_rasterized

    def update_scalarmappable(self):
        pass

    def get_facecolor(self):
        return np.zeros((1, 4))

    get_edgecolor = get_facecolor
    _alpha = 1.0


class LineCollection(Collection):
    def __init__(self, lines, colors=None, **kw):
        super().__init__(**kw)
        self.lines, self.colors = np.array(list(lines), dtype=float), colors


class ListedColormap:
    def __init__(self, colors):
        self.colors = list(colors)


class BoundaryNorm:
    def __init__(self, boundaries, ncolors):
        self.boundaries, self.n = np.asarray(boundaries, dtype=float), ncolors
        if ncolors < len(boundaries) - 1:
            raise ValueError("too few colors")

    def __call__(self, values):
        i = np.digitize(np.asarray(values, dtype=float), self.boundaries) - 1
        bins = len(self.boundaries) - 1
        if self.n > bins:
            i = (i * (self.n - 1) // (bins - 1)) if bins > 1 else (self.n - 1) // 2 + 0 * i
        return i


class Axes:
    def __init__(self, name):
        self.name, self.artists, self.notes, self.calls, self.transData = name, [], [], [], None
        self.aligned, self.patches = [], []
        self.add_patch = self.patches.append
        self.spines = {k: types.SimpleNamespace(set_visible=lambda v: None) for k in ("left", "right", "top", "bottom")}
        self.callbacks = types.SimpleNamespace(connect=lambda *a: None)
        self.transLimits = types.SimpleNamespace(transform=lambda p: p)
        self.bbox = self.viewLim = types.SimpleNamespace(width=1.0, height=1.0)

    def add_collection(self, c):
        c.axes = self
        self.artists.append(c)

    add_collection3d = add_collection

    def has_data(self):
        return False

    def get_figure(self):
        return types.SimpleNamespace(bbox_inches=types.SimpleNamespace(width=3.0))

    def get_position(self):
        return types.SimpleNamespace(width=1.0)

    def get_xlim(self):
        return (0.0, 10.0)

    def ignored(self, *a, **k):
        pass

    set_aspect = autoscale_view = auto_scale_xyz = set_zmargin = ignored

    def set_xlabel(self, s):
        self.calls.append(("xlabel", s))

    def set_ylabel(self, s):
        self.calls.append(("ylabel", s))


def hexes(c):
    if isinstance(c, str):
        if c == "white":
            return (1.0, 1.0, 1.0)
        if c.startswith("#"):
            return tuple(int(c[i:i + 2], 16) / 255 for i in (1, 3, 5))
        raise DriverError(c)
    return tuple(float(v) for v in c)


NOW = [Axes("rectilinear")]


def record(name):
    def f(*a, **k):
        NOW[0].calls.append((name,) + a + ((k,) if k else ()))
        return types.SimpleNamespace(collections=[])
    return f


for n in ("plot", "scatter", "pcolormesh", "quiver", "tripcolor", "tricontourf", "tricontour", "xlim", "ylim", "title", "xlabel", "ylabel", "xticks", "axvline", "sci", "arrow", "yticks", "ylim"):
    setattr(plt, n, record(n))
plt.gca = lambda: NOW[0]
def annotate(s, xy, **k):
    NOW[0].notes.append((s, xy))
    NOW[0].aligned.append([k.get("ha", k.get("horizontalalignment", "")), k.get("va", k.get("verticalalignment", ""))])


plt.annotate = annotate
plt.Polygon = lambda xy, **k: np.array(xy)
plt.cycler = lambda *a, **k: ()
plt.get_cmap = lambda name: lambda bins: np.zeros((len(bins), 4))
mpl.rcParams = {"axes.prop_cycle": []}
mpl.collections = matplotlib.collections
matplotlib.collections.Collection, matplotlib.collections.LineCollection = Collection, LineCollection
art3d.Line3DCollection = LineCollection
art3d.juggle_axes = lambda xs, ys, zs, zdir: (np.asarray(xs), np.asarray(ys), np.asarray(zs))
art3d.zalpha = lambda colors, zs: colors
DEPTH = [np.array([0, 0, 1])]
proj3d.proj_transform_clip = lambda xs, ys, zs, M=None: (xs, ys, DEPTH[0][0] * xs + DEPTH[0][1] * ys + DEPTH[0][2] * zs)
matplotlib.colors.ListedColormap, matplotlib.colors.BoundaryNorm = ListedColormap, BoundaryNorm
matplotlib.colors.colorConverter = types.SimpleNamespace(to_rgb=hexes, to_rgba_array=lambda c, a: c)
matplotlib.path.Path = types.SimpleNamespace(unit_circle=lambda: None)
import matplotlib.artist
matplotlib.artist.allow_rasterization = lambda f: f

class CoreModel:
    """Stands for the model of the extension module: one unit cell of the lattice and its neighbors"""
    def __init__(self, lattice):
        self.core, self.lengths = lattice, None

    def add(self, what):
        if not isinstance(what, CoreSymmetry):
            raise DriverError(type(what).__name__)
        self.lengths = what.lengths

    @property
    def system(self):
        if self.lengths is None or any(v != 0 for v in self.lengths[:self.core.ndim]):
            raise RuntimeError("not the infinite lattice")
        w = self.core.world
        n = len(w.values)
        return types.SimpleNamespace(positions=w.structure.positions, hopping_blocks=w.hops, boundaries=w.bounds, site_registry=types.SimpleNamespace(name_map=names_map(w.names)),
                                     num_sites=n, compressed_sublattices=types.SimpleNamespace(decompressed=lambda: np.arange(n, dtype=np.int32), alias_ids=np.arange(n)))


class CoreSymmetry:
    def __init__(self, *lengths):
        self.lengths = lengths


py_common.cpp.Model, py_common.cpp.TranslationalSymmetry = CoreModel, CoreSymmetry
import pybinding as pb
from pybinding import pltutils, system as psystem
from pybinding.leads import Lead
from pybinding.model import Model
from pybinding.results import Series, SpatialMap, StructureMap, Structure, Sweep, Bands, Path, make_path, Eigenvalues
from pybinding.support.alias import AliasArray, AliasCSRMatrix, AliasIndex
from pybinding.support.structure import Sites, Hoppings, Boundary
from scipy.sparse import csr_matrix

for n in ("despine", "despine_all", "respine", "add_margin", "set_min_axis_length", "set_min_axis_ratio", "colorbar", "legend"):
    setattr(pltutils, n, lambda *a, **k: None)


def names_map(names):
    return {a + ("|" + b if b else ""): i for a, b, i in names}


def hoppings(hops, n, names):
    rows, cols, ids = ([h[k] for h in hops] for k in range(3))
    m = csr_matrix((np.array(ids, dtype=np.int32), (np.array(rows, dtype=np.int32), np.array(cols, dtype=np.int32))), shape=(n, n))
    return Hoppings(AliasCSRMatrix(m, mapping=names_map(names)))


class World:
    def __init__(self, o):
        self.names = o["names"]
        n = len(o["sites"])
        x, y, z, sub, self.values = (np.array([s[k] for s in o["sites"]]) for k in range(5))
        self.positions = tuple(v.astype(np.float32) for v in (x, y, z))
        self.ids = AliasArray(sub.astype(np.int32), names_map(o["names"]))
        self.hops = hoppings(o["hops"], n, o["hopnames"])
        self.bounds = [Boundary(np.array(s, dtype=np.float32), hoppings(h, n, o["hopnames"])) for s, h in o["bounds"]]
        self.structure = Structure(Sites(self.positions, self.ids), self.hops, self.bounds)
        lattice = types.SimpleNamespace(site_radius_for_plot=lambda: 0.5, hoppings={k: types.SimpleNamespace(family_id=v) for k, v in names_map(o["hopnames"]).items()})
        self.system = Structure(Sites(self.positions, self.ids), self.hops, self.bounds)
        self.system.lattice = lattice

    def lead(self, k):
        lead = Lead.__new__(Lead)
        s = Structure(Sites(self.positions, self.ids), self.hops, [self.bounds[k]])
        s.lattice = self.system.lattice
        lead.__class__ = type("L", (Lead,), {"system": s})
        lead.index = k
        return lead


def make_lattice(o):
    """A lattice of the Python layer around a stand-in for the one of the core"""
    dim = o["dim"]
    terms = {}
    for name, rel, i, j in o["terms"]:
        terms.setdefault(name, []).append(types.SimpleNamespace(relative_index=np.array(rel, dtype=np.int32), from_id=i, to_id=j))
    impl = types.SimpleNamespace(
        ndim=dim, nsub=len(o["sites"]), nhop=len(terms), vectors=[np.array(v, dtype=float) for v in o["vectors"]], offset=np.zeros(3), min_neighbors=1,
        sublattices={a: types.SimpleNamespace(position=np.array(o["sites"][i][:3], dtype=float), unique_id=i, alias_id=i, energy=np.zeros((1, 1))) for a, _, i in o["names"]},
        hoppings={name: types.SimpleNamespace(family_id=k, terms=terms.get(name, [])) for name, k in o["families"]}, world=World(o))
    return pb.Lattice.from_impl(impl)


def arrows(scale):
    return [[to_int(scale * v, 1e-3) for v in c[1:5]] for c in NOW[0].calls if c[0] == "arrow"]


def notes(scale):
    """Names, numbered vectors and cells with their positions"""
    r = {"names": [], "vectors": [], "cells": []}
    for (s, xy), where in zip(NOW[0].notes, NOW[0].aligned):
        at = [to_int(scale * v, 1e-3) for v in list(xy)[:2]]
        if s.startswith("$"):
            name, i = s.strip("$").split("_")
            r["vectors"].append([name, int(i), at])
        elif s.startswith("["):
            r["cells"].append([s, at, where])
        else:
            r["names"].append([s, at])
    return r


def plot_lattice(o):
    lat = make_lattice(o)
    if o["op"] == "radius":
        r = lat.site_radius_for_plot() if o["part"] == 33 else lat.site_radius_for_plot(max_fraction=o["part"] / 100)
        return {"square": int(np.ceil(r * r * 10000 * 100 - 1e-3)), "positive": bool(r > 0)}
    if o["op"] == "vectors":
        position = np.array(o["position"], dtype=float) if o["array"] else list(o["position"])
        lat.plot_vectors(position, **({} if o["scale"] == 1 else {"scale": o["scale"]}))
        return dict(notes(2), arrows=arrows(2))
    if o["op"] == "zone":
        NOW[0] = Axes("rectilinear")
        lat.plot_brillouin_zone(**({} if o["decorate"] else {"decorate": False}))
        det, zone = o["det"] / (2 * np.pi), lat.brillouin_zone()
        if o["dim"] == 1:
            (_, x, y, _), = [c for c in NOW[0].calls if c[0] == "plot"]
            (_, ticks, labels), = [c for c in NOW[0].calls if c[0] == "xticks"]
            return {"zone": [[to_int(100 * det * v, 1e-3), 0] for v in zone], "drawn": [[to_int(100 * det * v, 1e-3), to_int(100 * (y[0] - y[1]))] for v in x],
                    "arrows": [], "vectors": [], "cells": [[[int(np.round(1e4 * t)), 0], [multiple(s), 0], ["", ""]] for t, s in zip(ticks, labels)]}
        drawn, = NOW[0].patches
        r = notes(1)
        cells = [[[int(np.round(1e4 * v)) for v in list(xy)[:2]], [multiple(q) for q in s[1:-1].split(", ")], where] for (s, xy), where in zip(NOW[0].notes, NOW[0].aligned) if s.startswith("[")]
        return {"zone": [[int(np.round(1e4 * q)) for q in v] for v in zone], "drawn": [[int(np.round(1e4 * q)) for q in v] for v in drawn],
                "arrows": arrows(det), "vectors": [[q[0], q[1], [to_int(2 * det * v, 1e-3) for v in xy[:2]]] for q, (s, xy) in zip(r["vectors"], [n for n in NOW[0].notes if n[0].startswith("$")])],
                "cells": cells}
    where = {"center": "center", "none": None, "list": o["position"], "array": np.array(o["position"], dtype=float)}[o["where"]]
    lat.plot(num_periods=o["periods"], **({} if o["axes"] == "xy" and o["short"] else {"axes": o["axes"]}), **({} if o["where"] == "center" and o["short"] else {"vector_position": where}))
    scale = 20 * len(o["sites"])
    return dict(artists(), arrows=arrows(scale), **notes(scale))


def multiple(text):
    """The number of a text like -0.67 pi, in units of 0.0001"""
    s = text.replace("$\\pi$", "")
    return int(round(10000 * np.pi * (float(s) if s not in ("", "-") else float(s + "1")))) if s != text else int(text) * 10000


PALETTE = ["#%02x%02x%02x" % c for c in ((200, 20, 20), (20, 200, 20), (20, 20, 200), (220, 220, 20), (20, 220, 220), (220, 20, 220))]


def color_ids(col, values):
    """The position in the list of colors of each item, also when the colors are blended with white"""
    cmap, norm = col.kw.get("cmap"), col.kw.get("norm")
    if not isinstance(cmap, ListedColormap):
        return [-1] * len(values)
    r = []
    for k in norm(np.asarray(values)):
        c = 1 - np.array(hexes(cmap.colors[min(max(int(k), 0), len(cmap.colors) - 1)]))
        c = c / np.linalg.norm(c)
        near = [i for i, p in enumerate(PALETTE) if np.allclose((1 - np.array(hexes(p))) / np.linalg.norm(1 - np.array(hexes(p))), c, atol=1e-4)]
        r.append(near[0] if near else -1)
    return r


def artists(base=0, scale=1):
    circles, lines = [], []
    for c in NOW[0].artists:
        if isinstance(c, LineCollection):
            values = [0] * len(c.lines) if c._A is None else np.asarray(c._A)
            if len(values) != len(c.lines):
                raise RuntimeError("wrong number of values")
            lines.append([[ints(2 * a), ints(2 * b), to_int(v), k] for (a, b), v, k in zip(c.lines, values, color_ids(c, values))])
        else:
            depth = []
            if hasattr(c, "_offsets3d"):      # what is seen from a point of view, the furthest one first
                seen = np.sort(DEPTH[0] @ np.array(c._offsets3d))[::-1]
                c.do_3d_projection(types.SimpleNamespace(M=None))
                depth = [[v] for v in ints(2 * seen)]
            pts = ints(2 * c._offsets) if len(c._offsets) else []
            values = np.asarray(c._A)
            radius = np.atleast_1d(c.radius) * (8 if depth else 1)
            radius = [to_int((100 * v - base) * scale, 1e-3) for v in radius] if len(radius) > 1 else [0] * len(pts)
            if not len(values) == len(pts) == len(radius):
                raise RuntimeError("wrong number of values")
            circles.append([[p + d, to_int(v), k, q] for p, d, v, k, q in zip(pts, depth or [[]] * len(pts), values, color_ids(c, values), radius)])
    calls = dict((c[0], c[1]) for c in NOW[0].calls if c[0] in ("xlabel", "ylabel"))
    return {"circles": circles, "lines": lines, "labels": [calls.get("xlabel", ""), calls.get("ylabel", "")]}


def look_styles(o):
    s, h = {}, {}
    if o["colors"]:
        s["cmap"] = PALETTE[:o["colors"]]
    if o["hopcolors"]:
        h["cmap"] = PALETTE[:o["hopcolors"]]
    if o["only"]:
        h["draw_only"] = o["only"]
    return s, h


def one_op(w, o):
    op = o["op"]
    NOW[0] = Axes("3d" if o.get("three") else "rectilinear")
    if op == "world":
        w.append(World(o))
        return 0
    if op in ("lattice", "vectors", "zone", "radius"):
        return plot_lattice(o)
    m = w[0] if w else None
    if op in ("sites", "hoppings", "periodic", "structure", "map", "lead", "model"):
        site, hop = look_styles(o)
        if "depth" in o:
            DEPTH[0] = np.array(o["depth"])
    if op == "sites":
        site["radius"] = np.array(o["radius"]) / 100 if o["radius"] else 0.5
        col = psystem.plot_sites(m.positions, m.values.astype(float) if o["by"] == "value" else m.ids, offset=o["offset"], axes=o["axes"], **site)
        if (col is None) != (len(NOW[0].artists) == 0):
            raise RuntimeError("returned something else")
    elif op == "hoppings":
        hs = m.hops if o["of"] < 0 else m.bounds[o["of"]].hoppings
        mine = {"csr": hs.tocsr(), "coo": hs.tocoo(), "own": hs}[o["form"]]
        before = coo(mine)
        if o["boundary"]:
            hop["boundary"] = (o["sign"], np.array(o["boundary"], dtype=float))
        psystem.plot_hoppings(m.positions, mine, offset=o["offset"], axes=o["axes"], **hop)
        r = artists()
        r["kept"] = coo(mine) == before
        return r
    elif op == "periodic":
        psystem.plot_periodic_boundaries(m.positions, m.hops, m.bounds, m.ids, num_periods=o["periods"], site=site, hopping=hop, axes=o["axes"])
    elif op == "structure":
        args = dict(site=site, hopping=hop) if o["singular"] else dict(sites=site, hoppings=hop)
        (m.system if o["lattice"] else m.structure).plot(num_periods=o["periods"], axes=o["axes"], **args)
    elif op == "map":
        site.pop("cmap", None)
        smap = m.structure.with_data(m.values.astype(float))
        smap.plot(num_periods=o["periods"], axes=o["axes"], site_radius=(0.01, 0.01 + o["delta"] / 100), site=site, hopping=hop)
        return artists(1, max(m.values.max() - m.values.min(), 1))
    elif op == "lead":
        m.lead(o["k"]).plot(lead_length=o["length"], axes=o["axes"], site=site, hopping=hop)
        return dict(artists(), notes=lead_names())
    elif op == "model":
        fake = types.SimpleNamespace(system=m.system, leads=[m.lead(k) for k in o["leads"]])
        Model.plot(fake, num_periods=o["periods"], lead_length=o["length"], axes=o["axes"], site=site, hopping=hop)
        return dict(artists(), notes=lead_names())
    elif op == "contact":
        return contact(o)
    elif op == "indices":
        psystem.plot_site_indices(m.structure)
        return [[to_int(s), ints(2 * np.array(xy))] for s, xy in NOW[0].notes]
    elif op == "names":
        psystem.plot_hopping_values(m.system)
        return [[s, ints(2 * np.array(xy))] for s, xy in NOW[0].notes]
    elif op == "levels":
        e = Eigenvalues(np.array(o["energy"], dtype=float), np.array(o["probability"], dtype=float)) if o["heat"] else Eigenvalues(np.array(o["energy"], dtype=float))
        if o["heat"]:
            top = e.plot_heatmap(mark_degenerate=o["mark"], show_indices=o["numbers"])
        else:
            e.plot(mark_degenerate=o["mark"], show_indices=o["numbers"])
        (_, x, y, kw), = [c for c in NOW[0].calls if c[0] == "scatter"]
        c, s = ([], []) if isinstance(kw["c"], str) else (ints(kw["c"]), [to_int(len(e.values) and (v - 7) / 77 * e.probability.max(), 1e-4) for v in kw["s"]])
        return {"points": [list(p) for p in zip(ints(x), ints(y))], "color": c, "size": s,
                "lines": [[ints(a), ints(b)] for col in NOW[0].artists for a, b in col.lines], "notes": [[to_int(t), ints(np.array(xy))] for t, xy in NOW[0].notes],
                "top": to_int(top) if o["heat"] and top is not None else -1}
    elif op == "bands":
        path = make_path(*o["points"], step=1)
        energy = np.array(o["energy"], dtype=float)[:len(path)]
        b = Bands(path, energy)
        b.plot(**({"point_labels": o["labels"]} if o["labels"] else {}))
        (_, k, e, _), = [c for c in NOW[0].calls if c[0] == "plot"]
        (_, ticks, labels), = [c for c in NOW[0].calls if c[0] == "xticks"]
        return {"k": ints(np.ravel(k)), "energy": ints(e), "ticks": ints(np.ravel(ticks)), "labels": [str(s) for s in labels],
                "marks": [to_int(np.ravel(c[1])[0]) for c in NOW[0].calls if c[0] == "axvline"], "n": len(path)}
    elif op == "series":
        s = Series(np.array(o["x"], dtype=float), np.array(o["data"], dtype=float), labels=dict(variable="V", data="D"))
        s.plot()
        (_, x, y), = [c for c in NOW[0].calls if c[0] == "plot"]
        (_, lo, hi), = [c for c in NOW[0].calls if c[0] == "xlim"]
        return {"x": ints(x), "y": ints(y), "lim": [to_int(lo), to_int(hi)], "labels": [c[1] for c in NOW[0].calls if c[0] in ("xlabel", "ylabel")]}
    elif op == "sweep":
        s = Sweep(np.array(o["x"], dtype=float), np.array(o["y"], dtype=float), np.array(o["data"], dtype=float), labels=dict(x="X (u)", y="Y (v)", data="D", title="T"))
        if o["slice"] == "":
            s.plot()
            (_, x, y, d, _), = [c for c in NOW[0].calls if c[0] == "pcolormesh"]
            return {"x": ints(x), "y": ints(y), "data": ints(d), "title": "", "labels": [c[1] for c in NOW[0].calls if c[0] in ("xlabel", "ylabel")]}
        getattr(s, "plot_slice_" + o["slice"])(o["at"])
        (_, x, y), = [c for c in NOW[0].calls if c[0] == "plot"]
        return {"x": ints(x), "y": [], "data": ints(y), "title": [c[1] for c in NOW[0].calls if c[0] == "title"][0], "labels": [c[1] for c in NOW[0].calls if c[0] in ("xlabel", "ylabel")]}
    elif op == "path":
        make_path(*o["points"], step=1).plot()
        (_, x, y, u, v, _), = [c for c in NOW[0].calls if c[0] == "quiver"]
        return [[to_int(q) for q in p] for p in zip(x, y, u, v)]
    elif op == "spatial":
        s = SpatialMap(m.values.astype(float), m.positions, m.ids)
        getattr(s, "plot_" + o["how"])()
        (c,) = [c for c in NOW[0].calls if c[0].startswith("tri")]
        return [[to_int(q) for q in p] for p in zip(*c[1:4])]
    else:
        raise DriverError(op)
    return artists()


def lead_names():
    return [[s, [to_int(4 * v, 1e-3) for v in xy]] for s, xy in NOW[0].notes]


def contact(o):
    vectors = [np.array(o["vector"] if k == o["axis"] else o["other"], dtype=float) for k in range(o["dim"])]
    ends = [np.array(p + [0.0]) for p in (o["a"], o["b"], o["a"], o["b"])][:o["vertices"]]
    spec = types.SimpleNamespace(shape=types.SimpleNamespace(vertices=ends), axis=o["axis"], sign=o["sign"])
    lead = Lead(types.SimpleNamespace(spec=spec), 0, types.SimpleNamespace(vectors=vectors))
    lead.plot_contact(**({} if o["arrow"] == 5 and o["shade"] == 3 else {"arrow_length": o["arrow"] / 10, "shade_width": o["shade"] / 10}))
    at = lambda k, xy: [to_int(k * o["norm"] * v, 1e-3) for v in xy]
    line, shade = NOW[0].patches
    (_, x, y, u, v, _), = [c for c in NOW[0].calls if c[0] == "arrow"]
    (s, xy), = NOW[0].notes
    return {"line": [at(10, p) for p in line], "start": at(10, (x, y)), "arrow": at(10, (u, v)), "shade": [at(100, p) for p in shade], "label": [s, at(100, xy)]}


def coo(h):
    m = h.tocoo()
    return [[int(r), int(c), to_int(v)] for r, c, v in zip(m.row, m.col, np.asarray(m.data))]


main_loop(lambda sc: run_ops(sc, [], one_op))

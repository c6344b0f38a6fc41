#!/usr/bin/env -S python3-vt -W ignore
"""Drives the result objects of the Python layer"""
import os
import pickle
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *

import pybinding as pb
from pybinding.results import (Series, SpatialMap, StructureMap, Structure, Sweep, NDSweep, Bands, Path, make_path)
from pybinding.support.alias import AliasArray, AliasCSRMatrix
from pybinding.support.structure import Sites, Hoppings, Boundary
from scipy.sparse import csr_matrix

SCRATCH = tempfile.mkdtemp(prefix="results-")


def names_map(names):
    return {a + ("|" + b if b else ""): i for a, b, i in names}


def hoppings(hops, n, names):
    rows, cols, ids = ([h[k] for h in hops] for k in range(3))
    m = csr_matrix((np.array(ids, dtype=np.int32), (np.array(rows, dtype=np.int32), np.array(cols, dtype=np.int32))), shape=(n, n))
    return Hoppings(AliasCSRMatrix(m, mapping=names_map(names)))


def make_map(o):
    n = len(o["sites"])
    x, y, z, sub, data = (np.array([s[k] for s in o["sites"]]) for k in range(5))
    ids = AliasArray(sub.astype(np.int32), names_map(o["names"]))
    if o["missing"]:
        data = data[:-1]
    x, y, z = (v.astype(np.float32) for v in (x, y, z))
    if o["nosub"]:
        return SpatialMap(data.astype(float), (x, y, z))
    if o["kind"] == "spatial":
        return SpatialMap(data.astype(float), (x, y, z), ids)
    sites = Sites((x, y, z), ids)
    hops = hoppings(o["hops"], n, o["hopnames"])
    bounds = [Boundary(np.array(s), hoppings(h, n, o["hopnames"])) for s, h in o["bounds"]]
    s = Structure(sites, hops, bounds)
    if o["kind"] == "structure" and not o["missing"]:
        return s
    return s.with_data(data.astype(float))


def coo(h):
    m = h.tocoo()
    return [[int(r), int(c), to_int(v)] for r, c, v in zip(m.row, m.col, np.asarray(m.data))]


def look_map(m, o):
    kind = {"SpatialMap": "spatial", "StructureMap": "structuremap", "Structure": "structure"}.get(type(m).__name__, type(m).__name__)
    obs = {"kind": kind, "n": to_int(m.num_sites), "xyz": ints(m.xyz) if m.num_sites else []}
    data = m.data if kind != "structure" else np.zeros(m.num_sites)
    obs["sites"] = [[to_int(v) for v in s] for s in zip(m.x, m.y, m.z, np.asarray(m.sub), data)]
    if len(data) != m.num_sites or len(m.positions.x) != len(m.sublattices):
        obs["n"] = -1
    obs["subnames"] = [[q, [bool(v) for v in m.sublattices == q], [bool(v) for v in m.sub != q]] for q in o["names"]]
    if kind != "spatial":
        obs["hops"] = coo(m.hoppings)
        obs["nnz"] = to_int(m.hoppings.nnz)
        obs["bounds"] = [[ints(b.shift), coo(b.hoppings)] for b in m.boundaries]
        c = m.hoppings.tocoo()
        obs["hopnames"] = []
        for q in o["hopnames"]:
            eq = c.data == q
            obs["hopnames"].append([q, [[int(r), int(k), to_int(v)] for r, k, v, e in zip(c.row, c.col, np.asarray(c.data), eq) if e]])
    return obs


def look_sweep(s, labels):
    path = os.path.join(SCRATCH, "sweep.dat")
    s.save_txt(path)
    text = [[to_int(float(v)) for v in line.split()] for line in open(path) if not line.startswith("#")]
    return {"x": ints(s.x), "y": ints(s.y), "data": ints(s.data), "text": text,
            "kept": s.labels["x"] == "Var" and s.labels["y"] == "y" and s.tags == {"t": 1}}


def index(idx):
    k = idx["kind"]
    if k == "mask":
        return np.array(idx["mask"], dtype=bool)
    if k == "list":
        return np.array(idx["list"], dtype=int) if idx.get("array", True) else list(idx["list"])
    if k == "slice":
        return slice(idx["start"], idx["stop"], idx["step"])
    return idx["i"]


class Box:
    """Stands for a shape"""
    def __init__(self, limits):
        self.limits = limits

    def contains(self, x, y, z):
        m = np.ones(len(x), dtype=bool)
        for name, lo, hi in self.limits:
            v = dict(x=x, y=y, z=z)[name]
            m &= (v >= lo) & (v < hi)
        return m


def copied(m, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(m))
    if how == "protocol":
        return pickle.loads(pickle.dumps(m, protocol=4))
    if how == "old":
        # the state of a class before it had a version
        new = type(m).__new__(type(m))
        new.__setstate__(dict(m.__dict__))
        return new
    if how == "other version":
        state = dict(m.__getstate__())
        state["version"] += 1
        try:
            type(m).__new__(type(m)).__setstate__(state)
        except RuntimeError:
            return pickle.loads(pickle.dumps(m))
        raise ValueError("accepted the data of another version")
    name = os.path.join(SCRATCH, how)
    for f in os.listdir(SCRATCH):
        os.unlink(os.path.join(SCRATCH, f))
    if how == "pathlib":
        import pathlib
        pb.save(m, pathlib.Path(name))
        return pb.load(pathlib.Path(name))
    pb.save(m, name)
    if how == "plain" and not os.path.exists(name + ".pbz"):
        raise RuntimeError("the file has no extension")
    return pb.load(name)


def run_op(w, o):
    op = o["op"]
    if op == "map":
        w.append(make_map(o))
        return 0
    if op == "sweep":
        w.append(Sweep(np.array(o["x"]), np.array(o["y"]), np.array(o["data"]), labels=dict(x="Var"), tags={"t": 1}))
        return 0
    if op == "path":
        p = make_path(*[q if len(q) > 1 or o["lists"] else q[0] for q in o["points"]], step=o["step"])
        saved = pickle.loads(pickle.dumps(p))
        bands = Bands(p, np.zeros((len(p), 2)))
        same = np.all(saved == p) and list(saved.point_indices) == list(p.point_indices) \
            and np.all(bands.k_path == p) and list(bands.k_path.point_indices) == list(p.point_indices) and bands.num_bands == 2
        return {"path": ints(60 * np.asarray(p)), "indices": ints(p.point_indices), "points": ints(60 * np.asarray(p.points)),
                "simple": bool(p.is_simple), "flat": ints(60 * np.asarray(p.as_1d())), "same": bool(same)}
    if op == "nd":
        lens = o["lens"]
        s = NDSweep(tuple(np.arange(n) for n in lens), np.array(o["flat"]).reshape((-1, lens[-1])))
        return ints(pickle.loads(pickle.dumps(s)).data)
    if op == "series":
        s = Series(np.array(o["variable"]), np.array(o["data"]))
        r = s.reduced()
        if type(r) is not Series or list(r.variable) != list(s.variable):
            raise RuntimeError("not the same series")
        return {"reduced": ints(r.data), "data": ints(s.data), "variable": ints(s.variable)}
    m = w[o["of"]]
    if op == "select":
        w.append(m[index(o["idx"])])
    elif op == "named":
        w.append(m[m.sublattices == o["name"]] if o["equal"] else m[m.sub != o["name"]])
    elif op == "crop":
        if o["shape"]:
            w.append(m[Box(o["limits"])])
        else:
            w.append(m.cropped(**{n: (lo, hi) for n, lo, hi in o["limits"]}))
    elif op == "data":
        w.append(m.with_data(np.array(o["data"], dtype=float)))
    elif op == "clip":
        w.append(m.clipped(o["lo"], o["hi"]))
    elif op == "txt":
        m.save_txt(os.path.join(SCRATCH, "data"))
        lines = open(os.path.join(SCRATCH, "data.dat")).read().splitlines()
        if lines[0][:1] != "#" or any(q[:1] == "#" for q in lines[1:]):
            raise RuntimeError("not a table with a head")
        return [[to_int(q) for q in line.split()] for line in lines[1:]]
    elif op == "spatial":
        w.append(m.spatial_map)
    elif op == "copy":
        w.append(copied(m, o["how"]))
    elif op == "get":
        w.append(m[index(o["ix"]), index(o["iy"])] if o["both"] else m[index(o["ix"])])
    elif op == "limits":
        w.append(m.cropped(**{k: o[k] for k in "xy" if o[k]}))
    elif op == "mirror":
        r = m.mirrored(o["axis"])
        w.append(r)
    elif op == "refine":
        f = Sweep(m.x.astype(float), m.y.astype(float), m.data).interpolated(**{k: tuple(v) if isinstance(v, list) else v for k, v in o["kw"].items()})
        scale = (o["nx"] - 1 if o["nx"] != len(m.x) else 1) * (o["ny"] - 1 if o["ny"] != len(m.y) else 1)
        return {"x": ints(scale * f.x), "y": ints(scale * f.y), "data": ints(scale * f.data)}
    elif op == "slices":
        row, x = m._slice_x(o["x"])
        col, y = m._slice_y(o["y"])
        return {"row": ints(row), "x": to_int(x), "col": ints(col), "y": to_int(y)}
    elif op == "nearest":
        sites = Sites(m.positions, m.sublattices)
        fam = () if o["sub"] < 0 else (o["sub"],)
        return {"nearest": int(sites.find_nearest(o["at"], *fam)), "distances": ints(sites.distances(o["at"]) ** 2),
                "sorted": ints(sites.argsort_nearest(o["at"], *fam))}
    elif op == "look":
        return look_map(m, o) if not isinstance(m, Sweep) else look_sweep(m, o)
    else:
        raise DriverError("unknown op " + op)
    return 0


try:
    main_loop(lambda sc: run_ops(sc, [], run_op))
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)

#!/usr/bin/env -S python3-vt -W ignore
"""Drives the KPM interface of the Python layer and its own implementation of KPM"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *

import io
import types
import pybinding as pb
from pybinding import chebyshev
from py_system import CoreSystem
from scipy.sparse import csr_matrix
import scipy.sparse

NONE = -999


class Box:
    """Stands for a shape: a rectangle"""
    def __init__(self, limits):
        self.limits = limits

    def contains(self, x, y, z):
        (a, b), (c, d) = self.limits
        return (np.asarray(x) >= a) & (np.asarray(x) <= b) & (np.asarray(y) >= c) & (np.asarray(y) <= d)


class Model:
    def __init__(self, o, number):
        self.o, self.number, self.core = o, number, CoreSystem(o)
        self.lattice = types.SimpleNamespace(ndim=2)
        if o["re"]:
            h = np.array(o["re"], dtype=float)
            self.hamiltonian = csr_matrix(h + 1j * np.array(o["im"]) if np.any(o["im"]) else h)

    @property
    def system(self):
        return pb.system.System(self.core, self.lattice)


def energies_of(e):
    return ints(np.asarray(e, dtype=float))


class Core:
    """Stands for the core: the results tell what was asked"""
    def __init__(self, model, energy, kwargs):
        self.model, self.energy, self.kwargs, self.calls = model, energy, kwargs, []
        self.kernel = kwargs.get("kernel")
        self.scaling_factors = (1.5, model.number)
        self.stats = None

    @property
    def system(self):
        return self.model.core

    def report(self, shortform=False):
        return "short" if shortform else "long"

    def moments(self, num, alpha, beta, op):
        if not isinstance(op, csr_matrix):
            raise TypeError("csr_matrix")
        self.calls.append({"num": to_int(num), "alpha": ints(alpha), "beta": ints(beta) if len(beta) else [], "op": ints(op.toarray()) if op.shape[1] else []})
        return np.arange(num) * 3.0

    def calc_greens(self, i, j, energy, broadening):
        self.calls.append({"i": to_int(i), "j": ints(np.atleast_1d(j)), "energy": energies_of(energy), "broadening": to_int(broadening)})
        if np.ndim(j):
            return [100.0 * k + np.asarray(energy) for k in j]
        return 100.0 * j + np.asarray(energy)

    def _local(self, energy, columns, broadening):
        return np.array([[1000.0 * broadening + 100 * e + r for r in columns] for e in energy]).reshape(len(energy), len(columns))

    def calc_ldos(self, energy, broadening, position, sublattice="", reduce=True):
        s = self.model.core
        r = self._local(energy, s.to_hamiltonian_indices(s.find_nearest(position, sublattice)), broadening)
        return r.sum(axis=1, keepdims=True) if reduce and r.shape[1] > 1 else r

    def deferred_ldos(self, energy, broadening, position, sublattice):
        return ("deferred", self.calc_ldos(energy, broadening, position, sublattice))

    def calc_spatial_ldos(self, energy, broadening, shape, sublattice):
        s = self.model.core
        keep = shape.contains(*s.positions)
        if sublattice:
            keep = keep & (s.compressed_sublattices.decompressed() == s.site_registry.name_map[sublattice])
        return self._local(energy, np.flatnonzero(keep), broadening)

    def calc_dos(self, energy, broadening, num_random):
        return 100.0 * np.asarray(energy) + 10 * broadening + num_random

    def calc_conductivity(self, mu, broadening, temperature, direction, num_random, num_points):
        self.calls.append({"broadening": to_int(broadening), "temperature": to_int(temperature), "direction": str(direction), "random": to_int(num_random), "points": to_int(num_points)})
        return 12.0 * np.asarray(mu)


class Kernel:
    """Stands for a kernel: given coefficients"""
    def __init__(self, g):
        self.g, self.asked = g, []

    def required_num_moments(self, x):
        self.asked.append(x)
        return len(self.g)

    def damping_coefficients(self, n):
        if n != len(self.g):
            raise RuntimeError("another number of moments")
        return np.array(self.g, dtype=float)


def make(model, energy, **kwargs):
    return Core(model, energy, kwargs)


cpp.kpm, cpp.kpm_cuda = make, make
cpp.jackson_kernel = lambda: 1
cpp.lorentz_kernel = lambda v: 100 + v
cpp.dirichlet_kernel = lambda: 3


class World:
    def __init__(self):
        self.models, self.k, self.python = [], None, False


def series(s, columns=False):
    d = np.asarray(s.data)
    return {"x": ints(s.variable), "data": ints(d), "dims": d.ndim, "labels": [s.labels["variable"], s.labels["data"]]}


def own_callback(delta, total):
    pass


def one_op(w, o):
    op = o["op"]
    if op == "model":
        w.models.append(Model(o, len(w.models) + 1))
        return 0
    if op == "kpm":
        kw = {}
        if o["energy"]:
            kw["energy_range"] = tuple(o["energy"])
        kernels = {"jackson": lambda: pb.jackson_kernel(), "lorentz": lambda: pb.lorentz_kernel(), "lorentz5": lambda: pb.lorentz_kernel(5), "dirichlet": lambda: pb.dirichlet_kernel()}
        if o["kernel"]:
            kw["kernel"] = kernels[o["kernel"]]()
        if o["threads"]:
            kw["num_threads"] = o["threads"]
        if o["silent"] != "no":
            kw["silent"] = o["silent"] == "yes"
        if o["callback"]:
            kw["progress_callback"] = own_callback
        kw.update(o["extra"])
        w.k = (pb.kpm_cuda if o["cuda"] else pb.kpm)(w.models[o["model"]], **kw)
        c = w.k.impl
        cb = c.kwargs.get("progress_callback")
        if w.k.kernel is not c.kernel or w.k.scaling_factors != c.scaling_factors or w.k.report() != "long" or w.k.report(True) != "short":
            raise RuntimeError("properties")
        extra = {k: v for k, v in c.kwargs.items() if k not in ("kernel", "num_threads", "progress_callback")}
        return {"model": c.model.number, "energy": ints(c.energy), "kernel": to_int(c.kwargs.get("kernel", NONE)), "threads": to_int(c.kwargs.get("num_threads", NONE)),
                "callback": "none" if cb is None else "own" if cb is own_callback else "bar" if isinstance(cb, chebyshev._ComputeProgressReporter) else "other",
                "extra": sorted([k, to_int(v)] for k, v in extra.items())}
    if op == "set_model":
        w.k.model = w.models[o["model"]]
        return {"model": w.k.model.number, "n": w.k.model.system.num_sites if isinstance(w.k.impl, chebyshev._PythonImpl) else w.k.system.num_sites}
    if op == "python":
        g = Kernel(o["g"])
        w.k = chebyshev._kpm_python(w.models[o["model"]], **({"energy_range": tuple(o["center"] + s * 2 / 1.01 for s in (-1, 1))} if o["given"] else {}), kernel=g)
        w.center = o["center"]
        return 0
    if op == "bounds":
        w.k.calc_ldos(np.array([0.0]), 1.0, o["at"])
        s = w.k.impl.stats
        if not isinstance(w.k.report(), str):
            raise RuntimeError("report")
        return [to_int(s.energy_min, 0.05), to_int(s.energy_max, 0.05)]
    if op == "exact":
        w.k.kernel.asked.clear()
        s = w.k.calc_ldos(np.array(o["energy"], dtype=float), float(o["broadening"]), o["at"], **o["kw"])
        root = np.sqrt(1 - ((np.array(o["energy"]) - w.center) / 2.0) ** 2)
        d = np.asarray(s.data)
        asked = [to_int(60 * q, 1e-3) for q in w.k.kernel.asked]
        return {"x": ints(s.variable), "data": [[to_int(v, 1e-3) for v in row] for row in np.atleast_2d((d.T * root * np.pi * 4)).T], "dims": d.ndim, "asked": sorted(set(asked)), "num": to_int(w.k.impl.stats.num_moments)}
    e = np.array(o["energy"], dtype=float) if "energy" in o else None
    core = w.k.impl if w.k else None
    if op == "ldos":
        return series(w.k.calc_ldos(e, o["broadening"], o["at"], **o["kw"]))
    if op == "deferred":
        name, d = w.k.deferred_ldos(e, o["broadening"], o["at"], **{k: v for k, v in o["kw"].items() if k != "reduce"})
        return {"x": ints(e), "data": ints(d), "dims": d.ndim, "labels": ["E (eV)", "LDOS"]}
    if op == "spatial":
        s = w.k.calc_spatial_ldos(e, o["broadening"], Box(o["box"]), **o["kw"])
        m = s.structure_map(o["pick"])
        r = {"map": [[to_int(v) for v in q] for q in zip(m.x, m.y, np.asarray(m.sub), m.data)], "ldos": {}}
        r["ldos"] = series(s.ldos(o["at"], **o["ldoskw"])) if o["look"] else {"x": [], "data": [], "dims": 1, "labels": []}
        return r
    if op == "dos":
        return series(w.k.calc_dos(e, o["broadening"], **o["kw"]))
    if op == "greens":
        r = w.k.calc_greens(o["i"], o["j"] if o["many"] else o["j"][0], e, o["broadening"])
        return {"call": core.calls[-1], "data": ints(r if o["many"] else [r])}
    if op == "moments":
        kw = {"beta": np.array(o["beta"])} if o["beta"] else {}
        if o["form"]:
            kw["op"] = {"csr": scipy.sparse.csr_matrix, "coo": scipy.sparse.coo_matrix, "csc": scipy.sparse.csc_matrix}[o["form"]](np.array(o["matrix"], dtype=float))
        r = w.k.moments(o["num"], np.array(o["alpha"]), **kw)
        return {"call": core.calls[-1], "data": ints(r)}
    if op == "conductivity":
        r = series(w.k.calc_conductivity(e, o["broadening"], o["temperature"], **o["kw"]))
        r["call"] = core.calls[-1]
        return r
    if op == "bar":
        saved, mine = (sys.stdout, sys.stderr), io.StringIO()
        sys.stdout = mine
        steps = []
        try:
            p = chebyshev._ComputeProgressReporter()
            for q in p.pbar.outputs:
                q.stream = io.StringIO()
            for delta, total in o["calls"]:
                p(delta, total)
                steps.append([int(p.pbar.running), to_int(p.pbar.value), to_int(p.pbar.size), int(sys.stdout is mine)])
        finally:
            sys.stdout, sys.stderr = saved
        return steps
    raise DriverError(op)


main_loop(lambda sc: run_ops(sc, World(), one_op))

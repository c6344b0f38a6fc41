#!/usr/bin/env -S python3-vt -W ignore
"""Drives the Python eigensolver, the orbitals of systems, the bands of leads and the conversion to kwant"""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *

import types as _types
import pybinding as pb
from py_system import CoreSystem
from pybinding.leads import Lead
from pybinding.solver import Solver, _SolverPythonImpl, arpack, lapack
from pybinding.system import System
from scipy.sparse import csr_matrix

SCALE = 2.0 ** 16


def table(rows):
    return np.array(rows, dtype=complex).reshape(len(rows), -1, 2) @ [1, 1j] if rows else np.zeros((0, 0), complex)


class Model:
    """A model with a known solution"""
    made = []

    def __init__(self, o):
        self.o, self.k = o, np.zeros(2)
        self.core = CoreSystem(o)
        self.lattice = _types.SimpleNamespace(ndim=2)
        self.number = len(Model.made) + 1
        self.leads = []
        Model.made.append(self)

    @property
    def system(self):
        return System(self.core, self.lattice)

    def set_wave_vector(self, k):
        k = np.atleast_1d(k)
        self.k = np.zeros(2)
        self.k[:len(k)] = k

    def shift(self, w):
        return float(np.dot(self.k, w))

    @property
    def hamiltonian(self):
        n, o = self.core.hamiltonian_size, self.o
        if o["blocks"]:
            h = np.zeros((n, n), dtype=complex if o["phase"] else float)
            for i, j, a, b, w in o["blocks"]:
                h[i, i] = h[j, j] = o["unit"] * (a + self.shift(w))
                if i != j:
                    h[i, j] = o["unit"] * b * (1j if o["phase"] else 1)
                    h[j, i] = np.conj(h[i, j])
            return csr_matrix(h)
        h = np.zeros((n, n), dtype=complex)
        h[0, 0] = self.number
        return csr_matrix(h)


class World:
    def __init__(self):
        del Model.made[:]
        self.solver = self.model = None
        self.attempts = self.fails = 0

    def solve(self, h, **kwargs):
        """The strategy: finds the given solution"""
        self.attempts += 1
        if self.fails:
            self.fails -= 1
            raise RuntimeError("not converged")
        m = Model.made[int(round(h[0, 0].real)) - 1]
        values = np.array([m.o["unit"] * (v + m.shift(w)) for v, w, _ in m.o["pairs"]], dtype=float)
        return values, table([row for row in np.array([p[2] for p in m.o["pairs"]]).transpose(1, 0, 2).tolist()])


def levels(values, unit, times=60):
    return [to_int(v / unit * times, 1e-5) for v in np.asarray(values)]


def structure(m):
    return {"n": to_int(m.num_sites), "sites": [[to_int(x), to_int(y)] for x, y in zip(m.x, m.y)], "sub": ints(np.asarray(m.sub))}


def query(w, o):
    s, op = w.solver, o["op"]
    unit = w.model.o["unit"]
    width = unit / math.sqrt(8 * math.log(2))
    norm = SCALE * width * math.sqrt(2 * math.pi)
    if op == "solve":
        s.solve()
        return {}
    if op == "values":
        return {"values": levels(s.eigenvalues, unit), "again": levels(s.eigenvalues, unit)}
    if op == "pairs":
        v = s.eigenvectors
        return {"values": levels(s.eigenvalues, unit), "vectors": [[to_int(complex(x)) for x in v[:, i]] for i in range(v.shape[1])]}
    if op == "eigenvalues":
        at = {"none": None, "list": o["at"], "array": np.array(o["at"], dtype=float), "tuple": tuple(o["at"])}[o["form"]]
        r = s.calc_eigenvalues() if at is None else s.calc_eigenvalues(map_probability_at=at)
        return {"values": levels(r.values, unit), "probability": [] if at is None else [to_int(2 * 27720 * p, 1e-4) for p in r.probability]}
    if op == "probability":
        m = s.calc_probability(o["n"] if o["scalar"] else np.array(o["n"]), o["reduce"] * unit / 2)
        return dict(structure(m), data=[to_int(2 * v) for v in m.data])
    es = np.array(o["energies"]) * unit if "energies" in o else None
    if op == "dos":
        r = s.calc_dos(es, width)
        return {"energies": levels(r.variable, unit, 1), "dos": [to_int(v * norm, 1e-3) for v in r.data]}
    if op == "ldos":
        r = s.calc_ldos(es, width, o["at"], o["sub"], reduce=o["reduce"])
        d = np.asarray(r.data)
        if o["reduce"] or d.ndim == 1:
            cols = [[to_int(2 * v * norm, 1e-3) for v in d]]
        else:
            cols = [[to_int(2 * v * norm, 1e-3) for v in d[:, c]] for c in range(d.shape[1])]
        return {"energies": levels(r.variable, unit, 1), "ldos": cols, "ndim": d.ndim}
    if op == "spatial":
        m = s.calc_spatial_ldos(o["energies"][0] * unit, width)
        return dict(structure(m), data=[to_int(2 * v * norm, 1e-3) for v in m.data])
    if op == "bands":
        b = s.calc_bands(*[np.array(p, dtype=float) if len(p) > 1 else p[0] for p in o["points"]], step=o["step"])
        path = np.asarray(b.k_path).reshape(len(b.k_path), -1)
        return {"path": [[to_int(60 * v, 1e-5) for v in k] for k in path], "bands": [levels(e, unit) for e in b.energy]}
    raise DriverError(op)


def one_op(w, o):
    op = o["op"]
    if op in ("solver", "set_model"):
        m = Model(o)
        if op == "solver":
            w.solver = lapack(m) if o["blocks"] else Solver(_SolverPythonImpl(w.solve, m))
        else:
            w.solver.model = m
        w.model = m
        return {"same": w.solver.model is m, "sites": w.solver.system.num_sites, "size": w.solver.system.hamiltonian_size}
    if op == "fail":
        w.fails = o["times"]
        return {}
    if op == "clear":
        w.solver.clear()
        return {}
    if op == "wave":
        w.solver.set_wave_vector(o["k"])
        return {}
    if op == "degenerate":
        return {"groups": [ints(g) for g in Solver.find_degenerate_states(np.array(o["values"], dtype=float), o["tol"] / 2)]}
    if op == "reduce":
        m = w.model.system.with_data(np.array(o["data"], dtype=float))
        e = w.model.system.expanded_positions
        return dict(structure(m), data=[to_int(v) for v in m.data], expanded=[[to_int(x), to_int(y)] for x, y in zip(e.x, e.y)])
    if op == "lead":
        h0, h1 = (table(o[k]) for k in ("h0", "h1"))
        if o["real"]:
            h0, h1 = h0.real, h1.real
        lead = Lead(_types.SimpleNamespace(h0=csr_matrix(h0), h1=csr_matrix(h1), indices=np.array([0]), system=w.model.core), 0, w.model.lattice)
        b = lead.calc_bands(o["start"] * math.pi / 2, o["stop"] * math.pi / 2, o["step"] * math.pi / 2)
        return {"path": [to_int(k * 2 / math.pi, 1e-5) for k in np.asarray(b.k_path).ravel()], "bands": [[to_int(v, 1e-5) for v in e] for e in b.energy]}
    if op == "arpack":
        fake = _types.SimpleNamespace(hamiltonian=csr_matrix(np.diag(np.array(o["values"], dtype=float))))
        s = arpack(fake, k=o["k"], sigma=o["sigma"] / 4) if o["sigma"] else arpack(fake, k=o["k"])
        return {"values": [to_int(v, 1e-5) for v in s.eigenvalues], "vectors": [[to_int(abs(c) ** 2, 1e-5) for c in v] for v in s.eigenvectors.T]}
    if op == "kwant":
        from pybinding.support import kwant
        m = w.model
        h = table(o["h"])
        lead = _types.SimpleNamespace(indices=np.array(o["contact"]), h0=csr_matrix(table(o["h0"])), h1=csr_matrix(table(o["h1"])))
        fake = _types.SimpleNamespace(system=m.system, lattice=m.lattice, leads=[lead], hamiltonian=csr_matrix(h))
        k = kwant.KwantFiniteSystem(fake)
        x, a, b = k.hamiltonian_submatrix(sparse=o["sparse"], return_norb=True)
        plain = k.hamiltonian_submatrix(sparse=o["sparse"])
        one = k.leads[0]

        def full(v):
            return [[to_int(complex(c)) for c in r] for r in np.asarray(v.toarray() if hasattr(v, "toarray") else v)]
        def entries(f, n):
            return [[to_int(complex(f(i, j))) for j in range(n)] for i in range(n)]
        parts = 0
        for extra in ({"to_sites": [0]}, {"from_sites": [0]}):
            try:
                k.hamiltonian_submatrix(**extra)
            except RuntimeError:
                parts += 1
        return {"h": full(x), "plain": full(plain), "refused": parts, "entries": entries(k.hamiltonian, len(o["h"])),
                "entries0": entries(one.hamiltonian, len(o["h0"])), "to": ints(a), "from": ints(b), "contact": ints(k.lead_interfaces[0]),
                "h0": full(one.cell_hamiltonian(sparse=o["sparse"])), "h1": full(one.inter_cell_hopping(sparse=o["sparse"])),
                "pos": [[to_int(c) for c in k.pos(i)] for i in range(k.graph.num_nodes)]}
    before, w_fails = w.attempts, w.fails
    try:
        obs = query(w, o)
        failed = False
    except DriverError:
        raise
    except RuntimeError as e:
        if str(e) != "not converged":
            raise
        obs, failed = {}, True
    return dict(obs, attempts=w.attempts - before, failed=failed)


main_loop(lambda sc: run_ops(sc, World(), one_op))

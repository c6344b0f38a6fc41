#!/usr/bin/env -S python3-vt -W ignore
"""Puts lattices and models together with the Python layer; the core writes down what it is given"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *


def energy(v):
    """Numbers, vectors and matrices are told apart by their shape"""
    if isinstance(v, str):
        return ["name", v]
    a = np.asarray(v)
    return [{0: "number", 1: "vector", 2: "matrix"}[a.ndim], [to_int(x) for x in a.reshape(-1)]]


def place(p):
    r = [to_int(x) for x in np.atleast_1d(p)]
    return r


class CoreLattice:
    def __init__(self, *vectors):
        self.given = [[to_int(c) for c in np.atleast_1d(v)] for v in vectors]
        self.calls, self.names, self.subs, self.energies = [], [], [], []
        self._offset, self.min_neighbors = [0, 0, 0], 1

    @property
    def offset(self):
        return self._offset

    @offset.setter
    def offset(self, v):
        if any(abs(c) > 9 for c in v):
            raise RuntimeError("too far")
        self._offset = [to_int(c) for c in v]

    def check(self, ok):
        if not ok:
            raise LookupError("refused")

    def add_sublattice(self, name, position, e):
        self.check(name and name not in self.names)
        self.calls.append(["add_sublattice", name, place(position), energy(e)])
        self.names.append(name)
        self.subs.append(name)

    def add_alias(self, name, original, position):
        self.check(name not in self.names and original in self.subs)
        self.calls.append(["add_alias", name, original, place(position)])
        self.names.append(name)

    def register_hopping_energy(self, name, e):
        self.check(name not in self.energies)
        self.calls.append(["register_hopping_energy", name, energy(e)])
        self.energies.append(name)

    def add_hopping(self, rel, a, b, e):
        self.check(a in self.names and b in self.names and (not isinstance(e, str) or e in self.energies))
        self.calls.append(["add_hopping", place(rel), a, b, energy(e)])


class Part:
    pass


KINDS = {"shape": "Shape", "symmetry": "TranslationalSymmetry", "primitive": "Primitive", "state": "SiteStateModifier", "position": "PositionModifier",
         "onsite": "OnsiteModifier", "hopping": "HoppingModifier", "site_gen": "SiteGenerator", "hop_gen": "HoppingGenerator"}
for k, v in KINDS.items():
    setattr(cpp, v, type(v, (Part,), {"kind": k}))


class CoreModel:
    def __init__(self, lattice):
        if not isinstance(lattice, CoreLattice):
            raise TypeError("not a lattice")
        self.core, self.parts, self._leads = lattice, [], []

    def add(self, part):
        if not isinstance(part, Part):
            raise TypeError("incompatible function arguments")
        if getattr(part, "refused", False):
            raise RuntimeError("refused")
        self.parts.append(part)

    def attach_lead(self, direction, contact):
        self._leads.append([direction, contact])

    @property
    def leads(self):
        return list(self._leads)

    @property
    def system(self):
        return CoreSystem(SITES[0])

    @property
    def hamiltonian(self):
        return MATRIX[0]


cpp.Lattice, cpp.Model = CoreLattice, CoreModel
from py_system import CoreSystem
import pybinding as pb
from scipy.sparse import csr_matrix

SITES, MATRIX, PARTS = [None], [None], {}


def part(p):
    if "list" in p:
        inner = [part(q) for q in p["list"]]
        return {"list": list, "tuple": tuple, "iter": iter}[p["form"]](inner)
    if p["kind"] == "none":
        return None
    if p["kind"] == "other":
        return 7
    if p["id"] not in PARTS:
        PARTS[p["id"]] = r = getattr(cpp, KINDS.get(p["kind"], "OnsiteModifier"))()
        r.id, r.refused = p["id"], p["kind"] == "refused"
    return PARTS[p["id"]]


def value(e):
    kind, v = e
    if kind == "name":
        return v
    if kind == "number":
        return v[0]
    n = int(round(len(v) ** 0.5))
    return list(v) if kind == "vector" else [v[i * n:(i + 1) * n] for i in range(n)]


class World:
    def __init__(self):
        PARTS.clear()
        self.lats, self.models = [], []


def build(lat, o):
    items, how = o["items"], o["how"]
    if how == "energies":
        lat.register_hopping_energies({n: value(e) for n, e in items})
        return
    if how == "sublattices":
        args = [a[:2] + [value(v) for v in a[2:3]] + a[3:] for a in items]
        one, many = lat.add_one_sublattice, lat.add_sublattices
    elif how == "aliases":
        args, one, many = items, lat.add_one_alias, lat.add_aliases
    else:
        args = [a[:3] + [value(a[3])] for a in items]
        one, many = lat.add_one_hopping, lat.add_hoppings
    if o["single"]:
        for a in args:
            one(*a)
    else:
        many(*(tuple(a) for a in args))


def apply(w, o):
    op = o["op"]
    if op == "lattice":
        w.lats.append(pb.Lattice(**{"a%d" % (k + 1): v if len(v) > 1 else v[0] for k, v in enumerate(o["vectors"])}))
    elif op == "build":
        build(w.lats[o["of"]], o)
    elif op == "set":
        if o["what"] == "offset":
            w.lats[o["of"]].offset = o["value"]
        else:
            w.lats[o["of"]].min_neighbors = o["number"]
    elif op == "with":
        lat = w.lats[o["of"]]
        w.lats.append(lat.with_offset(o["value"]) if o["what"] == "offset" else lat.with_min_neighbors(o["number"]))
    elif op == "model":
        w.models.append(pb.Model(w.lats[o["of"]], *(part(p) for p in o["parts"])))
    elif op == "add":
        w.models[o["m"]].add(*(part(p) for p in o["parts"]))
    elif op == "lead":
        w.models[o["m"]].attach_lead(o["direction"], o["contact"])
    elif op != "values":
        raise DriverError(op)


def seen(w, m):
    def which(lat):
        found = [k for k, v in enumerate(w.lats) if v is lat]
        return found[0] if found else -1
    if m.core is not m.lattice.impl:
        raise RuntimeError("the core has got another lattice")
    leads = list(m.leads)
    if len(m.leads) != len(leads):
        raise RuntimeError("number of leads")
    return {"lattice": which(m.lattice), "added": [p.id for p in m.parts], "shape": m.shape.id if m.shape is not None else -1, "modifiers": [p.id for p in m.modifiers],
            "leads": [list(x.impl) for x in leads], "of": [[x.index, which(x.lattice)] for x in leads], "system": which(m.system.lattice)}


def one_op(w, o):
    SITES[0] = o["system"]
    n = len(o["system"]["sites"])
    MATRIX[0] = csr_matrix(np.array([[complex(*o["system"]["hamiltonian"][i][j]) for j in range(n)] for i in range(n)]))
    try:
        apply(w, o)
        ok = True
    except DriverError:
        raise
    except Exception:
        ok = False
    r = {"ok": ok, "now": {"lats": [{"calls": list(v.impl.calls), "offset": [to_int(c) for c in v.offset], "min": v.min_neighbors, "vectors": v.impl.given} for v in w.lats],
                           "models": [seen(w, m) for m in w.models]}}
    if o["op"] == "values":
        r["values"] = ints(w.models[o["m"]].onsite_map.data)
    return r


main_loop(lambda sc: run_ops(sc, World(), one_op))

#!/usr/bin/env -S python3-vt -W ignore
"""Makes the prebuilt materials, shapes and modifiers: what the core would get is written down"""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from py_common import *
import _pybinding as cpp

HBAR, A_CC, A, T, BETA = 6.58211899e-16, 0.142, 0.24595, -2.8, 3.37
PHI0 = 2 * math.pi * HBAR


def vector(v):
    v = [float(q) for q in np.ravel(v)]
    return np.array(v + [0.0] * (3 - len(v)))


class Core:
    """Stands for the lattice of the extension module"""
    def __init__(self, *vectors):
        self.vectors, self.ndim = [vector(v) for v in vectors], len(vectors)
        self.subs, self.hops, self.energies = {}, [], {}
        self.min_neighbors, self.offset = 1, np.zeros(3)

    def add_sublattice(self, name, position, energy):
        if name in self.subs or not name:
            raise RuntimeError("sublattice exists")
        self.subs[name] = (vector(position), np.asarray(energy, dtype=float), name)

    def add_alias(self, name, original, position):
        if name in self.subs:
            raise RuntimeError("sublattice exists")
        self.subs[name] = (vector(position), self.subs[original][1], self.subs[original][2])

    def register_hopping_energy(self, name, energy):
        if name in self.energies or not name:
            raise RuntimeError("hopping exists")
        self.energies[name] = energy

    def add_hopping(self, rel, a, b, what):
        rel = [int(v) for v in np.ravel(rel)] + [0] * (self.ndim == 1)
        if len(rel) != 2 or any(v != q for v, q in zip(np.ravel(rel), rel)):
            raise RuntimeError("relative index")
        i, j = list(self.subs).index(a), list(self.subs).index(b)
        if i == j and not any(rel):
            raise RuntimeError("a site to itself")
        for r, k, l, _, _ in self.hops:
            if (r, k, l) in ((rel, i, j), ([-v for v in rel], j, i)):
                raise RuntimeError("hopping exists")
        self.hops.append((rel, i, j, what if isinstance(what, str) else "", self.energies[what] if isinstance(what, str) else what))


class Shape:
    def __init__(self, vertices):
        self.vertices, self.lattice_offset = vertices, None


def base(*names):
    class Base:
        def __init__(self, *args, **kwargs):
            self.init = dict(zip(names, args), **kwargs)
    return Base


cpp.Lattice, cpp.Polygon = Core, Shape
cpp.SiteStateModifier = base("apply", "min_neighbors")
cpp.PositionModifier = base("apply")
cpp.OnsiteModifier = base("apply", "is_complex", "is_double")
cpp.HoppingModifier = base("apply", "is_complex", "is_double")
import pybinding as pb
from pybinding.repository import graphene, phosphorene, group6_tmd, examples
from pybinding.repository.graphene import utils as graphene_utils

MANY = np.arange(-9000, 9001)


def surd(v):
    """The integers p, q with v = p + q * sqrt(3)"""
    p = v - MANY * math.sqrt(3)
    ok = np.nonzero(np.abs(p - np.round(p)) < 1e-7)[0]
    if not len(ok):
        return [NONINT, NONINT]
    k = ok[np.argmin(np.abs(MANY[ok]))]
    return [int(np.round(p[k])), int(MANY[k])]


def look(lat, unit, matrices=False, tol=2e-3):
    core = lat.impl

    def place(v):
        return [to_int(c / u, tol) for c, u in zip(v, unit)]

    def energy(e):
        return [[surd(4000 * v) for v in row] for row in np.asarray(e)] if matrices else to_int(1000 * np.squeeze(e), 1e-6) if np.size(e) == 1 else NONINT
    return {"vectors": [place(v)[:2] for v in core.vectors], "min": int(core.min_neighbors),
            "flat": bool(all(abs(v[2]) < 1e-9 for v in core.vectors)),
            "subs": [[n, place(p), ints(1000 * np.atleast_1d(e)), f] for n, (p, e, f) in core.subs.items()],
            "hops": [[r, i + 1, j + 1, n, energy(e)] for r, i, j, n, e in core.hops]}


def lattice(o):
    m, scaled = o["material"], (lambda v: [c / 1000 for c in v])
    honeycomb = (A / 2, A_CC / 2, 0.335)
    if m == "monolayer":
        kw = {k: v / 1000 for k, v in o["energies"]}
        if o["onsite"]:
            kw["onsite"] = scaled(o["onsite"])
        return look(graphene.monolayer(**kw) if o["n"] == 1 and o["short"] else graphene.monolayer(o["n"], **kw), honeycomb)
    if m in ("monolayer_alt", "monolayer_4atom"):
        return look(getattr(graphene, m)(*([scaled(o["onsite"])] if o["onsite"] else [])), honeycomb)
    if m == "bilayer":
        kw = {k: True for k in o["also"]}
        if o["onsite"]:
            kw["onsite"] = scaled(o["onsite"])
        return look(graphene.bilayer(**kw), honeycomb)
    if m == "phosphorene":
        return look(phosphorene.monolayer_4band(*([] if o["n"] == 5 and o["short"] else [o["n"]])), (1e-4, 1e-4, 1e-4), tol=0.51)
    if m == "chain":
        return look(examples.chain_lattice(o["a"] / 10, *scaled(o["energy"])), (o["a"] / 10,) * 3)
    if m == "square":
        return look(examples.square_lattice(o["a"] / 10, o["energy"][0] / 1000), (o["a"] / 10,) * 3)
    if m == "tmd":
        size = o["params"][0] / 10000
        given = {o["name"]: [size] + scaled(o["params"][1:])} if o["given"] else None
        return look(group6_tmd.monolayer_3band(o["name"], given) if given else group6_tmd.monolayer_3band(o["name"]), (size / 2, size * math.sqrt(3) / 2, 1), matrices=True, tol=1e-6)
    raise DriverError(m)


def arrays(points, scale=1.0):
    return [np.array([p[k] * scale for p in points]) for k in range(3)]


def one_op(w, o):
    op = o["op"]
    if op == "lattice":
        return lattice(o)
    if op == "hexagon":
        s = graphene.hexagon_ac(o["side"] * A_CC / 4) if not o["offset"] else graphene.hexagon_ac(o["side"] * A_CC / 4, lattice_offset=[q * A / 4 if k == 0 else q * A_CC / 4 for k, q in enumerate(o["offset"])])
        return {"corners": [[to_int(4 * v[0] / A, 1e-2), to_int(4 * v[1] / A_CC, 1e-6)] for v in s.vertices], "offset": [to_int(4 * s.lattice_offset[0] / A), to_int(4 * s.lattice_offset[1] / A_CC)]}
    if op == "mass":
        m = graphene.mass_term(o["delta"])
        return ints(m.apply(np.array(o["energy"], dtype=float), *arrays(o["points"]), o["sub"]))
    if op == "coulomb":
        kw = {}
        if o["cutoff"]:
            kw["cutoff_radius"] = o["cutoff"]
        if any(o["offset"]):
            kw["offset"] = o["offset"]
        before = np.array(o["energy"], dtype=float)
        after = graphene.coulomb_potential(o["beta"], **kw).apply(before.copy(), *arrays(o["points"]), "A")
        return ints(np.round(o["beta"] * 1.5 * abs(T) * A_CC / (before - after), 6))
    if op == "magnetic":
        m = graphene.constant_magnetic_field(o["field"] * PHI0 * 1e18 / (2 * math.pi) / 256)
        p = o["loop"]
        a, b = arrays(p), arrays(p[1:] + p[:1])
        e = np.array([float(1 + k % 3) for k in range(len(p))])
        there, back = m.apply(e.copy(), *a, *b, "t"), m.apply(e.copy(), *b, *a, "t")
        return {"complex": bool(m.init.get("is_complex")), "size": ints(abs(there) - e), "phases": ints(512 * np.angle(there)), "back": ints(512 * np.angle(back))}
    if op == "strain":
        c = 1 / 16
        displacement, hopping = graphene.triaxial_strain(4 * HBAR * BETA / A_CC * 1e18 * c * o["field"])
        x, y, z = displacement.apply(*arrays(o["points"]), "A")
        return {"to": ints(16 * np.array([x, y, z]).T), "ratio": strained(hopping, o)}
    if op == "bump":
        kw = {"center": o["center"]} if any(o["center"]) else {}
        displacement, hopping = graphene.gaussian_bump(o["height"], math.sqrt(o["sigma2"]), **kw)
        x, y, z = displacement.apply(*arrays([[p[0], p[1], 0] for p in o["points"]]), "A")
        return {"xy": ints(np.array([x, y]).T), "r2": ints(np.round(o["sigma2"] * np.log(o["height"] / z), 5)), "ratio": strained(hopping, o)}
    if op == "landau":
        return to_int((graphene_utils.landau_level(o["field"], o["n"]) / (1.5 * abs(T) * A_CC * 1e-9)) ** 2 * HBAR / 2 * 1, 1e-4)
    raise DriverError(op)


def strained(hopping, o):
    """Lengths of the bonds (in those without strain) which the strained hopping energies tell"""
    a, b = arrays([q[0] for q in o["bonds"]], A_CC), arrays([q[1] for q in o["bonds"]], A_CC)
    e = np.array([2.0] * len(o["bonds"]))
    after = hopping.apply(e.copy(), *a, *b, "t")
    return ints(np.round(1 - np.log(after / e) / BETA, 5))


main_loop(lambda sc: run_ops(sc, [], one_op))

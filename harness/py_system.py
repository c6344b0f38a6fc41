"""Stands for the system of the extension module"""
import types as _types

from py_common import *
from pybinding.results import Positions
from pybinding.support.alias import AliasCSRMatrix
from pybinding.support.structure import Hoppings
from scipy.sparse import csr_matrix


class Groups:
    """The sublattices of the core: groups of sites which follow each other"""
    def __init__(self, groups):
        ids, counts, orbitals = (np.array([g[k] for g in groups], dtype=np.int32) for k in range(3))
        self.alias_ids, self.site_counts, self.orbital_counts = ids, counts, orbitals

    def decompressed(self):
        return np.repeat(self.alias_ids, self.site_counts)


class CoreSystem:
    def __init__(self, o):
        self.compressed_sublattices = Groups(o["groups"])
        x, y = (np.array([p[k] for p in o["sites"]], dtype=np.float32) for k in range(2))
        self.positions = Positions(x, y, np.zeros_like(x))
        self.site_registry = _types.SimpleNamespace(name_map={n: i for n, i in o["names"]})
        n = len(o["sites"])
        self.hopping_blocks = Hoppings(AliasCSRMatrix(csr_matrix((n, n), dtype=np.int32), mapping={"t": 0}))
        self.boundaries = []
        self.num_sites = n
        orbitals = np.repeat(self.compressed_sublattices.orbital_counts, self.compressed_sublattices.site_counts)
        self.starts = np.concatenate([[0], np.cumsum(orbitals)])
        self.hamiltonian_size = int(self.starts[-1])
        self.expanded_positions = Positions(*(np.repeat(v, orbitals) for v in self.positions))

    def find_nearest(self, position, sublattice=""):
        p = np.zeros(3)
        position = np.atleast_1d(position)
        p[:len(position)] = position
        d = sum((v - q) ** 2 for v, q in zip(self.positions, p))
        if sublattice != "":
            d = np.where(self.compressed_sublattices.decompressed() == self.site_registry.name_map[sublattice], d, np.inf)
        return int(np.argmin(d))

    def to_hamiltonian_indices(self, i):
        return np.arange(self.starts[i], self.starts[i + 1])

py_seed("S34-sliced-hoppings-drop-first-family", "C20",
     [("pybinding/support/structure.py", """    m.data = m.data.copy()
    m.data += 1  # increment by 1 to preserve zeroes when slicing to preserve all data, even zeros
    m = m[idx][:, idx]
    m.data -= 1
    return m""", """    m = m[idx][:, idx]
    m.eliminate_zeros()  # compact storage
    return m""")],
     r'''
from scipy.sparse import csr_matrix
from pybinding.support.alias import AliasCSRMatrix
from pybinding.support.structure import Hoppings
m = csr_matrix((np.array([0, 1], dtype=np.int32), (np.array([0, 1]), np.array([1, 2]))), shape=(3, 3))
h = Hoppings(AliasCSRMatrix(m, mapping={"t": 0, "u": 1}))
part = h[np.array([True, True, True])]
assert part.nnz == 2, part.nnz
''', "a selection from a structure with hoppings of the family with the number zero", "those hoppings are lost")
py_seed("S35-sweep-mirrored-both-axes", "C20",
     [("pybinding/results.py", """            data = np.hstack((self.data[:, ::-1], self.data[:, 1:]))
            return self._with_data(self.x, y, data)""", """            data = np.hstack((np.flip(self.data), self.data[:, 1:]))
            return self._with_data(self.x, y, data)""")],
     r'''
import pybinding as pb
from pybinding.results import Sweep
s = Sweep(np.array([0, 1]), np.array([0, 1, 2]), np.array([[1, 2, 3], [4, 5, 6]]))
m = s.mirrored("y")
assert m.data.tolist() == [[3, 2, 1, 2, 3], [6, 5, 4, 5, 6]], m.data
''', "mirroring around the y axis of a sweep with more than one x", "the mirrored half belongs to other x")
py_seed("S36-alias-loses-other-parts", "C20",
     [("pybinding/support/alias.py", """                if k == other:
                    result = np.logical_or(result, super().__eq__(v))""", """                if k == other:
                    result = np.logical_xor(result, super().__eq__(v)) if v else super().__eq__(v)""")],
     r'''
from pybinding.support.alias import AliasArray
a = AliasArray(np.array([0, 1, 0, 2]), mapping={"A|1": 1, "A|2": 0, "B": 2})
assert list(a == "A") == [True, True, True, False]
''', "split names where the part with the number zero is not the first one", "the other parts don't compare equal")
py_seed("S37-with-data-shares-the-map", "C20",
     [("pybinding/results.py", """    def with_data(self, data) -> "StructureMap":
        \"\"\"Return a copy of this object with different data mapped to the sites\"\"\"
        result = copy(self)
        result._data = data
        return result

    def plot(self, cmap""", """    def with_data(self, data) -> "StructureMap":
        \"\"\"Return a copy of this object with different data mapped to the sites\"\"\"
        result = self if self._data.dtype == np.asarray(data).dtype else copy(self)
        result._data = data
        return result

    def plot(self, cmap""")],
     r'''
from scipy.sparse import csr_matrix
from pybinding.support.alias import AliasCSRMatrix
from pybinding.support.structure import Hoppings, Sites
from pybinding.results import StructureMap
h = Hoppings(AliasCSRMatrix(csr_matrix((2, 2), dtype=np.int32), mapping={}))
m = StructureMap(np.array([1., 2.]), Sites((np.zeros(2), np.zeros(2), np.zeros(2)), [0, 0]), h)
m2 = m.clipped(0, 1)
assert list(m.data) == [1, 2], m.data
assert list(m2.data) == [1, 1]
''', "a map is used again after another one has been made from it", "the original map has the new data")
MODS = r'''
import _pybinding as cpp


class Base:
    def __init__(self, apply, **kwargs):
        self.kw = kwargs


cpp.OnsiteModifier = cpp.HoppingModifier = cpp.SiteStateModifier = cpp.PositionModifier = Base
import pybinding as pb
'''
py_seed("S38-square-hoppings-transposed", "C21",
     [("pybinding/modifier.py", """            prime_arg = np.moveaxis(prime_arg, 2, 0)
            args = [prime_arg]""", """            prime_arg = prime_arg.T if nsites == 1 or norb1 == norb2 == nsites else np.moveaxis(prime_arg, 2, 0)
            args = [prime_arg]""")],
     MODS + r'''
seen = []


@pb.hopping_energy_modifier
def f(energy):
    seen.append(energy.copy())
    return energy


f.apply(np.array([[[1.], [2.]], [[3.], [4.]]]), *[np.zeros(1)] * 6, "t")
assert seen[0].shape == (1, 2, 2) and seen[0][0].tolist() == [[1, 2], [3, 4]], seen
''', "a single hopping with a matrix which is not symmetric", "the function sees the transposed matrix")
py_seed("S39-eye-of-rectangular-hopping", "C21",
     [("pybinding/support/alias.py", """        return np.eye(*self.orbs)""", """        return np.eye(self.orbs[0])""")],
     MODS + r'''
seen = []


@pb.hopping_energy_modifier
def f(energy, hop_id):
    seen.append(hop_id.eye.shape)
    return energy


f.apply(np.zeros((1, 3, 2)), *[np.zeros(2)] * 6, "t")
assert seen == [(1, 3)], seen
''', "hoppings between sublattices with different numbers of orbitals", "the identity has the wrong shape")
py_seed("S40-size-of-first-result-only", "C21",
     [("pybinding/modifier.py", """    if any(r.size != prime_arg.size for r in result):""", """    if result[0].size != prime_arg.size or sum(r.size for r in result) != prime_arg.size * len(result):""")],
     MODS + r'''
@pb.site_position_modifier
def f(x, y, z):
    return x, np.append(y, 0), z[:-1]


try:
    f.apply(np.zeros(3), np.zeros(3), np.zeros(3), "A")
except TypeError:
    pass
else:
    raise AssertionError("accepted")
''', "two results of wrong sizes which add up to the right one", "a wrong result is accepted")
py_seed("S41-split-name-matches-second-part", "C21",
     [("pybinding/support/alias.py", """        return super().__ne__(other) and self.first != other""", """        return super().__ne__(other) and not self.startswith(other + "|" if "|" not in other else other.split("|")[0])""")],
     MODS + r'''
from pybinding.support.alias import SplitName
s = SplitName("a|b")
assert not s != "a" and not s != "a|b" and s != "b" and s != "a|c" and s != "c|b"
''', "comparison of two different parts of the same family with !=", "different names don't compare as different")
SWEEPS = r'''
import _pybinding as cpp
import pybinding as pb


class Solver:
    def report(self, shortform=False):
        return ""


class Deferred:
    solver = Solver()

    def __init__(self, row):
        self.row = row

    def compute(self):
        self.result = np.array(self.row, dtype=float)


def sweep_of(order, n, threads=2, **kw):
    """`order`: the order in which the jobs are retired"""
    def loop(sequence, produce, retire, num_threads, queue_size):
        jobs = [produce(v) for v in sequence]
        for i in order:
            jobs[i].compute()
            retire(jobs[i], i)
    cpp.parallel_for = loop

    @pb.parallelize(num_threads=threads, v=list(range(1, n + 1)))
    def factory(v, energy=np.array([0., 1., 2.])):
        return Deferred([10 * v + e for e in energy])
    factory.config.pbar_fd = None
    factory.config.filename = None
    return factory
'''
py_seed("S42-result-shared-with-the-job", "C22",
     [("pybinding/parallel.py", """        self.data[idx] = copy(deferred.result)
""", """        self.data[idx] = deferred.result if self.config.num_threads > 1 else copy(deferred.result)
""")],
     SWEEPS + r'''
class Shared(Deferred):
    memory = np.zeros(3)

    def compute(self):
        self.memory[...] = self.row
        self.result = self.memory


Deferred = Shared
r = pb.parallel.sweep(sweep_of([1, 0, 2], 3), plot=None, silent=True)
assert r.data.tolist() == [[10, 11, 12], [20, 21, 22], [30, 31, 32]], r.data
''', "a job whose result's memory is used again after it has been retired, with several threads", "other jobs' results have the last one")
py_seed("S43-saves-count-by-index", "C22",
     [("pybinding/parallel.py", """        if count in self.save_at:""", """        if count in self.save_at and (idx + 1 in self.save_at or self.config.num_threads == 1):""")],
     SWEEPS + r'''
r = pb.parallel.sweep(sweep_of([0, 2, 1], 3), plot=None, silent=True)
assert r is not None and r.data.tolist() == [[10, 11, 12], [20, 21, 22], [30, 31, 32]], r
r = pb.parallel.sweep(sweep_of(list(range(19, -1, -1)), 20), plot=None, silent=True)
assert r is not None and r.data.tolist() == [[10 * i, 10 * i + 1, 10 * i + 2] for i in range(1, 21)], r
''', "the last job to finish is not the last of the sequence", "the end of the sweep is not saved")
py_seed("S44-first-hook-for-each-thread", "C22",
     [("pybinding/parallel.py", """        if not self.called_first:
            self._first(deferred)
            self.called_first = True
            self.pbar.refresh()""", """        if not self.called_first or self.pbar.value == 0 and self.config.num_threads > self.config.queue_size:
            self._first(deferred)
            self.called_first = True
            self.pbar.refresh()""")],
     SWEEPS + r'''
calls = []
f = sweep_of([0, 1, 2], 3, threads=9)
f.config.queue_size = 2
f.hooks.first.append(lambda d: calls.append(d))
pb.parallel.sweep(f, plot=None, silent=True)
assert len(calls) == 1, calls
''', "more threads than the queue holds", "the hook for the first job is called more than once")

SPECTRA = r'''
import types
import pybinding as pb
from scipy.sparse import csr_matrix
from pybinding.results import Positions
from pybinding.solver import Solver, _SolverPythonImpl, lapack
from pybinding.system import System


class Core:
    """Groups of sites: (sublattice, sites, orbitals)"""
    def __init__(self, groups):
        ids, counts, norb = (np.array(v) for v in zip(*groups))
        n = counts.sum()
        self.positions = Positions(np.arange(n) * 1.0, np.zeros(n), np.zeros(n))
        self.compressed_sublattices = types.SimpleNamespace(alias_ids=ids, site_counts=counts, orbital_counts=norb,
                                                            decompressed=lambda: np.repeat(ids, counts))
        self.site_registry = types.SimpleNamespace(name_map={"A": 0, "B": 1})
        self.hopping_blocks, self.boundaries, self.num_sites = None, [], n
        self.starts = np.concatenate([[0], np.cumsum(np.repeat(norb, counts))])
        self.hamiltonian_size = self.starts[-1]

    def find_nearest(self, position, sublattice=""):
        return int(np.argmin(abs(self.positions.x - np.atleast_1d(position)[0])))

    def to_hamiltonian_indices(self, i):
        return np.arange(self.starts[i], self.starts[i + 1])


class Model:
    def __init__(self, groups, levels):
        self.core, self.levels, self.k, self.lattice = Core(groups), np.array(levels, dtype=float), 0.0, None

    @property
    def system(self):
        return System(self.core)

    def set_wave_vector(self, k):
        self.k = float(np.atleast_1d(k)[0])

    @property
    def hamiltonian(self):
        return csr_matrix(np.diag(self.levels + self.k))
'''
py_seed("S45-orbitals-of-a-group-transposed", "C23",
     [("pybinding/system.py", """data[start:end].reshape((-1, norb)).sum(axis=1)""", """data[start:end].reshape((norb, -1)).sum(axis=0)""")],
     SPECTRA + r'''
m = Model([(0, 1, 2), (1, 2, 1)], [0] * 4)
assert m.system.with_data(np.array([1., 2, 3, 4])).data.tolist() == [3, 3, 4]
m = Model([(1, 2, 2), (0, 1, 1)], [0] * 5)
assert m.system.with_data(np.array([1., 2, 3, 4, 5])).data.tolist() == [3, 7, 5]
''', "a group with several sites of several orbitals", "data of orbitals is added up at other sites")
py_seed("S46-neighboring-degenerate-groups", "C23",
     [("pybinding/solver.py", """        groups = np.split(idx, np.flatnonzero(np.diff(idx) != 1) + 1)""", """        groups = np.split(idx, np.flatnonzero(np.diff(idx) > 2) + 1)""")],
     SPECTRA + r'''
assert [[int(i) for i in g] for g in Solver.find_degenerate_states(np.array([0.1, 0.1, 0.2, 0.5, 0.5, 0.5, 0.7]))] == [[0, 1], [3, 4, 5]]
assert [[int(i) for i in g] for g in Solver.find_degenerate_states(np.array([0., 0, 1, 1]))] == [[0, 1], [2, 3]]
''', "two groups of degenerate levels next to each other", "their states are taken for one group")
py_seed("S47-same-wave-vector-is-not-set-again", "C23",
     [("pybinding/solver.py", """        self.clear()
        self.model.set_wave_vector(k)
""", """        if np.array_equal(k, getattr(self, "_wave_vector", None)):
            return
        self._wave_vector = k
        self.clear()
        self.model.set_wave_vector(k)
""")],
     SPECTRA + r'''
s = lapack(Model([(0, 2, 1)], [0, 1]))
s.set_wave_vector(2)
assert s.eigenvalues.tolist() == [2, 3]
s.model = Model([(0, 2, 1)], [5, 6])
s.set_wave_vector(2)
assert s.eigenvalues.tolist() == [7, 8], s.eigenvalues
''', "the model is replaced and its wave vector is set to the last one", "the levels are those of another wave vector")
py_seed("S48-lead-conjugate", "C23",
     [("pybinding/leads.py", """        h1t = np.conj(h1.T)
""", """        h1t = h1.T
"""), ("pybinding/leads.py", """            h = h0 + h1 * np.exp(1j * k) + h1t * np.exp(-1j * k)
""", """            h = h0 + h1 * np.exp(1j * k)
            h = h + h1t * np.exp(-1j * k)
""")],
     SPECTRA + r'''
from pybinding.leads import Lead
lead = Lead(types.SimpleNamespace(h0=csr_matrix([[0j, 0], [0, 3]]), h1=csr_matrix([[1j, 0], [0, 1]])), 0, None)
b = lead.calc_bands(0, np.pi, np.pi / 2)
assert np.allclose(b.energy, [[0, 5], [-2, 3], [0, 1]]), b.energy
''', "complex hoppings in the lead", "bands of a matrix which is not Hermitian")

SHAPES = r'''
class Shape:
    def __init__(self, vertices, contains):
        self.vertices, self._f = [np.array(list(v) + [0] * (3 - len(v)), dtype=float) for v in vertices], contains

    def contains(self, x, y, z):
        return np.asarray(self._f(np.atleast_1d(x), np.atleast_1d(y), np.atleast_1d(z))).astype(bool)


class Box(Shape):
    def __init__(self, contains, width, center):
        w, c = (np.array(list(np.atleast_1d(v)) + [0] * (3 - len(np.atleast_1d(v))), dtype=float) for v in (width, center))
        super().__init__([c + w / 2 * [i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)], contains)


class Polygon(Shape):
    def __init__(self, vertices):
        super().__init__(vertices, None)


class Core:
    def __init__(self, *vectors):
        self.vectors, self.ndim = [np.array(list(v) + [0] * (3 - len(v)), dtype=float) for v in vectors], len(vectors)


cpp.Shape, cpp.FreeformShape, cpp.Polygon, cpp.Lattice = Shape, Box, Polygon, Core
from pybinding import shape
from pybinding.lattice import Lattice
'''
py_seed("S49-sum-of-overlapping-shapes", "C24",
     [("pybinding/shape.py", """        return self.__or__(other)
""", """        return self.__xor__(other)
""")],
     SHAPES + r'''
s = shape.circle(2) + shape.circle(2, center=(1, 0)) + shape.circle(1, center=(9, 0))
assert s.contains([-1.5, 0.5, 2.5, 5, 9.], [0] * 5, [0] * 5).tolist() == [True, True, True, False, True]
''', "added shapes overlap", "the sum has a hole in it")
py_seed("S50-reciprocal-vectors-transposed", "C24",
     [("pybinding/lattice.py", """        mat = 2 * pi * np.linalg.inv(mat).T
""", """        mat = 2 * pi * np.linalg.inv(mat)
""")],
     SHAPES + r'''
a = [[2, 1], [1, 3]]
for a in ([[2, 1], [1, 3]], [[2, 1], [0, 3]], [[2, 1, 0], [0, 1, 0], [1, 1, 1]]):
    b = Lattice(*a).reciprocal_vectors()
    assert np.allclose([[np.dot(list(u) + [0] * (3 - len(u)), v) for v in b] for u in a], 2 * np.pi * np.eye(len(a))), b
''', "a lattice whose matrix of vectors is not symmetric", "the reciprocal vectors are not dual to the lattice")
py_seed("S51-moved-polygon-loses-z", "C24",
     [("pybinding/shape.py", """        v[:len(vector)] = vector
        return Polygon([v0 + v for v0 in self.vertices])
""", """        v[:2] = vector[:2]
        return Polygon([v0 + v for v0 in self.vertices])
""")],
     SHAPES + r'''
p = shape.rectangle(2, 4).with_offset([1, 2, 3])
assert sorted(v.tolist() for v in p.vertices) == [[0, 0, 3], [0, 4, 3], [2, 0, 3], [2, 4, 3]], p.vertices
''', "an offset in three dimensions", "the shape stays in its plane")
py_seed("S52-offset-composite-keeps-changing", "C24",
     [("pybinding/shape.py", """        super().__init__(vertices, lambda x, y, z: op(shape1.contains(x, y, z),
                                                      shape2.contains(x, y, z)))
""", """        self.parts = [shape1, shape2]
        for s in (shape1, shape2):
            if isinstance(s, CompositeShape) and getattr(s, "op", None) is op:
                self.parts.remove(s)  # a chain of the same operation
                self.parts += s.parts
        self.op = op

        def contains(x, y, z):
            result = self.parts[0].contains(x, y, z)
            for s in self.parts[1:]:
                result = op(result, s.contains(x, y, z))
            return result

        super().__init__(vertices, contains)
"""), ("pybinding/shape.py", """        return CompositeShape(self, other, lambda a, b: np.logical_and(a, np.logical_not(b)))
""", """        return CompositeShape(self, other, _subtract)
"""), ("pybinding/shape.py", """class _CompositionMixin:
""", """def _subtract(a, b):
    return np.logical_and(a, np.logical_not(b))


class _CompositionMixin:
""")],
     SHAPES + r'''
a, b, c = (shape.circle(r) for r in (3, 2, 1))
s = a - (b - c)
assert s.contains([0, 1.5, 2.5, 4], [0] * 4, [0] * 4).tolist() == [True, False, True, False]
s = a - b - c
assert s.contains([0, 1.5, 2.5, 4], [0] * 4, [0] * 4).tolist() == [False, False, True, False]
''', "a difference is subtracted or subtracted from", "the parts are combined in another order")

PLOTS = r'''
# what is drawn is written down
import collections, types
DRAWN = []


class Lines:
    def __init__(self, lines, **kw):
        self.points = sorted(sorted(np.round(p, 6).tolist() for p in q) for q in np.array(lines))

    def __getattr__(self, name):
        return lambda *a, **k: None


class Circles:
    def __init__(self, radius, offsets=None, **kw):
        self.radius, self.points = np.atleast_1d(radius), np.array(offsets)

    def set_array(self, data):
        self.data = np.array(data)

    def __getattr__(self, name):
        return lambda *a, **k: None


class Axes:
    name = "rectilinear"

    def add_collection(self, c):
        DRAWN.append(c)

    def __getattr__(self, name):
        return MagicMock()


from unittest.mock import MagicMock
import pybinding as pb
import pybinding.system as ps
sys.modules["pybinding.support.collections"] = types.SimpleNamespace(CircleCollection=Circles, Circle3DCollection=Circles)
ps.LineCollection = Lines
ps._data_units_to_points = lambda *a: 1.0
ps.plt = MagicMock()
ps.plt.gca.return_value = Axes()
'''
py_seed("S53-site-colors-in-inverse-order", "C25",
     [("pybinding/system.py", """            points, data = points[idx], data[idx]
""", """            points, data = points[idx], data[idx.argsort()]
""")],
     PLOTS + r'''
z = np.array([2, 0, 1, 3])
ps.plot_sites((np.arange(4), np.zeros(4), z), np.array([5, 6, 7, 8]), radius=np.array([1, 2, 3, 4]), cmap="plain")
(c,) = DRAWN
got = sorted((int(p[0]), int(d), int(r)) for p, d, r in zip(c.points, c.data, c.radius))
assert got == [(0, 5, 1), (1, 6, 2), (2, 7, 3), (3, 8, 4)], got
''', "at least three sites whose heights are ordered by a cycle", "the colors belong to other sites")
py_seed("S54-boundary-hoppings-other-axes", "C25",
     [("pybinding/system.py", """        shift = rotate(shift)[:ndims]
""", """        shift = np.asarray(shift)[:ndims]
""")],
     PLOTS + r'''
from scipy.sparse import coo_matrix
h = coo_matrix((np.array([1]), (np.array([0]), np.array([1]))), shape=(2, 2))
for axes, want in (("xy", [[[1, 0], [3, 4]]]), ("zx", [[[0, 1], [5, 3]]])):
    del DRAWN[:]
    pos = np.array([0, 1]), np.array([0, 0]), np.array([0, 0])
    ps.plot_hoppings(pos, h, axes=axes, boundary=(1, np.array([3, 4, 5])))
    assert DRAWN[0].points == want, (axes, DRAWN[0].points)
''', "periodic hoppings in a plot of other axes than xy", "the lines lead to places without sites")
py_seed("S55-second-period-repeats-origin", "C25",
     [("pybinding/system.py", """    blacklist = sum(_make_shift_set(boundaries, l) for l in range(level))
""", """    blacklist = _make_shift_set(boundaries, level - 1)
""")],
     PLOTS + r'''
b = types.SimpleNamespace(shift=np.array([2.0, 0, 0]))
assert sorted(float(s[0]) for s in ps._make_shift_set([b], 1)) == [-2, 2]
assert sorted(float(s[0]) for s in ps._make_shift_set([b], 2)) == [-4, 4]
assert sorted(float(s[0]) for s in ps._make_shift_set([b], 3)) == [-6, 6]
''', "two or more periods", "the system is drawn again, faded, over itself")
py_seed("S56-heatmap-colors-of-other-states", "C25",
     [("pybinding/results.py", """        indices, energy, probability = (v[idx] for v in
                                        (self.indices, self.values, self.probability))
""", """        indices, probability = (v[idx] for v in (self.indices, self.probability))
        energy = np.sort(self.values)[idx]
""")],
     PLOTS + r'''
import pybinding.results as pr
pr.plt = MagicMock()
for e in ([1.0, 2.0, 3.0], [3.0, 1.0, 2.0]):
    v = pr.Eigenvalues(np.array(e), np.array([0.5, 0.2, 0.9]))
    v._decorate_plot = lambda *a: None
    v.plot_heatmap()
    (x, y), kw = pr.plt.scatter.call_args
    assert {(int(i), float(u), float(c)) for i, u, c in zip(x, y, kw["c"])} == {(i, e[i], [0.5, 0.2, 0.9][i]) for i in range(3)}
''', "energies which aren't sorted", "the states are drawn at other energies")

KPMS = r'''
import types
import pybinding as pb
from pybinding import chebyshev
from scipy.sparse import csr_matrix
'''
py_seed("S57-map-of-next-energy", "C26",
     [("pybinding/chebyshev.py", """        idx = np.argmin(abs(self.energy - energy))
""", """        idx = min(np.searchsorted(self.energy, energy), len(self.energy) - 1)
""")],
     KPMS + r'''
structure = types.SimpleNamespace(with_data=lambda d: list(d))
s = chebyshev.SpatialLDOS(np.array([[1, 2], [3, 4], [5, 6]]), np.array([0.0, 1.0, 2.0]), structure)
assert [s.structure_map(e) for e in (-1, 0, 0.8, 1.2, 2, 7)] == [[1, 2], [1, 2], [3, 4], [3, 4], [5, 6], [5, 6]]
''', "an energy just above one of the computed ones", "the map of the next energy is returned")
py_seed("S58-negative-center-ignored", "C26",
     [("pybinding/chebyshev.py", """            return (h - b * scipy.sparse.eye(size)) * (2 / a)
""", """            return (h - b * scipy.sparse.eye(size)) * (2 / a) if b > 0 else h * (2 / a)
""")],
     KPMS + r'''
h = csr_matrix(np.diag([-1.0, -3.0]))
kernel = types.SimpleNamespace(required_num_moments=lambda x: 4, damping_coefficients=lambda n: np.ones(n))
for shift in (0, 4, 2, 5):
    system = types.SimpleNamespace(find_nearest=lambda *a: 0, to_hamiltonian_indices=lambda i: [0])
    model = types.SimpleNamespace(hamiltonian=h + shift * csr_matrix(np.eye(2)), system=system)
    k = chebyshev._kpm_python(model, (shift - 4, shift), kernel=kernel)
    v = k.calc_ldos(np.array([shift - 2.0, shift - 1.5]), 0.1, [0, 0]).data
    first = v if shift == 0 else first
    want = chebyshev._PythonImpl._reconstruct_real(np.array([0.5, 1 / 2.02, 2 / 2.02 ** 2 - 1, 4 / 2.02 ** 3 - 3 / 2.02]), np.array([0, 0.5]), 2.02, 0)
    assert np.allclose(v, want), (shift, v, want)
''', "energies around a negative center", "the Hamiltonian is not moved into the interval of the series")
py_seed("S59-spatial-ldos-of-first-sublattice", "C26",
     [("pybinding/chebyshev.py", """            smap = smap[smap.sub == sublattice]
""", """            smap = smap[smap.sub == smap.sub[0]]
""")],
     KPMS + r'''
class Map(list):
    @property
    def sub(self):
        return np.array([s for _, s in self])

    def __getitem__(self, i):
        return Map([q for q, k in zip(list(self), i) if k])


class K(chebyshev.KPM):
    system = None


impl = types.SimpleNamespace(calc_spatial_ldos=lambda *a: np.zeros((1, 1)), model=None)
k = K(impl)
sites = Map([(0, "A"), (1, "A"), (2, "B")])
sites.positions = [np.arange(3)]
K.system = sites
shape = types.SimpleNamespace(contains=lambda x: np.array([True, False, True]))
for sub, want in (("", [(0, "A"), (2, "B")]), ("A", [(0, "A")]), ("B", [(2, "B")])):
    got = k.calc_spatial_ldos(np.array([0.0]), 1.0, shape, sub).structure
    assert list(got) == want, (sub, list(got))
''', "another sublattice than that of the first site in the shape", "the values are put on the sites of the first sublattice")
py_seed("S60-small-volumes-ignored", "C26",
     [("pybinding/chebyshev.py", """        if volume != 1.0:
            data /= volume
""", """        if volume > 1.0:
            data /= volume
""")],
     KPMS + r'''
impl = types.SimpleNamespace(calc_conductivity=lambda mu, *a: np.array([2.0, 4.0]))
for v in (1.0, 2.0, 0.5):
    d = chebyshev.KPM(impl).calc_conductivity(np.array([0.0, 1.0]), 0.1, 300, volume=v).data
    assert np.allclose(d, np.array([2.0, 4.0]) / v), (v, d)
''', "a volume below one", "the conductivity isn't divided by the volume")

LATTICES = PLOTS + r'''
import pybinding.lattice as pl
ARROWS, NOTES = [], []
pl.plt = MagicMock()
pl.plt.arrow = lambda x, y, dx, dy, **k: ARROWS.append([int(np.round(12 * v)) for v in (x, y, dx, dy)])
pl.pltutils = MagicMock()
pl.pltutils.align = lambda x, y: ("left", "top")
pl.pltutils.annotate_box = lambda s, xy, **k: NOTES.append((s, [int(np.round(1200 * v)) for v in xy[:2]]))
import pybinding.model
pybinding.model.Model = MagicMock()


def lattice(vectors, subs, hops=()):
    impl = types.SimpleNamespace(ndim=len(vectors), nsub=len(subs), vectors=[np.array(v, dtype=float) for v in vectors],
                                 sublattices={n: types.SimpleNamespace(position=np.array(p, dtype=float)) for n, p in subs},
                                 hoppings={"t": types.SimpleNamespace(terms=[types.SimpleNamespace(relative_index=np.array(h)) for h in hops])})
    return pb.Lattice.from_impl(impl)
'''
py_seed("S61-hidden-sublattices-of-other-axes", "C25",
     [("pybinding/lattice.py", "        xy_idx, z_idx = idx[:2], idx[2]\n", "        xy_idx, z_idx = sorted(idx[:2]), 2\n")],
     LATTICES + r'''
lattice([[5, 0, 0], [0, 5, 0]], [("A", [0, 2, 1]), ("B", [3, 2, 1]), ("C", [1, 1, 1])]).plot(axes="yz")
names = sorted(s for s, _ in NOTES if s in "ABC")
assert names == ["B", "C"], names      # B is over A in the plane of y and z
''', "axes other than xy and sublattices which cover each other there", "the name of the covered sublattice instead of the one on top")
py_seed("S62-neighbor-cells-in-one-direction", "C25",
     [("pybinding/lattice.py", "                relative_indices.append(-term.relative_index)\n", "                relative_indices.append(-term.relative_index if term.relative_index[0] else term.relative_index)\n")],
     LATTICES + r'''
for hops in ([[1, 0, 0]], [[0, 1, 0], [1, 1, 0]]):
    del NOTES[:]
    lattice([[5, 0, 0], [0, 4, 0]], [("A", [0, 0, 0])], hops).plot()
    names = {s: xy for s, xy in NOTES if s.startswith("[")}
    want = {str([f * h[0], f * h[1]]): [f * 6300 * h[0], f * 5040 * h[1]] for h in hops for f in (1, -1)}
    assert names == want, (names, want)
''', "a hopping along the second vector only", "the neighbor on the other side has no name")
MATERIALS = r'''
class Core:
    def __init__(self, *vectors):
        self.vectors, self.subs, self.hops, self.energies, self.min_neighbors = [np.array(v, dtype=float) for v in vectors], {}, [], {}, 1

    def add_sublattice(self, name, position, energy):
        self.subs[name] = (np.array(list(position) + [0] * (3 - len(position)), dtype=float), energy)

    def register_hopping_energy(self, name, energy):
        self.energies[name] = energy

    def add_hopping(self, rel, a, b, what):
        self.hops.append((list(rel), a, b, self.energies[what] if isinstance(what, str) else what))


class Polygon:
    def __init__(self, vertices):
        self.vertices = vertices


def base(*names):
    class Base:
        def __init__(self, *args, **kwargs):
            self.init = dict(zip(names, args), **kwargs)
    return Base


cpp.Lattice, cpp.Polygon = Core, Polygon
cpp.SiteStateModifier, cpp.PositionModifier, cpp.OnsiteModifier, cpp.HoppingModifier = (base("apply") for _ in range(4))
from pybinding.repository import graphene, group6_tmd
'''
py_seed("S63-gauge-of-one-end", "C27",
     [("pybinding/repository/graphene/modifiers.py", "        vp_x = 0.5 * magnitude * (y1 + y2)\n", "        vp_x = magnitude * np.maximum(y1, y2)\n")],
     MATERIALS + r'''
from pybinding.constants import phi0
field = graphene.constant_magnetic_field(100)
for loop in ([(0, 0), (2, 0), (2, 1), (0, 1)], [(0, 0), (3, 1), (1, 4), (-2, 2)]):
    x, y = np.array(loop, dtype=float).T
    X, Y = np.roll(x, -1), np.roll(y, -1)
    z = np.zeros(len(x))
    phases = np.angle(field.apply(np.ones(len(x)), x, y, z, X, Y, z, "t"))
    area = 0.5 * np.sum(x * Y - X * y)
    assert np.isclose(phases.sum(), 2 * np.pi * 100e-18 * area / phi0), (phases.sum(), area)
''', "a loop with slanted bonds (opposite directions stay opposite, rectangles are right)", "the phases around a loop are not the flux")
py_seed("S64-odd-small-hexagon", "C27",
     [("pybinding/repository/graphene/shape.py", "    side_atoms += (side_atoms % 2)  # it must be an even number\n", "    side_atoms += (side_atoms % 2) * (side_atoms > 5)  # it must be an even number\n")],
     MATERIALS + r'''
from pybinding.repository.graphene.constants import a_cc
for width in np.arange(0.05, 3, 0.0371):
    y = max(v[1] for v in graphene.hexagon_ac(width).vertices)
    atoms = (y / a_cc + 1.5) / 1.5
    assert abs(atoms / 2 - round(atoms / 2)) < 1e-6, (width, atoms)
''', "a small hexagon whose width asks for three or five atoms on a side", "zigzag corners on hexagons with armchair edges")
py_seed("S65-offset-of-default-hopping", "C27",
     [("pybinding/repository/graphene/lattice.py", "onsite_offset = 0 if nearest_neighbors < 2 else 3 * kwargs.get('t_nn', t_nn)", "onsite_offset = 0 if nearest_neighbors < 2 else 3 * t_nn")],
     MATERIALS + r'''
for kw, want in (({}, 0.3), ({"t_nn": 0.2}, 0.6), ({"t_nn": -0.1}, -0.3)):
    subs = graphene.monolayer(2, **kw).impl.subs
    assert all(np.isclose(e, want) for _, e in subs.values()), (kw, subs)
''', "second neighbors with their own hopping energy", "the Dirac point is not at zero energy")
py_seed("S66-mirrored-tmd-bond", "C27",
     [("pybinding/repository/group6_tmd.py", """     3/4 * t11 + 1/4 * t22]]

    h3 = [[                    t0,    -1/2 * t1 - rt3/2 * t2,     rt3/2 * t1 - 1/2 * t2],
          [ 1/2 * t1 - rt3/2 * t2,     1/4 * t11 + 3/4 * t22, rt3/4 * (t22 - t11) + t12],
          [-rt3/2 * t1 - 1/2 * t2, rt3/4 * (t22 - t11) - t12,     3/4 * t11 + 1/4 * t22]]""",
       """     3/4 * t11 + 1/4 * t22]]

    h3 = [[                    t0,    -1/2 * t1 - rt3/2 * t2,     rt3/2 * t1 - 1/2 * t2],
          [ 1/2 * t1 - rt3/2 * t2,     1/4 * t11 + 3/4 * t22, rt3/4 * (t22 - t11) - t12],
          [-rt3/2 * t1 - 1/2 * t2, rt3/4 * (t22 - t11) + t12,     3/4 * t11 + 1/4 * t22]]""")],
     MATERIALS + r'''
for name in ("MoS2", "WTe2"):
    core = group6_tmd.monolayer_3band(name).impl
    def levels(k):
        h = np.diag(core.subs[name[:-2] if name[-2:] == "S2" else "W"][1]).astype(complex)
        for rel, _, _, t in core.hops:
            m = np.array(t) * np.exp(1j * np.dot(k, sum(n * v for n, v in zip(rel, core.vectors))))
            h += m + m.conj().T
        return np.linalg.eigvalsh(h)
    turn = np.array([[-0.5, -np.sqrt(0.75)], [np.sqrt(0.75), -0.5]])
    for k in np.array([[3.0, 1.0], [-2.0, 6.5]]):
        assert np.allclose(levels(k), levels(turn @ k)), (name, k)
''', "wave vectors off the symmetry lines", "the bands don't have the symmetry of the crystal")
py_seed("S67-strain-in-the-plane-only", "C27",
     [("pybinding/repository/graphene/modifiers.py", "    l = np.sqrt((x1 - x2)**2 + (y1 - y2)**2 + (z1 - z2)**2)\n", "    l = np.hypot(x1 - x2, y1 - y2)\n")],
     MATERIALS + r'''
from pybinding.repository.graphene.constants import a_cc, beta
_, hopping = graphene.gaussian_bump(1.0, 1.0)
v = np.array([[0.1, 0.1, 0.0], [0.1, 0.1, 0.05]])
o = np.zeros(2)
t = hopping.apply(-2.8 * np.ones(2), o, o, o, v[:, 0], v[:, 1], v[:, 2], "t")
want = -2.8 * np.exp(-beta * (np.linalg.norm(v, axis=1) / a_cc - 1))
assert np.allclose(t, want), (t, want)
''', "deformation out of the plane", "the bonds on the slope of a bump are not strained")
PROGRESS = r'''
import io, os, tempfile, contextlib
from pybinding.utils import progressbar
'''
py_seed("S68-last-lines-lost", "C28",
     [("pybinding/utils/progressbar.py", """            return

        self.refresh()

        for capture""", """            return

        if self.value < self.size:
            self.refresh()

        for capture""")],
     PROGRESS + r'''
for last in (2, 3):
    shown = io.StringIO()
    p = progressbar.ProgressBar(3, stream=shown)
    p.start()
    p.update(last)
    print("after the last step")
    p.stop()
    assert "after the last step" in shown.getvalue(), last
''', "something is printed between the last step and the end", "it is never shown")
py_seed("S69-log-overwritten", "C28",
     [("pybinding/utils/progressbar.py", """        self.file.write(line + '\\n')
        self.file.flush()
        self.file.seek(0, os.SEEK_END)
""", """        self.file.write(line + '\\n')
        self.file.flush()
        self.file.seek(0, os.SEEK_END if self.file.tell() > len(line) + 1 else os.SEEK_CUR)
"""),
      ("pybinding/utils/progressbar.py", """    def write_pbar(self, line):
        self.file.seek(0, 0)
        self.file.write(line""", """    def write_pbar(self, line):
        line = line.rstrip()
        self.file.seek(0, 0)
        self.file.write(line""")],
     PROGRESS + r'''
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "log")
    p = progressbar.ProgressBar(3, stream=None, filename=name)
    p.start()
    for i in range(1, 4):
        print("line", i)
        p.update(i)
    p.stop()
    lines = open(name).read().splitlines()
    assert len(lines[0]) == 80 and lines[1:] == ["line 1", "line 2", "line 3"], lines
''', "a log file and a bar line which became shorter", "lines in the log file are overwritten")
py_seed("S70-clock-of-the-first-run", "C28",
     [("pybinding/utils/progressbar.py", """            output.start(self.width)

        self.start_time = datetime.datetime.now()
        self.last_update_time = self.start_time
""", """            output.start(self.width)

        self.last_update_time = datetime.datetime.now()
""")],
     PROGRESS + r'''
import datetime
now = [datetime.datetime(2020, 1, 1)]
class Fake(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return now[0]
progressbar.datetime = types.SimpleNamespace(datetime=Fake, timedelta=datetime.timedelta)
shown = io.StringIO()
p = progressbar.ProgressBar(4, stream=shown)
now[0] += datetime.timedelta(seconds=100)
p.start()
now[0] += datetime.timedelta(seconds=3)
p.update(1)
p.stop()
assert "Elapsed: 0:00:03 / ETA: 0:00:09" in shown.getvalue(), shown.getvalue()
''', "time passes before the display starts, or it is used again", "elapsed time and estimate count the time before the start")
BUILDERS = r'''
import copy
import _pybinding as cpp


class Part:
    def __init__(self, name=""):
        self.name = name


for kind in ("Shape", "TranslationalSymmetry", "SiteStateModifier", "PositionModifier", "OnsiteModifier", "HoppingModifier"):
    setattr(cpp, kind, type(kind, (Part,), {}))


class CoreModel:
    def __init__(self, lattice):
        self.parts = []

    def add(self, part):
        if not isinstance(part, Part):
            raise TypeError("incompatible function arguments")
        self.parts.append(part)

    hamiltonian = types.SimpleNamespace(diagonal=lambda: np.array([-2, 3 + 4j, 0]))
    system = None


class CoreLattice:
    def __init__(self, *vectors):
        self.calls, self.offset, self.min_neighbors = [], [0, 0, 0], 1

    def __getattr__(self, name):
        if name.startswith("_") or name not in ("add_sublattice", "add_alias", "add_hopping", "register_hopping_energy"):
            raise AttributeError(name)
        return lambda *args: self.calls.append((name,) + args)


cpp.Model, cpp.Lattice = CoreModel, CoreLattice
import pybinding as pb
'''
py_seed("S71-same-part-only-once", "C29",
     [("pybinding/model.py", "        for arg in args:\n            if arg is None:", "        for n, arg in enumerate(args):\n            if any(arg is other for other in args[:n]):\n                continue\n            if arg is None:")],
     BUILDERS + r'''
p, q = cpp.OnsiteModifier(), cpp.HoppingModifier()
m = pb.Model(pb.Lattice([1, 0]), p, [q, p, q])
assert m.parts == [p, q, p, q], m.parts
m.add(q, p)
assert m.parts == [p, q, p, q, q, p], m.parts
''', "the same modifier twice in the same list of parts", "its effect is not multiplied")
py_seed("S72-same-offset-shares-the-lattice", "C29",
     [("pybinding/lattice.py", "        cp = deepcopy(self)\n        cp.offset = position\n", "        if np.allclose(self.offset, np.append(position, np.zeros(3 - len(position)))):\n            return self\n        cp = deepcopy(self)\n        cp.offset = position\n")],
     BUILDERS + r'''
a = pb.Lattice([1, 0])
b = a.with_offset([0, 0, 0])
a.add_one_sublattice("A", [0, 0])
assert len(a.impl.calls) == 1 and len(b.impl.calls) == 0
''', "a copy with the same offset and a later change of the original", "the copy changes together with the original")
py_seed("S73-energies-in-caseless-order", "C29",
     [("pybinding/lattice.py", "key=lambda item: item[0]):", "key=lambda item: item[0].casefold()):")],
     BUILDERS + r'''
a = pb.Lattice([1, 0])
a.register_hopping_energies({"t": 1, "U": 2, "Z": 3, "s": 4})
assert [c[1] for c in a.impl.calls] == ["U", "Z", "s", "t"], a.impl.calls
b = pb.Lattice([1, 0])
b.register_hopping_energies({"T": 1, "t": 2})
c = pb.Lattice([1, 0])
c.register_hopping_energies({"t": 2, "T": 1})
assert b.impl.calls == c.impl.calls
''', "names of energies which start with capital and small letters", "the order of the families depends on the order of the dictionary")
py_seed("S74-shape-of-the-first", "C29",
     [("pybinding/model.py", "                    self._shape = arg\n", "                    self._shape = self._shape or arg\n")],
     BUILDERS + r'''
s, t = cpp.Shape(), cpp.Shape()
m = pb.Model(pb.Lattice([1, 0]), s)
m.add([t])
assert m.shape is t
''', "a shape which replaces another one", "the model reports the shape which isn't used any more")
py_seed("S75-onsite-map-without-sign", "C29",
     [("pybinding/model.py", "np.real(self.hamiltonian.diagonal())", "abs(self.hamiltonian.diagonal())")],
     BUILDERS + r'''
import pybinding.model as pm
m = pb.Model(pb.Lattice([1, 0]))
got = []
pm.Model.structure_map = lambda self, data: got.append(data)
m.onsite_map
assert got[0].tolist() == [-2, 3, 0], got
''', "negative onsite energies", "the map of onsite energies has the wrong signs")
py_seed("S76-drawn-area-turned-around", "C24",
     [("pybinding/shape.py", "    area = np.flipud(area)\n", "    area = np.flip(area)\n")],
     SHAPES + r'''
from unittest.mock import MagicMock
shape.plt = MagicMock()
shape.pltutils = MagicMock()
shape._plot_freeform_shape([(-4, -2, 0), (4, -2, 0), (4, 2, 0), (-4, 2, 0)], lambda x, y, z: (x > 0) & (y > 0), resolution=(8, 4))
area = shape.plt.imshow.call_args[0][0].filled(0)
assert area[0].tolist() == [0] * 4 + [1] * 4 and area[3].tolist() == [0] * 8, area
''', "a shape which isn't the same on the left and on the right", "the area is drawn at the wrong side")
py_seed("S77-contact-arrow-of-skewed-vectors", "C25",
     [("pybinding/leads.py", "            scale = arrow_length * line_length / np.linalg.norm(vec)\n", "            scale = arrow_length * line_length / np.abs(vec).max()\n")],
     r'''
from unittest.mock import MagicMock
import pybinding as pb
import pybinding.leads as pl
pl.plt, pl.pltutils = MagicMock(), MagicMock()
for v, want in (([0.0, 2.0, 0.0], [0, 5]), ([3.0, 4.0, 0.0], [3, 4])):
    line = types.SimpleNamespace(vertices=[np.array([0.0, 0.0, 0.0]), np.array([6.0, 8.0, 0.0])])
    impl = types.SimpleNamespace(spec=types.SimpleNamespace(axis=1, sign=1, shape=line))
    lead = pl.Lead(impl, 0, types.SimpleNamespace(vectors=[np.array([1.0, 0, 0]), np.array(v)]))
    lead.plot_contact()
    got = pl.plt.arrow.call_args[0][2:]
    assert np.allclose(got, want), (got, want)
''', "a lead along a vector which isn't parallel to x or y", "the arrow has the wrong length")
py_seed("S78-constant-potential-couples-orbitals", "C21",
     [("pybinding/modifier.py", "        return energy + sub_id.eye * magnitude\n", "        return energy + magnitude * (sub_id.eye if len(energy) > 1 else 1)\n")],
     MODS + r'''
f = pb.constant_potential(3)
for n in (1, 2):
    e = np.zeros((2, 2, n))
    r = np.asarray(f.apply(e, np.zeros(n), np.zeros(n), np.zeros(n), "A"))
    assert all(r[:, :, k].tolist() == [[3, 0], [0, 3]] for k in range(n)), r
''', "a single site with several orbitals", "the potential is also added as a coupling of the orbitals")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CHECKS = []
NOT = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), level="model_checking"):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe)}})
    if technique:
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py " + id, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + id,
                       "technique": technique, "level": level, "level_note": note})
    else:
        NOT.append({"property": id, "reason": note})


CORE = "cppcore/"
SAMPLED = ("The design is checked exhaustively on a small alphabet; the binding to the code is by recorded behaviours of the "
           "real library, each of which TLC validates against the specification (a sample, seeded, not a proof). "
           "Integer geometry and energies, so that floating point is exact.")
TRACE = "TLA+ specification, TLC; trace validation of recorded behaviours of the real code"

prop("C01", "Lattice definitions are consistent and rejected calls change nothing",
     "Every accepted sequence of lattice definition calls leaves a definition with unique names, Hermitian onsite energies, aliases "
     "which resolve to an original sublattice, hopping terms of the right matrix shape which are neither duplicated nor contradictory, "
     "and every term is seen from both of its ends. Invalid calls are rejected, valid ones accepted, and a rejected call leaves the "
     "definition exactly as it was. Positions, lattice coordinates, maximum hoppings and the energy registries always agree with the definition.",
     ["histories", "inputs"], "all sequences of definition calls with all valid and invalid arguments",
     "The tests have a handful of fixed call sequences; they cannot cover the orders, aliases, matrix shapes and failures in the middle.",
     [CORE + "src/Lattice.cpp", CORE + "include/Lattice.hpp", CORE + "src/system/Registry.cpp"],
     [("argument checks before the mutation", "Lattice::add_sublattice, add_alias, register_hopping_energy, add_hopping"),
      ("derived views", "Lattice::optimized_unit_cell, site_registry, hopping_registry, calc_position, translate_coordinates")],
     TRACE + "; histories generated by TLC's simulator", SAMPLED,
     observe=["Lattice getters", "optimized_unit_cell()", "site_registry()", "hopping_registry()"])

prop("C02", "A finite system has exactly the lattice sites inside of the shape",
     "For every lattice and shape (or primitive size), the system holds each lattice site inside of the shape (of the given number of "
     "unit cells) exactly once and no other site, at its lattice position including the lattice offsets, and under the name of its "
     "original sublattice. The last shape or primitive which was set is the one which counts; a shape without sites is an error.",
     ["inputs", "configurations"], "all lattices (1D to 3D, oblique, offsets, aliases), shapes and primitive sizes",
     "Tests build a few fixed systems and compare counts; a missed or extra cell shows up only for particular shapes and vectors.",
     [CORE + "src/system/Foundation.cpp", CORE + "src/system/Shape.cpp", CORE + "src/system/System.cpp"],
     [("bounding cells, containment, site order", "detail::find_bounds, Foundation::Foundation, Shape::contains"),
      ("finalized indices", "Foundation::get_finalized_indices, detail::populate_system")],
     TRACE, SAMPLED, observe=["Model::system()"])

prop("C03", "System hoppings are exactly the lattice hoppings between present sites",
     "Two sites of a finite system are connected by a hopping of a family exactly when the lattice defines it between their positions, "
     "each such hopping is there once, in the direction in which it was defined, and with the energy of its family. Every index refers to a site "
     "of the system.",
     ["inputs", "configurations"], "all lattices (any relative index, any family) and finite structures",
     "Tests count hoppings of two or three structures; wrong pairs, lost or repeated hoppings at particular edges keep the counts.",
     [CORE + "src/system/System.cpp", CORE + "include/system/Foundation.hpp", CORE + "src/system/HoppingBlocks.cpp", CORE + "src/Lattice.cpp"],
     [("neighbor iteration", "Site::for_each_neighbor"), ("compressed storage", "HoppingBlocks"), ("optimized unit cell", "OptimizedUnitCell")],
     TRACE, SAMPLED, observe=["System::hopping_blocks"])

prop("C04", "The Hamiltonian matrix is the sum of all onsite and hopping terms",
     "For every system, without modifiers, the Hamiltonian has the onsite matrix of each site on its diagonal block, the hopping matrix of each "
     "hopping at the rows of the first and the columns of the second site together with its adjoint, and zeros elsewhere; it is Hermitian. "
     "Its size is the total number of orbitals, and the published index mapping tells which row belongs to which site and orbital.",
     ["inputs", "configurations"], "all lattices with any number of orbitals, real and complex energies, all finite structures",
     "Tests check a few matrix elements of single- and two-orbital models.",
     [CORE + "include/hamiltonian/Hamiltonian.hpp", CORE + "include/hamiltonian/HamiltonianModifiers.hpp", CORE + "src/system/System.cpp",
      CORE + "src/system/CompressedSublattices.cpp", CORE + "src/system/Registry.cpp"],
     [("matrix assembly", "detail::build_main"), ("orbital indices", "IndexTranslator, System::to_hamiltonian_indices")],
     TRACE, SAMPLED, observe=["Model::hamiltonian()", "System::to_hamiltonian_indices"])

prop("C05", "Periodic systems wrap every hopping and carry the right Bloch phase",
     "With translational symmetry the system is one period of the structure, and every hopping which leaves the period is present once as a boundary "
     "hopping to the site which is a whole number of periods away, with the shift vector of that displacement, however far it reaches and also across corners. "
     "For every wave vector the Hamiltonian is the sum of the inner terms and of the boundary terms times exp(ik.shift), and it is Hermitian.",
     ["inputs", "configurations"], "all lattices, periods (1 to 3 directions, any length, also shorter than the reach of the hoppings), wave vectors",
     "Tests use nearest-neighbor square lattices with one or two periods and one wave vector.",
     [CORE + "src/system/Symmetry.cpp", CORE + "src/system/System.cpp", CORE + "include/hamiltonian/Hamiltonian.hpp"],
     [("period and translations", "TranslationalSymmetry::area, translations, apply"), ("boundary hoppings", "detail::populate_boundaries"),
      ("phase", "detail::build_periodic")],
     TRACE, SAMPLED, observe=["System::boundaries", "Model::hamiltonian()"])

prop("C06", "Dangling site removal ends in the largest structure without dangling sites",
     "After building a shape or applying a site state modifier with a minimum number of neighbors, exactly those sites are removed which, directly or through a chain of "
     "removals, were left with fewer neighbors than the minimum; the result does not depend on the order. Sites which satisfy the minimum stay.",
     ["inputs", "configurations"], "all lattices, shapes, removal patterns and minimum neighbor counts",
     "Tests remove one site or none; chains of removals over several sublattices and far hoppings are not reached.",
     [CORE + "src/system/Foundation.cpp", CORE + "src/system/StructureModifiers.cpp"],
     [("cascading removal", "detail::remove_dangling, detail::clear_neighbors, detail::count_neighbors")],
     TRACE, SAMPLED + " Structures where a dangling site sits at the edge of the cell grid are outside of the domain.", observe=["Model::system()"])

prop("C07", "Structure modifiers and generators apply in order to what exists at that time",
     "Site state, position, site and hopping generators act in the order in which they were added; each gets to see exactly the sites, positions, sublattice names and hoppings which exist "
     "at that time, and the final system and Hamiltonian contain exactly their combined effect: removed sites take their hoppings (also boundary ones) along, generated sites and hoppings appear "
     "under their name with their energy and direction. Indices stay consistent throughout.",
     ["inputs", "histories", "configurations"], "all orders and kinds of structure modifiers on all structures",
     "Tests apply one or two modifiers to a small model; interactions of several generators, removals and periodic boundaries are not covered.",
     [CORE + "src/system/StructureModifiers.cpp", CORE + "include/system/StructureModifiers.hpp", CORE + "src/Model.cpp", CORE + "src/system/CompressedSublattices.cpp",
      CORE + "src/system/HoppingBlocks.cpp"],
     [("application in two phases", "Model::make_system"), ("generators", "SiteGenerator, HoppingGenerator, detail::remove_invalid"),
      ("renumbering", "CompressedSublattices::filter, HoppingBlocks::filter")],
     TRACE, SAMPLED, observe=["modifier callbacks", "Model::system()", "Model::hamiltonian()"])

prop("C08", "Hamiltonian modifiers see each term once and their results are used in order",
     "Every onsite modifier is given each site exactly once, with its position, sublattice name and orbital shape; every hopping modifier is given each hopping exactly once, including the ones across periodic boundaries, with both "
     "positions and the family name, no matter how many there are. The Hamiltonian contains the outcome of applying all modifiers in the order in which they were added, and nothing else.",
     ["inputs", "configurations"], "all modifiers, orders, structures and sizes, also those where the hoppings are processed in several chunks",
     "Tests use one modifier on systems which fit in one chunk.",
     [CORE + "include/hamiltonian/HamiltonianModifiers.hpp", CORE + "src/hamiltonian/HamiltonianModifiers.cpp"],
     [("batched evaluation", "HamiltonianModifiers::apply_to_onsite, apply_to_hoppings_impl, HoppingBuffer")],
     TRACE, SAMPLED, observe=["modifier callbacks", "Model::hamiltonian()"])

prop("C09", "A model's results depend on its description only, not on its history",
     "Whatever was built, observed, copied, cleared or rejected before, every observation of a model is the one of a fresh model with the same description; a rejected change has no effect. "
     "Copies are independent of each other, and results which the user already holds never change.",
     ["histories"], "all interleavings of changes, rejected changes, observations, copies and clears",
     "Tests build each model once or change one thing once.",
     [CORE + "src/Model.cpp", CORE + "include/Model.hpp", CORE + "src/leads/Leads.cpp"],
     [("lazy evaluation and invalidation", "Model::system, hamiltonian, leads, clear_structure, clear_hamiltonian"), ("complex override", "Model::make_hamiltonian")],
     TRACE + "; exhaustive cache design model", SAMPLED,
     state=[("_system, _hamiltonian, _leads, complex_override", "cached results", CORE + "include/Model.hpp")],
     observe=["Model::system()", "hamiltonian()", "leads()", "is_complex()", "get_site_registry()", "get_lattice()"])

prop("C10", "An attached lead continues the lattice without gaps",
     "Attaching a lead fills the gap between the structure and the lead's cross-section, and its unit cell has the same sites one lattice vector outwards. Its indices point to the attached sites of the system; h0 holds the terms within a lead cell and "
     "h1 the terms from a cell to the next one inwards, each the one (or the conjugate of the one) which the lattice defines, after Hamiltonian modifiers. A lead which misses the structure is an error.",
     ["inputs", "configurations"], "all lattices, directions, lead shapes, structures, energies and modifiers",
     "Tests attach leads to a square and a graphene patch and compare a few indices.",
     [CORE + "src/leads/Spec.cpp", CORE + "src/leads/Structure.cpp", CORE + "include/leads/HamiltonianPair.hpp", CORE + "src/leads/Leads.cpp"],
     [("junction", "leads::detail::Junction, leads::create_attachment_area"), ("lead structure", "leads::Structure"), ("Hamiltonian pair", "leads::HamiltonianPair")],
     TRACE, SAMPLED + " Position modifiers, symmetry and removals after generators together with leads are outside of the domain.", observe=["Model::leads()", "Model::system()"])

prop("C11", "Index queries of a system agree with its sites",
     "The range of a sublattice holds exactly its sites, find_nearest returns a site (of the requested sublattice) than which no other is nearer or an error when there is none, and the Hamiltonian indices of the "
     "sites partition the rows of the Hamiltonian with as many indices per site as it has orbitals. Expanded positions repeat each site's position at each of its Hamiltonian indices.",
     ["inputs", "configurations"], "all systems (aliases, several orbitals, generated and removed sites) and all query arguments",
     "Tests query a couple of positions in one system.",
     [CORE + "src/system/System.cpp", CORE + "src/system/CompressedSublattices.cpp"],
     [("compressed sublattices", "CompressedSublattices"), ("queries", "System::find_nearest, sublattice_range, expanded_positions, to_hamiltonian_indices")],
     TRACE, SAMPLED, observe=["System queries"])

prop("C12", "The Hamiltonian's scalar type is always the one which its values need",
     "The Hamiltonian is complex whenever any energy, symmetry or modifier makes a value complex, also if a modifier turns out to be complex only while it is evaluated, and double precision exactly when a modifier asks for it; "
     "otherwise it is real and single precision. NaN or infinite values are reported as an error and never end up in a Hamiltonian.",
     ["inputs", "histories", "configurations"], "all combinations of energies, generators, symmetry and modifiers",
     "Tests look at a few combinations.",
     [CORE + "src/Model.cpp", CORE + "src/hamiltonian/HamiltonianModifiers.cpp", CORE + "src/system/Registry.cpp"],
     [("type selection", "Model::is_complex, is_double, make_hamiltonian"), ("validation", "detail::throw_if_invalid")],
     TRACE, SAMPLED, observe=["Model::hamiltonian()", "Model::is_complex()", "Model::is_double()"])


KPMNOTE = SAMPLED + " The kernels run both in the generic and in the vectorized form (on an emulation of libsimdpp). Accuracy of the reconstruction is outside."
KPMF = [CORE + "src/kpm/Core.cpp", CORE + "src/kpm/OptimizedHamiltonian.cpp", CORE + "include/kpm/calc_moments.hpp", CORE + "src/kpm/Moments.cpp",
        CORE + "src/kpm/Starter.cpp", CORE + "src/kpm/default/Compute.cpp", CORE + "src/kpm/default/collectors.cpp"]
prop("C13", "KPM moments are exactly the Chebyshev moments of the Hamiltonian",
     "For every Hamiltonian (real, complex, disconnected, empty rows), source, destination, operator and number of moments, the computed moments, damping and reconstructed LDOS and Green's functions (element (row, col), not its transpose) are the ones of the "
     "defining recurrence T0 = 1, T1 = H, Tn+1 = 2 H Tn - Tn-1 of the scaled Hamiltonian. Matrix format, optimal size, interleaving, vectorization, reordering and number of threads do not change any result.",
     ["inputs", "configurations"], "all sparse Hermitian matrices, indices, vectors, operators, numbers of moments and all configurations of the algorithm",
     "The KPM tests compare a few models against stored values of a given tolerance, and they cannot enumerate graphs, index sets and algorithm variants.",
     KPMF + [CORE + "include/compute/kernel_polynomial.hpp", CORE + "src/kpm/Kernel.cpp", CORE + "include/kpm/reconstruct.hpp"],
     [("reordering and slices", "OptimizedHamiltonian::create_reordered, SliceMap"), ("recurrence", "calc_moments::basic, interleaved"),
      ("kernels", "compute::kpm_spmv, kpm_spmv_diagonal"), ("Green's function", "Core::greens_vector, ConjugateMoments")],
     TRACE + "; exhaustive model of the sliced recurrence", KPMNOTE, observe=["kpm::Core::moments, ldos, greens_vector"])

prop("C14", "A KPM calculation does not depend on the calculations before it",
     "Whatever was calculated before on the same object, with whatever indices, and after each change of the Hamiltonian, every result is the one of a new object: the Hamiltonian is optimized for the present indices, and the spectrum bounds are the ones of the present Hamiltonian. "
     "Automatically determined bounds are the extreme eigenvalues (to the precision of the procedure), also when one of them is zero.",
     ["histories"], "all sequences of calculations and changes of the Hamiltonian",
     "Tests run a calculation or two on each object.",
     KPMF + [CORE + "src/kpm/Bounds.cpp", CORE + "include/compute/lanczos.hpp"],
     [("cached optimized Hamiltonian", "OptimizedHamiltonian::optimize_for"), ("bounds", "Bounds::compute_bounds, Core::set_hamiltonian")],
     TRACE + "; exhaustive cache model", KPMNOTE,
     state=[("optimized_hamiltonian, bounds", "kept between calculations", CORE + "include/kpm/Core.hpp")],
     observe=["kpm::Core"])

prop("C15", "Batched and stochastic KPM results combine every vector exactly once",
     "LDOS of many indices has one column for each index, in their order, and the stochastic DOS and conductivity are the average over exactly the requested number of random vectors (each element +1 or -1 for real Hamiltonians), independent of how many are "
     "processed at once or by how many threads. The conductivity moments are mu_nm = <r| v Tn v Tm |r> with the velocity operators of the two directions, and progress is reported from -1 up to the total.",
     ["inputs", "configurations", "schedules"], "all batch sizes, numbers of vectors and indices, thread counts and scalar types",
     "Tests compare averages over random vectors with wide tolerances, one batch size.",
     KPMF, [("batching and accumulation", "DefaultCompute, BatchAccumulator, BatchConcatenator, MomentConcatenator"), ("random vectors", "RandomStarter"),
            ("conductivity moments", "DenseMatrixMoments, MomentMultiplication, velocity")],
     TRACE, KPMNOTE + " The random phases of complex Hamiltonians are outside.", observe=["kpm::Core::ldos, dos, conductivity"])

prop("C16", "KPM results for a model refer to the requested sites, orbitals and directions",
     "For every model the LDOS at a position is the one of all orbitals of the nearest site (of the given sublattice), summed only if asked for; the spatial LDOS has a column for each site of the sublattice inside of the shape in the order of the sites; the conductivity directions are those of the positions of the orbitals. "
     "Calls with invalid indices, sizes, directions, sublattices or complex vectors for a real model are rejected without a crash. A model which is changed after it was given to KPM does not change the results.",
     ["inputs", "histories"], "all models (several orbitals, aliases, generated sites, periodic) and all valid and invalid arguments",
     "Tests use single-orbital graphene and valid arguments.",
     [CORE + "src/KPM.cpp", CORE + "src/system/System.cpp", CORE + "src/kpm/Core.cpp"],
     [("argument checks and translation of positions", "KPM::calc_ldos, calc_spatial_ldos, calc_greens, calc_conductivity, moments"), ("model", "KPM::set_model")],
     TRACE, KPMNOTE, observe=["KPM"])


prop("C17", "Multithreaded work is done exactly once under every schedule",
     "Under every schedule (also with spurious wakeups) parallel_for produces the jobs in order and no more of them ahead than its queue holds, computes each job once on its own value and at most num_threads at once, retires each result once and returns only after that; batched KPM moments use each starter vector once with its own index. "
     "A ThreadPool runs each job added to it, also by its own jobs, exactly once, and join waits for all of them. "
     "Queue is a linearizable bounded first-in first-out queue which still gives out the remaining items after closing, and no thread waits which could go on.",
     ["schedules", "inputs"], "all interleavings of the threads at their synchronization points, numbers of threads, jobs and queue sizes, orders of queue operations",
     "Tests run with the schedule which happens to occur; lost wakeups, lost jobs and repeated indices need particular interleavings.",
     [CORE + "include/detail/thread.hpp", CORE + "src/kpm/default/Compute.cpp", CORE + "src/kpm/Moments.cpp", CORE + "include/kpm/Moments.hpp"],
     [("queue, guards, loop and pool", "detail/thread.hpp: Queue, QueueGuard, parallel_for, ThreadPool"), ("starter and accumulation locks", "DefaultCompute moments, BatchConcurrent, kpm::Starter")],
     "TLA+ specification, TLC: the algorithm is checked exhaustively; behaviours of the real code under a controlled scheduler (random, priority-based, exhaustive with bounded preemption) are validated by TLC",
     "The algorithm is checked exhaustively for small sizes, with liveness. The real code is run under a deterministic scheduler which replaces the pthread calls: all schedules with few preemptions for small cases, sampled ones for larger cases. Data races between synchronization points are outside.",
     observe=["detail::Queue", "parallel_for", "ThreadPool", "kpm::Core"])


prop("C18", "A solver's results are always those of its present model",
     "Whatever the order of set_model, solve, clear and queries: eigenvalues, eigenvectors, DOS and spatial LDOS are those of the model which the solver has at that time, found by a strategy of the Hamiltonian's scalar type, and computed at most once until the model changes or the results are cleared. "
     "A failed computation is tried again, a model which cannot be used is refused and leaves the solver as it was, and later changes of a model which was given don't matter. "
     "The DOS and LDOS at an energy are the sums of the normalized Gaussians of all levels, weighted with the probability on each site for the LDOS.",
     ["histories", "inputs"], "all orders of operations with models of all scalar types, invalid models and failing strategies",
     "No C++ test uses the solver; stale results need particular sequences of models with the same or another scalar type.",
     [CORE + "src/solver/Solver.cpp", CORE + "include/solver/Solver.hpp", CORE + "include/detail/strategy.hpp", CORE + "include/numeric/arrayref.hpp"],
     [("present results", "BaseSolver::set_model, solve, clear"), ("selection of the strategy", "detail::MakeStrategy"), ("broadened levels", "CalcDOS, CalcSpatialLDOS, num::match, match2sp")],
     TRACE, "The interface is checked exhaustively with failures; the real code runs with a stand-in strategy whose results identify their Hamiltonian. Levels are integers and Gaussians are evaluated where they are powers of two. FEAST itself (MKL) is outside.",
     observe=["BaseSolver"])


prop("C19", "System containers, registries and sparse matrices keep what was put into them",
     "Whatever sequence of additions, removals of sites and copies through the serialized form: hopping blocks hold exactly the distinct hoppings (in upper triangular form only where allowed) between the remaining sites, and their counts, neighbors and matrix agree; compressed sublattices give each remaining site its sublattice, orbitals and Hamiltonian index, and reject inconsistent data. "
     "A registry keeps unique names with their energies (Hermitian onsite), refuses others and leaves itself unchanged, and its flags tell if there are nonzero, complex or matrix energies. "
     "Sparse matrices built row by row, their ELLPACK form and all loops over them (whole, per row, buffered, sliced) visit each element exactly once.",
     ["histories", "inputs"], "all sequences of operations with all arguments which the containers allow",
     "Tests reach the containers only through a few small systems; groups without sites, repeated hoppings and unsorted rows need particular sequences.",
     [CORE + "src/system/HoppingBlocks.cpp", CORE + "include/system/HoppingBlocks.hpp", CORE + "src/system/CompressedSublattices.cpp", CORE + "include/system/CompressedSublattices.hpp",
      CORE + "src/system/Registry.cpp", CORE + "include/numeric/sparse.hpp", CORE + "include/numeric/ellmatrix.hpp", CORE + "include/detail/algorithm.hpp"],
     [("hoppings by family", "HoppingBlocks"), ("groups of sites", "CompressedSublattices"), ("names and energies", "Registry"), ("formats and loops", "CompressedInserter, sparse::Loop, EllMatrix, csr_to_ell")],
     TRACE, "The refinement of labelled sites and hoppings by the containers is checked exhaustively for up to 4 sites; the binding to the code is by sampled operation sequences which TLC validates. The matrix of families is only defined for coordinates which are unique over all families, as the containers document.",
     observe=["HoppingBlocks", "CompressedSublattices", "Registry", "sparse::Loop", "EllMatrix"])


prop("C20", "Result objects keep each value at its own site, hopping or parameter",
     "Selecting, cropping, clipping, replacing data, copying and saving result objects (structures, structure maps, spatial maps, sweeps, series, paths) in any order gives exactly the selected sites with their own positions, sublattices, data, hoppings and boundaries between them, and never changes the object it is made from. "
     "Sweeps keep data[i, j] as the value at x[i], y[j] for every index, limit, mirror and refinement; names compare with aliases the same way before and after; nearest sites are the nearest of the requested sublattice. "
     "A k-path contains all given points at its point indices with evenly spaced points between them.",
     ["inputs", "histories"], "all sites, hoppings, boundaries, data, and sequences of operations on result objects",
     "Tests look at one graphene model and one 3 by 3 sweep; wrong pairing of values needs particular indices, hopping families or shapes.",
     ["pybinding/results.py", "pybinding/support/structure.py", "pybinding/support/alias.py", "pybinding/support/pickle.py"],
     [("selection of sites and hoppings", "_slice_csr_matrix, Sites, Hoppings, StructureMap.__getitem__"), ("sweeps and paths", "Sweep, NDSweep, make_path"), ("names", "AliasArray, AliasCSRMatrix, SplitName"), ("files", "support.pickle.save, load")],
     TRACE, "Selection is checked exhaustively on small structures (composition, induced hoppings). The Python code runs with stand-ins for the extension module and matplotlib; plots are outside. Values are integers.",
     observe=["pybinding.results"])


prop("C21", "Modifier functions see and set exactly the values of their own sites or hoppings",
     "For any selection and order of the documented arguments, any number of sites and orbitals and any scalar type, a modifier function gets the energies (one matrix per site or hopping), coordinates, sites and names of that group, and names compare by full name or first part. "
     "What the core then reads is, for each site or hopping, exactly what the function returned, converted to the model's type where that loses only precision, whatever the memory layout of the returned arrays; other types, sizes or numbers of results and functions with unknown arguments are refused. "
     "Generators get the structure built so far and their positions or indices (also given as masks) are passed on unchanged; the prebuilt constant_potential and force_* modifiers change only the orbital energies or only the type.",
     ["inputs"], "all argument selections, group sizes, orbital shapes, scalar types and memory layouts of results",
     "Tests return freshly made or in-place changed arrays; transposed, sliced or repeated arrays of multi-orbital models need particular functions.",
     ["pybinding/modifier.py", "pybinding/support/alias.py", "pybinding/support/inspect.py", "cppmodule/src/modifiers.cpp"],
     [("arguments", "_process_modifier_args, AliasIndex, SplitName"), ("results", "_sanitize_modifier_result"), ("decorators", "_make_modifier, _make_generator, decorator_decorator")],
     TRACE, "Every strided view of small arrays is checked exhaustively to be read correctly by the core; the Python code runs with a stand-in for the extension module which reads the result as raw memory, as the real one does.",
     observe=["_make_modifier", "_make_generator"])


prop("C22", "A parameter sweep puts each job's result at its own parameters",
     "Whatever the variables, fixed parameters and order of the job's signature, number of threads and order in which jobs finish: each combination of the variables is produced once with its own and the fixed parameters, and the result of the sweep has the value of each combination at its own place. "
     "What is saved and plotted meanwhile has exactly the finished results (others are zero or missing), is saved at least once per requested interval and at the end; hooks are called once first and once per finished job with the right count, the log tells the same. "
     "An error of a job is passed on and the output streams are restored.",
     ["schedules", "inputs"], "all schedules of the parallel loop, numbers of variables and values, positions of parameters and intervals of saving",
     "Tests look only at the end of two sweeps; results which are mixed up in a particular order of finishing or in intermediate files stay unnoticed.",
     ["pybinding/parallel.py", "pybinding/utils/progressbar.py", "pybinding/results.py"],
     [("sweeps", "ParallelFor, Factory, parallelize, sweep, ndsweep"), ("saves and log", "Config.make_save_set, DefaultStatus, ProgressBar")],
     TRACE, "The sweep over a parallel loop with the contract of C17 is checked exhaustively for up to 4 jobs, with liveness; the Python code runs with a stand-in for that loop under sampled schedules.",
     observe=["parallel_for", "sweep", "ndsweep"])


prop("C23", "Quantities derived from eigenstates belong to their own sites and levels",
     "For any number of orbitals per site and any order of solving, clearing, failing, changing the model or the wave vector, the Python eigensolver's levels (sorted), states, probabilities, local and total densities of states and bands are those of its present model, each at its own energy, wave vector, site and orbital, and it solves only when needed. "
     "Nothing depends on the basis which is found for degenerate levels: maps at a site add up its orbitals and share the probability in each degenerate group; data is summed over the orbitals of each site. "
     "Bands of leads are the levels of h0 + h1 exp(ik) + its conjugate, and a kwant system has the model's Hamiltonian, leads, positions and orbitals of each site.",
     ["inputs", "histories"], "all systems with groups of sites with different numbers of orbitals, all levels and states, and sequences of operations",
     "Tests use single-orbital graphene and compare stored results; rows of other sites or levels need models with several orbitals.",
     ["pybinding/solver.py", "pybinding/system.py", "pybinding/leads.py", "pybinding/support/kwant.py", "pybinding/results.py"],
     [("results of the solver", "Solver, _SolverPythonImpl, arpack, lapack"), ("orbitals", "System.reduce_orbitals, with_data, to_hamiltonian_indices"), ("leads", "Lead.calc_bands"), ("conversion", "KwantFiniteSystem")],
     TRACE, "Independence of the basis and the sum rules are checked exhaustively on small systems; the Python code runs on a stand-in for the core's system with given solutions or LAPACK on Hamiltonians which couple rows in pairs. Levels are integers and Gaussians are evaluated where they are powers of two.",
     observe=["Solver", "System.with_data", "Lead.calc_bands"])


prop("C24", "Combined and moved shapes cover the right points, reciprocal geometry is right",
     "A polygon, rectangle, regular polygon, circle or freeform shape covers exactly the points in it; combining shapes by and, or, xor, plus and minus combines the sets of points and moving a shape by a vector moves the set, in 1 to 3 dimensions, however operations are nested, and never changes the shapes they started from. "
     "The vertices of a shape always enclose the points it covers, and a line and its two ends move together. "
     "Reciprocal vectors are dual to the lattice vectors (times 2 pi), the Brillouin zone is the set of wave vectors closest to zero, with its corners in counterclockwise order, for any choice of primitive vectors; drawings of flat shapes show exactly the covered area or the outline.",
     ["inputs"], "all expressions of shapes and offsets in 1 to 3 dimensions and all lattice vectors",
     "Tests look at the silhouette of a few 2D shapes and the zones of three lattices; other dimensions, offsets and skewed vectors stay unseen.",
     ["pybinding/shape.py", "pybinding/lattice.py"],
     [("shapes", "_CompositionMixin, Polygon, FreeformShape, CompositeShape, Line, with_offset"), ("symmetry", "translational_symmetry"), ("reciprocal space", "Lattice.reciprocal_vectors, brillouin_zone")],
     TRACE, "That moving and combining commute and that bounds enclose is checked exhaustively on a small grid; the Python code runs on a stand-in for the core's shapes and lattice. Points on an edge are not decided; the core's own Line and Polygon are decided in C01.",
     observe=["CompositeShape", "with_offset", "brillouin_zone"])


prop("C25", "Plots show every site, hopping and value once and at its own place",
     "Plots of sites, hoppings, periodic systems, structure maps, leads and whole models show every site of every drawn translation unit exactly once and every connection between them, with the position, offset, axes, color, radius, order and names which belong to it, and show nothing else. "
     "Limiting what is drawn (some hoppings, number of periods, length of a lead) leaves the rest unchanged, and plotting never changes the data given to it. "
     "Plots of lattices (cell, neighbors, vectors, Brillouin zone), contacts of leads, eigenvalues, probabilities, bands, series, sweeps and their slices, paths in k-space and spatial maps show each name and value at its own coordinate, with the axes and marks which belong to it.",
     ["inputs"], "all structures, translations, numbers of periods, plot axes and options, and all results",
     "The tests compare images of a few graphene plots, which aren't run without the reference images; dependent translations, other axes, several options at once and the order of sites stay unseen.",
     ["pybinding/system.py", "pybinding/results.py", "pybinding/model.py", "pybinding/leads.py", "pybinding/pltutils.py", "pybinding/lattice.py"],
     [("structure", "plot_sites, plot_hoppings, plot_periodic_boundaries, System.plot"), ("lattice", "Lattice.plot, Lattice.plot_vectors, Lattice.plot_brillouin_zone, Lattice.site_radius_for_plot"), ("leads", "Lead.plot, Lead.plot_contact, Model.plot"), ("results", "StructureMap, Eigenvalues, Bands, Series, Sweep, Path")],
     TRACE, "That drawing the units level by level draws each unit and connection once is checked exhaustively for all sets of small translations. What a plot shows is what is handed to a stand-in for matplotlib; pixels are not decided.",
     observe=["plot_sites", "plot_hoppings", "plot_periodic_boundaries"])


prop("C26", "The Python KPM interface asks for what was meant and places every answer",
     "Creating KPM with any combination of options hands the model, energy range, kernel, number of threads and progress callback to the implementation as given or by default, and every calculation concerns the model which was set last. "
     "LDOS, spatial LDOS (for each shape and sublattice), DOS, Green's functions, moments and conductivity return the computed values with the energies, sites, orbitals and volume which belong to them, for one or several orbitals; the progress bar shows the part which is done and gives the output streams back at the end. "
     "The Python implementation computes exact Chebyshev moments and the LDOS at any site of real and complex models with energy bounds of the current model.",
     ["inputs", "histories"], "all options, models, energies, sites, shapes and operation sequences",
     "The tests compare two KPM implementations on one graphene sheet and aren't run without the extension module; other options, several orbitals, replaced models and sublattices stay unseen.",
     ["pybinding/chebyshev.py", "pybinding/utils/progressbar.py"],
     [("interface", "kpm, KPM, SpatialLDOS, _ComputeProgressReporter"), ("implementation", "_PythonImpl")],
     TRACE, "The core's KPM is a stand-in whose answers tell what was asked. The Python implementation is decided with integer matrices and energies where the series is exact.",
     state=[("model", "the model which was set last", "KPM.model"), ("bounds", "energy bounds of that model", "_PythonImpl._scaling_factors"), ("progress", "running, value and size of the progress bar", "_ComputeProgressReporter.pbar")], observe=["calc_ldos", "calc_spatial_ldos", "moments"])


prop("C27", "Prebuilt materials, shapes and modifiers are the documented physical systems",
     "Prebuilt graphene (one layer with up to third neighbors, other cells, AB-stacked bilayer with gamma3 and gamma4), phosphorene, dichalcogenides, chain and square lattices have exactly the bonds of their families, all pairs of atoms which are related alike and no bond twice, with the energies of the parameters; what is not known is refused. "
     "A graphene hexagon of any width is regular and has armchair edges on all sides. "
     "In a magnetic field the phases of the hoppings around any closed loop are the flux through it, and masses, Coulomb potentials, strained hoppings, triaxial strain, Gaussian bumps and Landau levels are those of their formulas at every point.",
     ["inputs"], "all options and parameters of the materials, widths, offsets, points, bonds and closed loops",
     "The tests compare a few lattices with stored ones and aren't run without the extension module; options, other widths, closed loops and points off the origin stay unseen.",
     ["pybinding/repository/graphene/lattice.py", "pybinding/repository/graphene/shape.py", "pybinding/repository/graphene/modifiers.py", "pybinding/repository/graphene/utils.py", "pybinding/repository/phosphorene.py", "pybinding/repository/group6_tmd.py", "pybinding/repository/examples.py"],
     [("lattices", "monolayer, monolayer_alt, monolayer_4atom, bilayer, monolayer_4band, monolayer_3band, chain_lattice, square_lattice"), ("shape", "hexagon_ac"), ("modifiers", "mass_term, coulomb_potential, constant_magnetic_field, strained_hopping, triaxial_strain, gaussian_bump, landau_level")],
     TRACE, "That a gauge gives the flux for every closed walk and that the hexagons have armchair edges is checked exhaustively within bounds. Dichalcogenide matrices are compared in integers p + q sqrt(3); only atoms with z = 0 are moved by a bump.",
     observe=["monolayer", "bilayer", "hexagon_ac", "constant_magnetic_field"])


prop("C28", "The progress display loses no output and tells the current progress",
     "While the progress display runs, every line printed to standard output or standard error appears exactly once and in order above the bar, on the screen and in the log file, whatever the order of updates, restarts and stops; once the display has ended, also by an exception, both streams are the original ones again. "
     "The bar is the last line on the screen and the first line of the log file, always filled to the given width; percentage, bar length, elapsed and remaining time are those of the last update since the start. "
     "Starting a running display again ends the old one, and the display can be used in a with statement.",
     ["histories"], "all sequences of starts, prints, updates, refreshes and stops, sizes and widths",
     "No test looks at the display; lost lines need output at particular moments, such as after the last update or when a display is started again.",
     ["pybinding/utils/progressbar.py"],
     [("display", "ProgressBar.start, update, refresh, stop, finish"), ("output", "StdCapture, StreamOutput, FileOutput"), ("widgets", "percentage, bar, elapsed, eta")],
     TRACE, "That no line is lost and the order is kept is checked exhaustively for three lines and two runs. The terminal is emulated and the clock is set by hand.",
     state=[("value", "steps done", "ProgressBar.value"), ("kept", "lines which are not shown yet", "StdCapture"), ("running", "the streams are captured", "ProgressBar.running")], observe=["update", "stop", "refresh"])


prop("C29", "Lattices and models get every part they are given, once and in order",
     "Model parts which are given one by one or in tuples, lists and iterators nested in any way all reach the core exactly once and in order; the first part which is None, unknown or refused ends the call with an error and leaves those in front of it added. "
     "A model's shape is the last one added, its modifiers are all which were added, its leads, system and maps refer to its own lattice. "
     "Sublattices, aliases, hoppings and named energies which are added to a lattice one by one or several at once are the same calls for the core, and with_offset and with_min_neighbors give independent copies.",
     ["inputs", "histories"], "all nested lists of parts, all sequences of calls on several lattices and models",
     "The tests use flat tuples of valid parts; errors in the middle of nested lists and changes of copied lattices stay unseen.",
     ["pybinding/model.py", "pybinding/lattice.py", "pybinding/leads.py", "pybinding/system.py"],
     [("model", "Model.add, Model.shape, Model.modifiers, Model.leads, Model.attach_lead, Model.onsite_map"), ("lattice", "Lattice.add_*, register_hopping_energies, with_offset, with_min_neighbors")],
     TRACE, "Nesting up to depth two is checked exhaustively for every mix of accepted and refused parts. The core is a stand-in which refuses what the real one does and writes down what it is given.",
     state=[("parts", "what the core has got", "Model.add"), ("calls", "what the core lattice has got", "Lattice.add_*")], observe=["Model.add", "Lattice.with_offset"])


def seed_table():
    """The planted bugs in DESIGN.md (each is caught by the check of its property)"""
    rows = ["| planted bug | check | needs | effect |", "|---|---|---|---|"]
    root = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(root)) if os.path.isdir(root) else []:
        m = json.load(open(os.path.join(root, name, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"], m["what_it_breaks"]))
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    a, b = text.index("<!-- seeds -->"), text.index("<!-- /seeds -->")
    if len(rows) > 2:
        open(path, "w").write(text[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + text[b:])


def main():
    extra = os.path.join(VERIF, "tools", "more_properties.py")
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, "exec"), globals())
    seed_table()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup_verif.py", "checks": CHECKS, "not_applicable": NOT,
         "notes": "TLA+ with TLC. One driver per subsystem is compiled from /repo's current sources; see DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

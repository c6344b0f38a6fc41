C = "cppcore/"

kpm_seed("S14-slices-last-index", "C13",
     [(C + "src/kpm/OptimizedHamiltonian.cpp", "auto const max_index = *std::max_element(begin(idx), end(idx));",
       "auto const max_index = idx[idx.size() - 1];")],
     r'''
int main() {
    auto const h = make_ham<double>(ring(24));
    ArrayXd const energy = ArrayXd::LinSpaced(7, -1.5, 1.5);
    auto fast = kpm::Core(h, kpm::DefaultCompute(1), config(-4, 4, kpm::MatrixFormat::CSR, true, false));
    auto basic = kpm::Core(h, kpm::DefaultCompute(1), config(-4, 4, kpm::MatrixFormat::CSR, false, false));
    auto const a = fast.greens_vector(3, {10, 4, 3}, energy, 0.7), b = basic.greens_vector(3, {10, 4, 3}, energy, 0.7);
    for (auto i = 0; i < 3; ++i) REQUIRE(close(a[i], b[i]));
}
''',
     "more than one destination, the last of which isn't the furthest from the source, and optimal size",
     "the slices are chosen for the last index instead of the furthest one, late moments miss a part of the system")

kpm_seed("S15-diagonal-only-for-positive-center", "C13",
     [(C + "src/kpm/OptimizedHamiltonian.cpp", "if (scale.b != 0 && !diagonal_inserted) {", "if (scale.b > 0 && !diagonal_inserted) {")],
     r'''
int main() {
    auto const h = make_ham<double>(ring(12)); // nothing on the diagonal
    ArrayXd const energy = ArrayXd::LinSpaced(7, -1.5, 1.5);
    for (auto shift : {-1.f, 1.f}) {
        auto fast = kpm::Core(h, kpm::DefaultCompute(1), config(-4 + shift, 4 + shift, kpm::MatrixFormat::ELL, true, true));
        auto basic = kpm::Core(h, kpm::DefaultCompute(1), config(-4 + shift, 4 + shift, kpm::MatrixFormat::CSR, false, false));
        REQUIRE(close(fast.greens(2, 2, energy, 0.5), basic.greens(2, 2, energy, 0.5)));
    }
}
''',
     "energy bounds with a negative center and a Hamiltonian with empty diagonal elements, with reordering",
     "the Hamiltonian isn't shifted where it has no diagonal element")

kpm_seed("S16-indices-same-number-of-destinations", "C14",
     [(C + "include/kpm/OptimizedHamiltonian.hpp", "&& l.dest.size() == r.dest.size() && (l.dest == r.dest).all();",
       "&& l.dest.size() == r.dest.size() && l.is_diagonal() == r.is_diagonal();")],
     r'''
int main() {
    auto const h = make_ham<double>(ring(12));
    ArrayXd const energy = ArrayXd::LinSpaced(7, -1.5, 1.5);
    auto const c = config(-4, 4, kpm::MatrixFormat::CSR, false, false);
    auto core = kpm::Core(h, kpm::DefaultCompute(1), c);
    core.greens(2, 3, energy, 0.5);
    auto const second = core.greens(2, 5, energy, 0.5);
    auto fresh = kpm::Core(h, kpm::DefaultCompute(1), c);
    REQUIRE(close(second, fresh.greens(2, 5, energy, 0.5)));
}
''',
     "two calculations after one another with the same source and as many, but different, destinations",
     "the second one gives the result of the first destinations")

kpm_seed("S17-bounds-kept-for-same-size", "C14",
     [(C + "src/kpm/Core.cpp", """    hamiltonian = h;
    optimized_hamiltonian = {h, config.matrix_format, config.algorithm.reorder()};
    bounds = reset_bounds(h, config);
""", """    auto const same_size = hamiltonian.rows() == h.rows() && hamiltonian.non_zeros() == h.non_zeros();
    hamiltonian = h;
    optimized_hamiltonian = {h, config.matrix_format, config.algorithm.reorder()};
    if (!same_size) { bounds = reset_bounds(h, config); }
""")],
     r'''
int main() {
    auto const h1 = make_ham<double>(ring(24, 1)), h2 = make_ham<double>(ring(24, 3) * 2.0);
    ArrayXd const energy = ArrayXd::LinSpaced(7, 5, 6);
    auto core = kpm::Core(h1, kpm::DefaultCompute(1));
    core.ldos({1}, energy - 4, 0.3);
    core.set_hamiltonian(h2);
    auto fresh = kpm::Core(h2, kpm::DefaultCompute(1));
    auto const a = core.ldos({1}, energy, 0.3), b = fresh.ldos({1}, energy, 0.3);
    REQUIRE(a.rows() == b.rows() && close(a.cast<std::complex<double>>(), b.cast<std::complex<double>>()));
}
''',
     "automatic bounds, a calculation, then a new Hamiltonian with the same number of elements and a different spectrum",
     "the bounds of the previous Hamiltonian scale the new one")

kpm_seed("S18-batch-padding-counted", "C15",
     [(C + "src/kpm/Moments.cpp", "auto cols = remaining > batch_size ? batch_size : remaining;",
       "auto cols = remaining > 0 ? batch_size : remaining;")],
     r'''
int main() {
    auto const h = make_ham<float>(MatrixXf::Identity(16, 16) * 0.25f);
    ArrayXd const energy = ArrayXd::LinSpaced(7, -1.5, 1.5);
    // the average over any number of random vectors, because all of them give the same
    auto one = kpm::Core(h, kpm::DefaultCompute(1), config(-4, 4, kpm::MatrixFormat::CSR, false, false));
    auto const a = one.dos(energy, 0.5, 1);
    for (auto n : {2, 3, 4, 5, 6, 7, 8}) {
        auto many = kpm::Core(h, kpm::DefaultCompute(1), config(-4, 4, kpm::MatrixFormat::CSR, false, false));
        auto const b = many.dos(energy, 0.5, n);
        REQUIRE(((a - b).abs() < 1e-3 * a.abs().maxCoeff()).all());
    }
}
''',
     "vectorized code and a number of random vectors which is not a multiple of the batch, with few threads",
     "the vectors which only fill up the last batch are added to the average as well", simd=1)

kpm_seed("S19-operator-after-reordering", "C15",
     [(C + "src/kpm/Starter.cpp", """        if (op) { r0 = op.get<std::complex<real_t>>() * r0; }

        oh.reorder(r0);
        return r0;""", """        oh.reorder(r0);
        if (op) { r0 = op.get<std::complex<real_t>>() * r0; }

        return r0;""")],
     r'''
int main() {
    MatrixXcd m = ring(15).cast<std::complex<double>>();
    for (auto i = 0; i < 15; i += 2) { auto const j = (i + 4) % 15; m(i, j) = {0, 0.5}; m(j, i) = {0, -0.5}; }
    auto const h = make_ham<std::complex<double>>(m);
    ArrayXf x(15), y(15);
    for (auto i = 0; i < 15; ++i) { x[i] = static_cast<float>(i); y[i] = static_cast<float>((i * 7) % 5); }
    ArrayXd const mu = ArrayXd::LinSpaced(5, -1.5, 1.5);
    auto fast = kpm::Core(h, kpm::DefaultCompute(1), config(-6, 6, kpm::MatrixFormat::CSR, true, true));
    auto basic = kpm::Core(h, kpm::DefaultCompute(1), config(-6, 6, kpm::MatrixFormat::CSR, false, false));
    REQUIRE(close(fast.conductivity(x, y, mu, 0.8, 300, 3, 50), basic.conductivity(x, y, mu, 0.8, 300, 3, 50)));
}
''',
     "the conductivity of a complex Hamiltonian with an algorithm which reorders it",
     "the velocity operator is applied to the reordered starter without being reordered")

kpm_seed("S20-expanded-positions-first-orbital", "C16",
     [(C + "src/system/System.cpp", "ep.y.segment(n, norb).setConstant(positions.y[i]);", "ep.y.segment(n, norb).setConstant(positions.y[n / norb]);")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_sublattice("B", {0.25f, 0.5f, 0}, MatrixXcd::Zero(2, 2).eval());
    auto t = MatrixXcd(1, 2); t << 1.0, 0.5;
    lattice.add_hopping({0, 0, 0}, "A", "B", t);
    lattice.add_hopping({1, 0, 0}, "A", "A", MatrixXcd::Constant(1, 1, 0.5));
    lattice.add_hopping({0, 1, 0}, "A", "A", MatrixXcd::Constant(1, 1, 0.75));
    auto const model = Model(lattice, Primitive(3, 3));
    auto const p = model.system()->expanded_positions();
    auto const& s = *model.system();
    for (auto i = 0; i < s.num_sites(); ++i) {
        auto const idx = s.to_hamiltonian_indices(i);
        for (auto k = 0; k < idx.size(); ++k) {
            REQUIRE(p.x[idx[k]] == s.positions.x[i] && p.y[idx[k]] == s.positions.y[i]);
        }
    }
}
''',
     "a model whose sublattices have different numbers of orbitals, in the y direction",
     "the y positions of the orbitals are those of other sites, and with them the conductivity")

C = "cppcore/"

seed("S01-hopping-buffer-chunks", "C08",
     [(C + "include/hamiltonian/HamiltonianModifiers.hpp",
       """            buffer.reset_hoppings(size);
""",
       """            if (size != last_size) { // the buffer already holds the right number of values
                buffer.reset_hoppings(size);
                last_size = size;
            }
"""),
      (C + "include/hamiltonian/HamiltonianModifiers.hpp",
       """        auto buffer = HoppingBuffer<scalar_t>(hopping_energy, block.size());
""",
       """        auto buffer = HoppingBuffer<scalar_t>(hopping_energy, block.size());
        auto last_size = idx_t{-1};
""")],
     r'''
int main() {
    auto const n = 100; // large matrices: only ten hoppings fit into the buffer
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0}, Eigen::VectorXd(Eigen::VectorXd::Zero(n)));
    MatrixXcd t = MatrixXcd::Zero(n, n);
    t(0, 0) = 1;
    lattice.add_hopping({1, 0, 0}, "A", "A", t);
    Model model(lattice);
    model.add(Primitive(41));
    model.add(HoppingModifier([](ComplexArrayRef e, CartesianArrayConstRef, CartesianArrayConstRef, string_view) {
        auto p = static_cast<float*>(e.data);
        auto total = idx_t{1};
        for (auto i = 0; i < e.ndim; ++i) total *= e.shape[i];
        for (auto i = 0; i < total; ++i) p[i] *= 2;
    }));
    auto const h = dense(model.hamiltonian());
    for (auto i = 0; i < 40; ++i) REQUIRE(std::abs(h(i * n, (i + 1) * n) - 2.0) < 1e-6);
}
''',
     "more hoppings in a family than fit into the buffer (at least two full chunks) and a hopping modifier",
     "from the second chunk on the modifiers are applied to values which have already been modified")

seed("S02-onsite-transposed", "C04",
     [(C + "include/hamiltonian/HamiltonianModifiers.hpp",
       """        for (auto i = idx_t{0}; i < norb; ++i) {
            for (auto j = idx_t{0}; j < norb; ++j) {
                for (auto idx = sub.ham_start()""",
       """        for (auto j = idx_t{0}; j < norb; ++j) {
            for (auto i = idx_t{0}; i < norb; ++i) {
                for (auto idx = sub.ham_start()""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    MatrixXcd e(2, 2);
    e << 1, std::complex<double>(2, 3), std::complex<double>(2, -3), 4;
    lattice.add_sublattice("A", {0, 0, 0}, e);
    Model model(lattice);
    model.add(Primitive(2));
    auto const h = dense(model.hamiltonian());
    REQUIRE(std::abs(h(0, 1) - std::complex<double>(2, 3)) < 1e-6);
    REQUIRE(std::abs(h(3, 2) - std::complex<double>(2, -3)) < 1e-6);
}
''',
     "several orbitals with a complex onsite energy between them", "the onsite matrix is transposed (conjugated)")

seed("S05-wave-vector-keeps-leads", "C09",
     [(C + "src/Model.cpp", """    hamiltonian_modifiers.hopping.push_back(m);
    clear_hamiltonian();""", """    hamiltonian_modifiers.hopping.push_back(m);
    _hamiltonian.reset();""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    lattice.add_hopping({0, 1, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(3, 3));
    model.attach_lead(1, Line({0, -1.5f, 0}, {0, 1.5f, 0}));
    model.eval();
    model.add(HoppingModifier([](ComplexArrayRef e, CartesianArrayConstRef, CartesianArrayConstRef, string_view) {
        auto p = static_cast<float*>(e.data);
        for (auto i = 0; i < e.shape[0]; ++i) p[i] *= 2;
    }));
    auto const h1 = dense(model.leads()[0].h1());
    auto const h = dense(model.hamiltonian());
    REQUIRE(std::abs(h.cwiseAbs().maxCoeff() - 2) < 1e-6);
    REQUIRE(std::abs(h1.cwiseAbs().maxCoeff() - 2) < 1e-6);
}
''',
     "the leads were evaluated before a hopping modifier is added", "the lead Hamiltonians are stale")

seed("S06-find-nearest-plane", "C11",
     [(C + "src/system/System.cpp", "        auto const distance = (positions[i] - target_position).norm();",
       "        auto const distance = Cartesian(positions[i] - target_position).head<2>().norm();")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0}, {0, 0, 1});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_sublattice("B", {0.5f, 0.5f, 0.5f});
    Model model(lattice);
    model.add(Primitive(3, 3, 3));
    auto const sys = model.system();
    for (auto i = 0; i < sys->num_sites(); ++i) REQUIRE(sys->find_nearest(sys->positions[i]) == i);
}
''',
     "a three-dimensional system", "distances are only measured in the plane")

seed("S07-validate-some-values", "C12",
     [(C + "include/hamiltonian/Hamiltonian.hpp", "(m.valuePtr(), m.nonZeros());", "(m.valuePtr(), m.rows());")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0}, 1.0);
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(10));
    model.add(OnsiteModifier([](ComplexArrayRef e, CartesianArrayConstRef, string_view) {
        static_cast<float*>(e.data)[e.shape[0] - 1] = NAN; }));
    bool thrown = false;
    try { model.hamiltonian(); } catch (std::runtime_error const&) { thrown = true; }
    REQUIRE(thrown);
}
''',
     "a NaN near the end of the matrix", "NaN and infinity are not reported if they are not in the first elements")

seed("S10-lead-position-sign", "C10",
     [(C + "src/leads/Structure.cpp", "    auto const shift = Cartesian(static_cast<float>(lead.sign) * lattice.vector(lead.axis));",
       "    auto const shift = Cartesian(foundation.get_spatial_size()[lead.axis] > 1\n"
       "                                 ? static_cast<float>(lead.sign) * lattice.vector(lead.axis)\n"
       "                                 : lattice.vector(lead.axis));")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    lattice.add_hopping({0, 1, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(1, 3));
    model.attach_lead(-1, Line({0, -1.5f, 0}, {0, 1.5f, 0}));
    auto const lead = model.leads()[0];
    REQUIRE(lead.system().num_sites() == 3);
    for (auto i = 0; i < 3; ++i) REQUIRE(std::abs(lead.system().positions.x[i] + 1) < 1e-6);
}
''',
     "a lead against the direction of the lattice vector on a structure which is one cell wide",
     "the lead's unit cell is placed on the wrong side")

seed("S11-periodic-self-hopping", "C05",
     [(C + "include/hamiltonian/Hamiltonian.hpp", "            matrix.coeffRef(j, i) += num::conjugate(hopping * phase);",
       "            if (i != j || phase == scalar_t{1}) { matrix.coeffRef(j, i) += num::conjugate(hopping * phase); }")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(1));
    model.add(TranslationalSymmetry(1));
    for (auto k : {0.0f, 0.3f, 1.0f, 2.0f}) {
        model.set_wave_vector({k, 0, 0});
        REQUIRE(std::abs(dense(model.hamiltonian())(0, 0) - 2.0 * std::cos(k)) < 1e-5);
    }
}
''',
     "a site which is connected to its own image, with a wave vector which is not zero",
     "the conjugate of the boundary term is lost")

seed("S13-find-boundary-hop", "C03",
     [(C + "src/Lattice.cpp", "sites[idx2].hoppings.push_back({-term.relative_index, idx1, id, /*is_conjugate*/true });",
       "if (idx1 != idx2 || term.relative_index.prod() == 0) {\n"
       "            sites[idx2].hoppings.push_back({-term.relative_index, idx1, id, /*is_conjugate*/true });\n"
       "        } else { // the conjugate of a hopping within a sublattice is equivalent\n"
       "            sites[idx2].hoppings.push_back({term.relative_index, idx1, id, /*is_conjugate*/true });\n"
       "        }")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0}, {0, 0, 1});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 1, 1}, "A", "A", 1.0);
    for (auto const& site : lattice.optimized_unit_cell()) {
        REQUIRE(site.hoppings.size() == 2);
        REQUIRE(site.hoppings[0].relative_index == -site.hoppings[1].relative_index);
    }
    lattice.set_min_neighbors(1);
    Model model(lattice);
    model.add(FreeformShape([](CartesianArrayConstRef p) -> ArrayX<bool> {
        ArrayX<bool> r(p.size());
        for (auto i = 0; i < p.size(); ++i)
            r[i] = (p.x()[i] == p.y()[i]) && (p.y()[i] == p.z()[i]) && std::abs(p.x()[i]) < 1.5f;
        return r; }, {3, 3, 3}));
    REQUIRE(model.system()->num_sites() == 3);
}
''',
     "a space-diagonal hopping within a sublattice of a 3D lattice and a minimum number of neighbors",
     "the conjugate hopping points to the same side, sites are taken for dangling")

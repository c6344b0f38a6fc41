C = "cppcore/"

seed("S03-edge-count-plane", "C06",
     [(C + "src/system/Foundation.cpp", """            if ((index < 0).any() || (index >= spatial_size).any()) {
                num_neighbors -= 1;""", """            if ((index < 0).any() || (index.head<2>() >= spatial_size.head<2>()).any()) {
                num_neighbors -= 1;""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0}, {0, 0, 1});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({0, 0, 1}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(1, 1, 4)); // a column: z = -2, -1, 0, 1
    model.add(SiteStateModifier([](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
        for (auto i = 0; i < state.size(); ++i) if (std::abs(p.z()[i]) < 0.1f) state[i] = false;
    }, 1));
    // the site at z = 1 has lost its only neighbor
    REQUIRE(model.system()->num_sites() == 2);
}
''',
     "a 3D structure with sites in the topmost layer of cells and a state modifier with a minimum number of neighbors",
     "neighbors above the top of the structure are counted, dangling sites stay")

seed("S04-site-generator-before-removal", "C07",
     [(C + "src/system/StructureModifiers.cpp", """    detail::remove_invalid(s);

    auto const new_positions = g.make(s);
    auto const norb""", """    auto const new_positions = g.make(s);
    detail::remove_invalid(s);

    auto const norb""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    Model model(lattice);
    model.add(Primitive(6));
    auto make = [](System const& s) { CartesianArray p(s.num_sites());
        for (auto i = 0; i < s.num_sites(); ++i) p[i] = Cartesian(s.positions[i] + Cartesian(0, 1, 0));
        return p; };
    model.add(SiteGenerator("B", MatrixXcd::Constant(1, 1, 0.0), make));
    model.add(SiteStateModifier([](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
        for (auto i = 0; i < state.size(); ++i) if (p.x()[i] < 0) state[i] = false; }));
    model.add(SiteGenerator("C", MatrixXcd::Constant(1, 1, 0.0), make));
    auto const sys = model.system();
    for (auto i = 0; i < sys->num_sites(); ++i) REQUIRE(sys->positions.x[i] >= 0);
}
''',
     "a site state modifier between two site generators", "the second generator still sees the removed sites")

seed("S08-polygon-shallow-side", "C02",
     [(C + "src/system/Shape.cpp", """        if (num::approx_equal(y1, y2)) {
            continue;""", """        if (std::abs(y2 - y1) < 0.1f * std::abs(x2 - x1)) {
            continue;""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    Model model(lattice);
    // the longest side has a slope of 1/20
    model.add(Polygon({{-10.5f, -0.75f, 0}, {9.5f, 0.25f, 0}, {-10.5f, 5.25f, 0}}));
    auto const sys = model.system();
    auto count = 0;
    for (auto x = -10; x <= 9; ++x) for (auto y = -1; y <= 5; ++y) {
        auto const low = -0.75f + (x + 10.5f) / 20, high = 5.25f - (x + 10.5f) / 4;
        if (y > low && y < high) ++count;
    }
    REQUIRE(sys->num_sites() == count);
}
''',
     "a polygon with a side which is almost but not quite horizontal", "sites on the other side of the side are swapped in and out")

seed("S09-duplicate-in-other-family", "C01",
     [(C + "src/Lattice.cpp", """    for_each_term(hoppings, [&](HoppingFamily const&, HoppingTerm const& existing) {
        if (candidate == existing) {
            throw std::logic_error("The specified hopping already exists.");
        }
    });
""", """    for_each_term(hoppings, [&](HoppingFamily const& family, HoppingTerm const& existing) {
        // the orientation has no meaning for a matrix which isn't square
        if (candidate == existing && family.energy.cols() == hop_matrix.cols()) {
            throw std::logic_error("The specified hopping already exists.");
        }
    });
""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0}, Eigen::VectorXd(Eigen::VectorXd::Zero(2)));
    lattice.add_sublattice("B", {0.5f, 0, 0});
    lattice.add_hopping({0, 0, 0}, "A", "B", MatrixXcd::Constant(2, 1, 1.0));
    bool rejected = false;
    try { lattice.add_hopping({0, 0, 0}, "B", "A", MatrixXcd::Constant(1, 2, 1.0)); }
    catch (std::logic_error const&) { rejected = true; }
    REQUIRE(rejected);
}
''',
     "the conjugate of an existing hopping between sublattices with a different number of orbitals",
     "a contradictory hopping term is accepted")

seed("S12-append-duplicates", "C07",
     [(C + "src/system/HoppingBlocks.cpp", """    // Each hopping must be unique
    std::sort(block.begin(), block.end());
""", """    // Each hopping must be unique
    if (is_hermitian) { std::sort(block.begin(), block.end()); }
""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    Model model(lattice);
    model.add(Primitive(3));
    model.add(HoppingGenerator("t", MatrixXcd::Constant(1, 1, std::complex<double>(0, 1)), [&](System const& s) {
        HoppingGenerator::Result r{ArrayXi::Zero(3), ArrayXi::Zero(3)};
        r.from << 0, 1, 0; r.to << 2, 2, 2;
        return r; }));
    REQUIRE(model.system()->hopping_blocks.nnz() == 2);
}
''',
     "a generator with a complex energy which names the same hopping twice, with another one in between",
     "the hopping is counted twice in the Hamiltonian")

seed("S79-phase-conjugate-once", "C05",
     [(C + "include/hamiltonian/Hamiltonian.hpp", """            matrix.coeffRef(j, i) += num::conjugate(hopping * phase);
""", """            matrix.coeffRef(j, i) += (i == j) ? num::conjugate(hopping * phase) : num::conjugate(hopping) * num::conjugate(phase)
                                     * (d.z() != 0 ? phase * phase : num::force_cast<scalar_t>(std::complex<double>(1.0)));
""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0}, {0, 0, 1});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_sublattice("B", {0, 0, 0.5f});
    lattice.add_hopping({0, 0, 0}, "A", "B", 1.0);
    lattice.add_hopping({0, 0, 1}, "B", "A", 2.0);
    Model model(lattice);
    model.add(TranslationalSymmetry(1, 1, 1));
    model.set_wave_vector({0, 0, 1.0f});
    auto const& m = ham::get_reference<std::complex<float>>(model.hamiltonian());
    REQUIRE(std::abs(m.coeff(0, 1) - std::conj(m.coeff(1, 0))) < 1e-5f);
}
''',
     "a 3D periodic lattice, a hopping between different sites across the third direction and a wave vector where the phase isn't real",
     "the two halves of the Hamiltonian disagree about the phase")

seed("S80-wave-vector-nearby", "C09",
     [(C + "src/Model.cpp", """    if (wave_vector != new_wave_vector) {
""", """    if (!wave_vector.isApprox(new_wave_vector, 0.05f)) {
""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    auto energy = [&](std::vector<float> ks) {
        Model model(lattice);
        model.add(TranslationalSymmetry(1));
        auto e = 0.0f;
        for (auto k : ks) {
            model.set_wave_vector({k, 0, 0});
            e = std::real(ham::get_reference<std::complex<float>>(model.hamiltonian()).coeff(0, 0));
        }
        return e;
    };
    REQUIRE(std::abs(energy({1.55f}) - energy({1.5f, 1.55f})) < 1e-4f);
}
''',
     "two successive wave vectors which are close to each other", "a small step of the wave vector is ignored")

seed("S81-nearly-equal-hoppings", "C01",
     [(C + "src/Lattice.cpp", """            return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
""", """            return e.rows() == energy.rows() && e.cols() == energy.cols() && e.isApprox(energy, 1e-4);
""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 100000.0);
    lattice.add_hopping({2, 0, 0}, "A", "A", 100001.0);
    REQUIRE(lattice.get_hoppings().size() == 2);
}
''',
     "two anonymous hoppings with large energies which differ by very little", "the second gets the energy of the first")

seed("S82-lead-section-at-start", "C10",
     [(C + "src/leads/Spec.cpp", """    auto const slice = foundation[si3d];
    is_valid = spec.shape""", """    if (spec.axis == 1 && spec.shape.vertices.size() == 2) {
        si3d[spec.axis] = std::min(si.start, last);
    }
    auto const slice = foundation[si3d];
    is_valid = spec.shape""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    lattice.add_hopping({0, 1, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(11, 11)); // -5 ... 5
    // rises by 4 over a width of 2
    model.attach_lead(2, Line({-1.2f, -2.2f, 0}, {1.2f, 2.2f, 0}));
    auto const leads = model.leads();
    auto const& sys = leads[0].system();
    auto x = 0.0f;
    for (auto i = 0; i < sys.num_sites(); ++i) x += sys.positions.x[i] / static_cast<float>(sys.num_sites());
    REQUIRE(std::abs(x) < 1.1f);
}
''',
     "a lead along the second direction with the shape of an inclined line", "the lead is attached at the wrong place")

seed("S83-complex-override-family", "C12",
     [(C + "src/Model.cpp", """            complex_override = true;
        }
    }

    if (!is_double()) {""", """            complex_override = true;
            if (!structure_modifiers.empty() && is_double()) {
                return ham::make<std::complex<float>>(built_system, lattice, modifiers, k, simple_build);
            }
        }
    }

    if (!is_double()) {""")],
     r'''
int main() {
    Lattice lattice({1, 0, 0});
    lattice.add_sublattice("A", {0, 0, 0});
    lattice.add_hopping({1, 0, 0}, "A", "A", 1.0);
    Model model(lattice);
    model.add(Primitive(4));
    model.add(SiteStateModifier([](Eigen::Ref<ArrayX<bool>>, CartesianArrayConstRef, string_view) {}));
    model.add(HoppingModifier([](ComplexArrayRef energy, CartesianArrayConstRef, CartesianArrayConstRef, string_view) {
        if (energy.tag != num::Tag::cf32 && energy.tag != num::Tag::cf64) { throw ComplexOverride(); } }, false, true));
    REQUIRE(ham::is<std::complex<double>>(model.hamiltonian()));
}
''',
     "a double precision modifier which turns out to be complex only when it is called, in a model with a structure modifier",
     "the Hamiltonian loses its double precision")

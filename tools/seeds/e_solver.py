SOLVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include "solver/Solver.hpp"
using namespace cpb;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
struct Cfg {};
static int fail_next = 0;
// the first column of the Hamiltonian is its only "eigenvector"
template<class T> class Fake : public SolverStrategy {
public:
    using Config = Cfg;
    Fake(SparseMatrixRC<T> h, Cfg const&) : h(h) {}
    bool change_hamiltonian(Hamiltonian const& o) override {
        if (!ham::is<T>(o)) return false;
        h = ham::get_shared_ptr<T>(o); return true;
    }
    void solve() override {
        if (fail_next) { fail_next = 0; throw std::runtime_error("not converged"); }
        auto const d = MatrixX<T>(*h);
        values = d.diagonal().real().array().head(1);
        vectors = d.array().leftCols(1);
    }
    std::string report(bool) const override { return ""; }
    RealArrayConstRef eigenvalues() const override { return arrayref(values); }
    ComplexArrayConstRef eigenvectors() const override { return arrayref(vectors); }
    SparseMatrixRC<T> h;
    ArrayX<num::get_real_t<T>> values;
    ColMajorArrayXX<T> vectors;
};
inline Model chain(double onsite, std::complex<double> hop) {
    auto lattice = Lattice({1, 0, 0}, {0, 1, 0});
    lattice.add_sublattice("A", {0, 0, 0}, onsite);
    lattice.register_hopping_energy("t", hop);
    lattice.add_hopping({1, 0, 0}, "A", "A", "t");
    return Model(lattice, Primitive(3, 1));
}
struct First { template<class A> double operator()(A const& a) const { return std::real(a(0, 0)); } };
'''
F = "cppcore/src/solver/Solver.cpp"
seed("S27-failed-solve-counts-as-solved", "C18",
     [(F, """    calculation_timer.tic();
    strategy->solve();
    calculation_timer.toc();

    is_solved = true;
""", """    is_solved = true;

    calculation_timer.tic();
    strategy->solve();
    calculation_timer.toc();
""")],
     SOLVER + r'''
int main() {
    auto solver = Solver<Fake>(chain(1, -1));
    REQUIRE((num::match<ArrayX>(solver.eigenvalues(), First{})) == 1);
    solver.set_model(chain(2, -1));
    fail_next = 1;
    try { solver.solve(); } catch (std::exception const&) {}
    REQUIRE((num::match<ArrayX>(solver.eigenvalues(), First{})) == 2);
}
''', "a computation which fails, and a query after that",
     "the results of an earlier model are returned for the present one")
seed("S28-eigenvectors-of-last-solve", "C18",
     [(F, """    solve();
    return strategy->eigenvectors();
""", """    if (strategy->eigenvectors().size() == 0) { solve(); }
    return strategy->eigenvectors();
""")],
     SOLVER + r'''
int main() {
    auto solver = Solver<Fake>(chain(1, -1));
    REQUIRE((num::match<ColMajorArrayXX>(solver.eigenvectors(), First{})) == 1);
    solver.set_model(chain(2, -1));
    REQUIRE((num::match<ColMajorArrayXX>(solver.eigenvectors(), First{})) == 2);
}
''', "a new model of the same scalar type and a query for the eigenvectors before the eigenvalues",
     "the eigenvectors of the previous model are returned")
seed("S29-ldos-real-part", "C18",
     [(F, "ArrayX<scalar_t> psi2 = psi.row(i).abs2();", "ArrayX<scalar_t> psi2 = psi.row(i).real().square();")],
     SOLVER + r'''
int main() {
    auto const b = 0.1f;
    auto solver = Solver<Fake>(chain(1, {0, 2}));
    auto const ldos = solver.calc_spatial_ldos(1, b);
    auto const unit = 1 / (b * std::sqrt(2 * 3.14159265));
    REQUIRE(std::abs(ldos[0] / unit - 1) < 1e-3);
    REQUIRE(std::abs(ldos[1] / unit - 4) < 1e-3 || std::abs(ldos[2] / unit - 4) < 1e-3);
}
''', "complex wave functions", "the local density of states leaves out the imaginary parts")

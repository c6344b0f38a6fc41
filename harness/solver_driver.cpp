// Drives the solver interface with a strategy whose "results" say which Hamiltonian they belong to:
// the eigenvalues are the first elements of the diagonal, the eigenvectors the first columns of the matrix.
#include "solver/Solver.hpp"
#include "model_common.hpp"

using namespace cpb;
using cd = std::complex<double>;

namespace {

struct Counters {
    int solves = 0, failed = 0, fail_next = 0, fail_create = 0;
    std::string type; ///< of the strategy which has solved last
};
Counters counters;

template<class T> char const* type_name();
template<> char const* type_name<float>() { return "f"; }
template<> char const* type_name<double>() { return "d"; }
template<> char const* type_name<std::complex<float>>() { return "cf"; }
template<> char const* type_name<std::complex<double>>() { return "cd"; }

struct FakeConfig { int pairs4 = 3; /* quarters of all eigenpairs */ };

template<class T>
class Fake : public SolverStrategy {
    using real_t = num::get_real_t<T>;

public:
    using Config = FakeConfig;
    explicit Fake(SparseMatrixRC<T> h, Config const& c = {}) : h(std::move(h)), config(c) {
        if (counters.fail_create > 0) { --counters.fail_create; throw std::runtime_error("strategy refused"); }
    }

    bool change_hamiltonian(Hamiltonian const& other) override {
        if (!ham::is<T>(other)) { return false; }
        h = ham::get_shared_ptr<T>(other);
        return true;
    }
    void solve() override {
        if (counters.fail_next > 0) { --counters.fail_next; ++counters.failed; throw std::runtime_error("not converged"); }
        auto const n = h->rows(), k = (config.pairs4 * n + 3) / 4;
        auto const dense = MatrixX<T>(*h);
        values = dense.diagonal().real().array().head(k);
        vectors = dense.array().leftCols(k);
        ++counters.solves;
        counters.type = type_name<T>();
    }
    std::string report(bool) const override { return "fake"; }
    RealArrayConstRef eigenvalues() const override { return arrayref(values); }
    ComplexArrayConstRef eigenvectors() const override { return arrayref(vectors); }

private:
    SparseMatrixRC<T> h;
    Config config;
    ArrayX<real_t> values;
    ColMajorArrayXX<T> vectors;
};

struct Values {
    template<class A> json operator()(A const& a) const {
        auto j = json::array();
        for (idx_t i = 0; i < a.size(); ++i) { j.push_back(drv::to_int(static_cast<double>(a[i]))); }
        return j;
    }
};
struct Vectors {
    template<class A> json operator()(A const& a) const {
        auto j = json::array();
        for (idx_t r = 0; r < a.rows(); ++r) {
            auto row = json::array();
            for (idx_t c = 0; c < a.cols(); ++c) {
                auto const v = cd(a(r, c));
                row.push_back({drv::to_int(v.real()), drv::to_int(v.imag())});
            }
            j.push_back(row);
        }
        return j;
    }
};
struct UpperTriangle {
    template<class T>
    json operator()(SparseMatrixRC<T> const& m) const {
        auto j = json::array();
        for (auto r = 0; r < m->outerSize(); ++r) {
            for (typename SparseMatrixX<T>::InnerIterator it(*m, r); it; ++it) {
                auto const v = cd(it.value());
                if (it.col() < it.row() || v == 0.0) { continue; }
                j.push_back({it.row(), it.col(), drv::to_int(v.real()), drv::to_int(v.imag())});
            }
        }
        return j;
    }
};
struct TypeName {
    template<class T> json operator()(SparseMatrixRC<T> const&) const { return type_name<T>(); }
};
json model_obs(Model const& model) {
    auto const& h = model.hamiltonian();
    return {{"n", h.rows()}, {"h", h.get_variant().match(UpperTriangle{})}, {"type", h.get_variant().match(TypeName{})},
            {"sites", model.system()->num_sites()}};
}

float const BROADENING = 1.0f / 16;
/// The energy at which a level at `e` still has the weight 1 / 2^k (on the side of the sign of k)
float target(json const& t) {
    auto const k = t.at(1).get<int>();
    return static_cast<float>(t.at(0).get<double>()
                              + (k < 0 ? -1 : 1) * BROADENING * std::sqrt(2 * std::abs(k) * std::log(2.0)));
}
json weights(ArrayXd const& a) {
    auto j = json::array();
    for (idx_t i = 0; i < a.size(); ++i) {
        j.push_back(drv::to_int(64 * a[i] * BROADENING * std::sqrt(2 * constant::pi), 0.2));
    }
    return j;
}

struct World {
    drv::Interp interp;
    std::unique_ptr<BaseSolver> solver;
};

/// An model: "", or "outside" if its construction has failed
std::string make_model(World& w, json const& o) {
    for (auto const& b : o.at("build")) {
        try {
            w.interp.exec(b);
        } catch (std::exception const& e) {
            if (std::string(e.what()).find("driver:") == 0) { throw; }
            return "outside";
        }
    }
    return "";
}

json run_op(World& w, json const& o) {
    auto const op = o.at("op").get<std::string>();
    auto obs = json::object();
    if (op == "solver" || op == "set_model") {
        w.interp = drv::Interp{};
        auto const bad = make_model(w, o);
        obs["bad"] = bad;
        if (!bad.empty()) { return obs; }
        if (!o.value("evaluated", false)) {
            // the model is evaluated by the solver: a second one says what is to be expected
            auto copy = World{};
            make_model(copy, o);
            try { obs["model"] = model_obs(copy.interp.model()); } catch (std::exception const&) { obs["bad"] = "invalid"; }
        } else {
            try { obs["model"] = model_obs(w.interp.model()); } catch (std::exception const&) { obs["bad"] = "invalid"; }
        }
        counters.fail_create = o.value("refuse", 0);
        obs["rejected"] = false;
        try {
            if (op == "solver") { w.solver.reset(new Solver<Fake>(w.interp.model())); }
            else if (w.solver) { w.solver->set_model(w.interp.model()); }
        } catch (std::exception const&) { obs["rejected"] = true; }
        obs["refused"] = o.value("refuse", 0) > counters.fail_create;
        counters.fail_create = 0;
        if (!w.solver) { obs["none"] = true; }
        return obs;
    }
    if (op == "mutate") { obs["bad"] = make_model(w, o); return obs; }
    if (op == "fail") { counters.fail_next = o.at("times"); return obs; }
    if (!w.solver) { throw std::runtime_error("no solver"); }
    auto& s = *w.solver;
    auto const before = counters;
    auto failed = false;
    try {
        if (op == "solve") { s.solve(); }
        else if (op == "clear") { s.clear(); }
        else if (op == "values") { obs["values"] = num::match<ArrayX>(s.eigenvalues(), Values{}); }
        else if (op == "vectors") { obs["vectors"] = num::match<ColMajorArrayXX>(s.eigenvectors(), Vectors{}); }
        else if (op == "dos") {
            auto e = ArrayXf(static_cast<idx_t>(o.at("at").size()));
            for (idx_t i = 0; i < e.size(); ++i) { e[i] = target(o.at("at")[static_cast<std::size_t>(i)]); }
            obs["dos"] = weights(s.calc_dos(e, BROADENING));
        } else if (op == "ldos") {
            obs["ldos"] = weights(s.calc_spatial_ldos(target(o.at("at").at(0)), BROADENING));
        } else if (op == "report") {
            obs["report"] = !s.report(o.at("short")).empty();
        } else if (op == "look") {
            obs["model"] = model_obs(s.get_model());
            obs["sites"] = s.system()->num_sites();
        } else { throw std::runtime_error("driver: unknown op " + op); }
    } catch (std::exception const& e) {
        if (std::string(e.what()) != "not converged") { throw; }
        failed = true;
    }
    obs["failed"] = failed;
    obs["solves"] = counters.solves - before.solves;
    obs["attempts"] = counters.solves - before.solves + counters.failed - before.failed;
    obs["by"] = counters.type;
    return obs;
}

json run(json const& sc) {
    auto w = World{};
    counters = Counters{};
    auto results = json::array();
    for (auto const& o : sc.at("ops")) {
        auto r = json::object();
        try {
            auto obs = run_op(w, o);
            r["res"] = "ok";
            r["obs"] = obs;
        } catch (json::exception const& e) {
            std::cerr << "driver: " << e.what() << "\n";
            std::exit(2);
        } catch (std::exception const& e) {
            if (std::string(e.what()).find("driver:") == 0) { std::cerr << e.what() << "\n"; std::exit(2); }
            r["res"] = "error";
            r["what"] = e.what();
        }
        results.push_back(r);
    }
    return {{"id", sc.at("id")}, {"results", results}};
}

} // namespace

int main(int argc, char** argv) { return drv::main_loop(argc, argv, run); }

// Drives the kernel polynomial method: moments, LDOS, DOS, Green's functions, conductivity.
// The compute strategy is wrapped to record the raw moments which go into the reconstruction.
#include "KPM.hpp"
#include "kpm/default/Compute.hpp"
#include "kpm/reconstruct.hpp"
#include "model_common.hpp"
#include <atomic>
#include <mutex>
#include <numeric>

using namespace cpb;
using cd = std::complex<double>;

struct Record {
    std::string kind;
    json data;                       // integers, 4 x the moments
    idx_t num_moments = 0;
    std::vector<MatrixXcd> dense;    // for the conductivity
    int calls = 0;
    std::vector<std::pair<idx_t, idx_t>> progress;
    std::mutex m;
    void clear() { kind.clear(); data = json(); num_moments = 0; dense.clear(); calls = 0; progress.clear(); }
};
static Record rec;

static double TOL = 0.2;
static long to_i(double v) {
    if (!std::isfinite(v)) { return drv::NONINT; }
    auto const r = std::round(v);
    if (std::abs(r) > 5e7) { return drv::NONINT - 1; }
    // large values are compared only up to the precision of the scalar type (the specification
    // leaves them out)
    if (std::abs(v - r) > TOL) { return drv::NONINT; }
    return static_cast<long>(r);
}
static json jc(cd v) { return json::array({to_i(v.real()), to_i(v.imag())}); }

template<class A> static json array4(A const& a) {
    auto j = json::array();
    for (idx_t i = 0; i < a.size(); ++i) { j.push_back(jc(4.0 * cd(a[i]))); }
    return j;
}

struct Dump {
    double factor;
    template<class T> json operator()(ArrayX<T> const& a) const { return json::array({scale(a)}); }
    template<class T> json operator()(ArrayXX<T> const& a) const {
        auto j = json::array();
        for (idx_t c = 0; c < a.cols(); ++c) { ArrayX<T> x = a.col(c); j.push_back(scale(x)); }
        return j;
    }
    template<class T> json operator()(std::vector<ArrayX<T>> const& v) const {
        auto j = json::array();
        for (auto const& a : v) { j.push_back(scale(a)); }
        return j;
    }
    template<class A> json scale(A const& a) const {
        auto j = json::array();
        for (idx_t i = 0; i < a.size(); ++i) { j.push_back(jc(4.0 * factor * cd(a[i]))); }
        return j;
    }
};
struct ToDense {
    template<class T> MatrixXcd operator()(MatrixX<T> const& a) const { return a.template cast<cd>(); }
};

static double batch_factor = 1;

struct Visit {
    void operator()(kpm::DiagonalMoments* m) { rec.kind = "diagonal"; rec.num_moments = m->num_moments;
        rec.data = var::apply_visitor(Dump{1}, m->data); }
    void operator()(kpm::BatchDiagonalMoments* m) { rec.kind = "batch"; rec.num_moments = m->num_moments;
        rec.data = var::apply_visitor(Dump{batch_factor}, m->data); }
    void operator()(kpm::GenericMoments* m) { rec.kind = "generic"; rec.num_moments = m->num_moments;
        rec.data = var::apply_visitor(Dump{1}, m->data); }
    void operator()(kpm::MultiUnitMoments* m) { rec.kind = "multi"; rec.num_moments = m->num_moments;
        rec.data = var::apply_visitor(Dump{1}, m->data); }
    void operator()(kpm::DenseMatrixMoments* m) { rec.kind = "dense"; rec.num_moments = m->num_moments;
        rec.dense.push_back(var::apply_visitor(ToDense{}, m->data)); }
};

struct Recorder : kpm::Compute::Interface {
    kpm::DefaultCompute inner;
    explicit Recorder(idx_t threads)
        : inner(threads, [](idx_t d, idx_t t) {
              std::lock_guard<std::mutex> lk(rec.m);
              rec.progress.emplace_back(d, t);
          }) {}
    void moments(kpm::MomentsRef m, kpm::Starter const& s, kpm::AlgorithmConfig const& ac,
                 kpm::OptimizedHamiltonian const& oh) const override {
        inner.moments(m, s, ac, oh);
        ++rec.calls;
        var::apply_visitor(Visit{}, m);
    }
};

// ------------------------------------------------------------------------------ construction
static kpm::Kernel custom_kernel() {
    return {[](idx_t n) -> ArrayXd {
                auto g = ArrayXd(n);
                for (idx_t i = 0; i < n; ++i) { g[i] = 1 + i % 3; }
                return g;
            },
            [](double s) { return kpm::round_num_moments(static_cast<idx_t>(std::round(1 / s))); }};
}

struct Setup {
    double a = 1, b = 0;
    std::string kernel, type;
    double lambda = 4;
    double broadening(double m) const {
        if (kernel == "custom") { return a / m; }
        if (kernel == "lorentz") { return a * lambda / (m - 0.5); }
        return a * constant::pi / (m - 0.5);
    }
};

static kpm::Config make_config(json const& o, Setup& s) {
    auto c = kpm::Config{};
    s.a = o.at("a").get<double>();
    s.b = o.at("b").get<double>();
    s.kernel = o.at("kernel").get<std::string>();
    s.lambda = o.value("lambda", 4);
    auto const e = s.a / static_cast<double>(1.01f);
    if (!o.value("auto", false)) {
        c.min_energy = static_cast<float>(s.b - e);
        c.max_energy = static_cast<float>(s.b + e);
    }
    c.matrix_format = o.at("ell").get<bool>() ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    c.algorithm.optimal_size = o.at("opt").get<bool>();
    c.algorithm.interleaved = o.at("inter").get<bool>();
    c.kernel = s.kernel == "custom" ? custom_kernel() : s.kernel == "lorentz" ? kpm::lorentz_kernel(s.lambda)
               : s.kernel == "jackson" ? kpm::jackson_kernel() : kpm::dirichlet_kernel();
    return c;
}

template<class T> struct Cast { static T get(double re, double) { return static_cast<T>(re); } };
template<class T> struct Cast<std::complex<T>> {
    static std::complex<T> get(double re, double im) { return {static_cast<T>(re), static_cast<T>(im)}; } };

template<class T>
static Hamiltonian make_ham(idx_t n, json const& entries) {
    auto triplets = std::vector<Eigen::Triplet<T>>();
    for (auto const& e : entries) {
        auto const i = e[0].get<int>(), j = e[1].get<int>();
        auto const re = e[2].get<double>(), im = e[3].get<double>();
        triplets.emplace_back(i, j, Cast<T>::get(re, im));
        if (i != j) { triplets.emplace_back(j, i, Cast<T>::get(re, -im)); }
    }
    auto m = std::make_shared<SparseMatrixX<T>>(n, n);
    m->setFromTriplets(triplets.begin(), triplets.end());
    m->makeCompressed();
    return {m};
}
static Hamiltonian make_ham(std::string const& type, idx_t n, json const& entries) {
    if (type == "f") { return make_ham<float>(n, entries); }
    if (type == "d") { return make_ham<double>(n, entries); }
    if (type == "cf") { return make_ham<std::complex<float>>(n, entries); }
    return make_ham<std::complex<double>>(n, entries);
}

static VectorXcd vec(json const& j) {
    auto v = VectorXcd(static_cast<idx_t>(j.size()));
    for (idx_t i = 0; i < v.size(); ++i) { v[i] = {j[i][0].get<double>(), j[i][1].get<double>()}; }
    return v;
}
static SparseMatrixXcd op_matrix(json const& o, idx_t n) {
    auto m = SparseMatrixXcd();
    if (!o.value("hasop", false)) { return m; }
    auto const rows = o.value("oprows", static_cast<int>(n));
    auto triplets = std::vector<Eigen::Triplet<cd>>();
    for (auto const& e : o.at("mat")) {
        triplets.emplace_back(e[0].get<int>(), e[1].get<int>(), cd(e[2].get<double>(), e[3].get<double>()));
    }
    m.resize(rows, rows);
    m.setFromTriplets(triplets.begin(), triplets.end());
    m.makeCompressed();
    return m;
}
static ArrayXf coords(json const& j) {
    auto v = ArrayXf(static_cast<idx_t>(j.size()));
    for (idx_t i = 0; i < v.size(); ++i) { v[i] = j[i].get<float>(); }
    return v;
}

// The random vectors of the stochastic method (in the original order of the indices)
struct RandomVectors {
    Hamiltonian const& h;
    idx_t num;
    template<class T>
    json operator()(SparseMatrixRC<T> const&) const {
        auto oh = kpm::OptimizedHamiltonian(h, kpm::MatrixFormat::CSR, false);
        auto starter = kpm::random_starter(oh);
        auto j = json::array();
        for (idx_t k = 0; k < num; ++k) {
            auto const v = starter.make(var::tag<T>{}).template get<VectorX<T>>();
            auto jv = json::array();
            for (idx_t i = 0; i < v.size(); ++i) { jv.push_back(jc(cd(v[i]))); }
            j.push_back(jv);
        }
        return j;
    }
};

// The random vectors of complex Hamiltonians have arbitrary phases: 1000 x the sums of conj(r_i) r_j
static double const PHASES = 1000;
struct RandomProducts {
    Hamiltonian const& h;
    idx_t num;
    template<class T>
    json operator()(SparseMatrixRC<T> const&) const {
        auto oh = kpm::OptimizedHamiltonian(h, kpm::MatrixFormat::CSR, false);
        auto starter = kpm::random_starter(oh);
        MatrixXcd sum = MatrixXcd::Zero(h.rows(), h.rows()), plain = sum;
        auto norm = 0.0; // the largest deviation from length 1
        for (idx_t k = 0; k < num; ++k) {
            auto const v = starter.make(var::tag<T>{}).template get<VectorX<T>>();
            VectorXcd const r = v.template cast<cd>();
            sum += r.conjugate() * r.transpose();
            plain += r * r.transpose();
            norm = std::max(norm, (r.array().abs() - 1).abs().maxCoeff());
        }
        TOL = 1;
        auto j = json{{"p", rows(sum)}, {"q", rows(plain)}, {"unit", norm < 1e-4}};
        TOL = 0.2;
        return j;
    }
    static json rows(MatrixXcd const& m) {
        auto j = json::array();
        for (idx_t i = 0; i < m.rows(); ++i) {
            auto jr = json::array();
            for (idx_t k = 0; k < m.cols(); ++k) { jr.push_back(jc(PHASES * m(i, k))); }
            j.push_back(jr);
        }
        return j;
    }
};
struct IsComplex {
    template<class T> bool operator()(SparseMatrixRC<T> const&) const { return false; }
    template<class T> bool operator()(SparseMatrixRC<std::complex<T>> const&) const { return true; }
};

// values at the energies where the angle is pi/2, pi/3 and 2 pi/3: multiples of 1/8
static ArrayXd special_energies(Setup const& s) {
    auto e = ArrayXd(3);
    e << s.b, s.b + s.a / 2, s.b - s.a / 2;
    return e;
}
static double const SINES[3] = {1.0, std::sqrt(3.0) / 2, std::sqrt(3.0) / 2};

static json density(ArrayXXdCM const& r, Setup const& s) {
    auto j = json::array();
    for (idx_t c = 0; c < r.cols(); ++c) {
        auto jj = json::array();
        for (int k = 0; k < 3; ++k) { jj.push_back(to_i(8 * r(k, c) * s.a * constant::pi / 2 * SINES[k])); }
        j.push_back(jj);
    }
    return j;
}
// sum mu_n exp(-i n theta) at theta = pi/2
static json greens(ArrayXcd const& g, Setup const& s) {
    return jc(8.0 * g[0] * s.a / cd(0, -2));
}

template<class Calc>
static void dos_obs(Setup const& s, json& obs, Hamiltonian const& ham, idx_t num, Calc calc) {
    auto const phases = ham.get_variant().match(IsComplex{});
    auto const factor = double(num) * (phases ? PHASES : 1);
    batch_factor = factor;
    if (phases) { TOL = 1; }
    ArrayXXdCM const r = calc();
    obs["val"] = density(ArrayXXdCM(r * factor), s);
    TOL = 0.2;
    obs["rand"] = phases ? ham.get_variant().match(RandomProducts{ham, num}) : ham.get_variant().match(RandomVectors{ham, num});
}

static json progress() {
    auto j = json::array();
    for (auto const& p : rec.progress) { j.push_back(json::array({p.first, p.second})); }
    return j;
}

// ------------------------------------------------------------------------------- operations
struct World {
    Setup setup;
    drv::Interp interp;
    std::unique_ptr<KPM> kpm;
    std::unique_ptr<kpm::Core> core;
    Hamiltonian ham;
    idx_t n = 0;
    double span = 0;
};

static double relative_difference(ArrayXcd const& x, ArrayXcd const& y) {
    auto const scale = std::max(1e-3, y.abs().maxCoeff());
    return (x - y).abs().maxCoeff() / scale;
}

// The upper triangle of the Hamiltonian and the sites of the model, as the user gets them
struct UpperTriangle {
    template<class T>
    json operator()(SparseMatrixRC<T> const& m) const {
        auto j = json::array();
        for (auto r = 0; r < m->outerSize(); ++r) {
            for (typename SparseMatrixX<T>::InnerIterator it(*m, r); it; ++it) {
                auto const v = cd(it.value());
                if (it.col() < it.row() || v == 0.0) { continue; }
                j.push_back({it.row(), it.col(), drv::to_int(v.real()), drv::to_int(v.imag())});
            }
        }
        return j;
    }
};
struct TypeName {
    json operator()(SparseMatrixRC<float> const&) const { return "f"; }
    json operator()(SparseMatrixRC<double> const&) const { return "d"; }
    json operator()(SparseMatrixRC<std::complex<float>> const&) const { return "cf"; }
    json operator()(SparseMatrixRC<std::complex<double>> const&) const { return "cd"; }
};

static json model_obs(Model const& model) {
    auto const& sys = *model.system();
    auto const& h = model.hamiltonian();
    auto o = json::object();
    o["n"] = h.rows();
    o["h"] = h.get_variant().match(UpperTriangle{});
    o["type"] = h.get_variant().match(TypeName{});
    o["sites"] = drv::system_obs(sys).at("sites");
    auto names = json::array();
    for (auto const& n : sys.site_registry.get_names()) { names.push_back(n); }
    o["names"] = names;
    o["multi"] = model.is_multiorbital();
    return o;
}

static json cond_obs(World& w, json const& o, ArrayXd const& mu, ArrayXcd const& r, Hamiltonian const& ham) {
    auto obs = json::object();
    auto const num = o.at("vectors").get<idx_t>();
    auto const points = o.value("points", 7);
    auto const temperature = 2000.0;
    auto const N = rec.num_moments;
    obs["nm"] = N;
    obs["calls"] = rec.calls;
    auto total = MatrixXcd(MatrixXcd::Zero(N, N));
    for (size_t k = 0; k + 1 < rec.dense.size(); k += 2) { total += rec.dense[k] * rec.dense[k + 1].adjoint(); }
    auto const phases = ham.get_variant().match(IsComplex{});
    if (phases) { TOL = 1; }
    auto j = json::array();
    for (idx_t p = 0; p < N; ++p) {
        auto jr = json::array();
        for (idx_t q = 0; q < N; ++q) { jr.push_back(jc(16.0 * (phases ? PHASES : 1) * total(p, q))); }
        j.push_back(jr);
    }
    TOL = 0.2;
    obs["mu"] = j;
    obs["rand"] = phases ? ham.get_variant().match(RandomProducts{ham, num}) : ham.get_variant().match(RandomVectors{ham, num});
    // the value which follows from these moments (in double precision)
    auto setup = Setup{};
    auto config = make_config(o.at("config"), setup);
    MatrixXcd averaged = total / double(num);
    config.kernel(averaged);
    auto const lo = static_cast<double>(config.min_energy), hi = static_cast<double>(config.max_energy);
    auto const scale = kpm::Scale<>(lo, hi);
    auto ref = kpm::KuboBastin{mu, ArrayXd::LinSpaced(points, lo, hi), temperature, scale}(averaged);
    if (o.value("real", false)) { ref = ref.real().cast<cd>().eval(); }
    auto const single = w.setup.type == "f" || w.setup.type == "cf";
    obs["agree"] = single || relative_difference(r, ref) < 1e-2; // (cancellation)
    return obs;
}
static ArrayXd potentials(Setup const& s) {
    auto mu = ArrayXd(3);
    mu << s.b, s.b + 0.3 * s.a, s.b - 0.4 * s.a;
    return mu;
}

/// Operations on the interface for models
static bool model_op(World& w, json const& o, json& obs) {
    auto const op = o.at("op").get<std::string>();
    auto const energy = special_energies(w.setup);
    if (op == "kpm" || op == "set_model" || op == "mutate") {
        if (op != "mutate") { w.interp = drv::Interp{}; }
        for (auto const& b : o.at("build")) {
            try {
                w.interp.exec(b);
            } catch (std::exception const& e) {
                if (std::string(e.what()).find("driver:") == 0) { throw; }
                obs["bad"] = e.what(); // not a valid model
                return true;
            }
        }
        obs["bad"] = "";
        if (op == "mutate") { return true; }
        auto& model = w.interp.model();
        auto m = json();
        if (op == "set_model" && o.value("late", false)) {
            // it is evaluated by the interface: a second one says what is to be expected
            auto copy = drv::Interp{};
            for (auto const& b : o.at("build")) { copy.exec(b); }
            try { m = model_obs(copy.model()); } catch (std::exception const&) {}
        } else {
            try { m = model_obs(model); } catch (std::exception const&) {}
        }
        if (m.is_null()) { // an invalid model is refused
            obs["bad"] = "invalid";
            if (op == "set_model") { obs["bad"] = "refused"; try { w.kpm->set_model(model); obs["bad"] = "accepted"; } catch (std::exception const&) {} }
            return true;
        }
        if (m.at("n") == 0) { obs["bad"] = "no sites"; return true; }
        if (op == "kpm") {
            auto config = make_config(o, w.setup);
            TOL = 0.2;
            w.kpm.reset(new KPM(model, Recorder(o.at("threads").get<idx_t>()), config));
        } else {
            if (!w.kpm) { throw std::runtime_error("no model"); }
            w.kpm->set_model(model);
        }
        w.setup.type = m.at("type").get<std::string>();
        w.n = m.at("n").get<idx_t>();
        for (auto const& x : m.items()) { obs[x.key()] = x.value(); }
        return true;
    }
    if (op.substr(0, 2) != "k_") { return false; }
    if (!w.kpm) { throw std::runtime_error("no model"); }
    auto& kpm = *w.kpm;
    auto const& ham = kpm.get_model().hamiltonian();
    if (op == "k_moments") {
        auto const r = kpm.moments(o.at("num").get<idx_t>(), vec(o.at("alpha")), vec(o.at("beta")), op_matrix(o, w.n));
        obs["mom"] = array4(r);
    } else if (op == "k_ldos") {
        auto const r = kpm.calc_ldos(energy, w.setup.broadening(o.at("num")), drv::cart(o.at("pos")),
                                     o.at("sub").get<std::string>(), o.at("reduce").get<bool>());
        obs["val"] = density(r, w.setup);
    } else if (op == "k_spatial") {
        auto const r = kpm.calc_spatial_ldos(energy, w.setup.broadening(o.at("num")), drv::Interp::make_shape(o.at("shape")),
                                             o.at("sub").get<std::string>());
        obs["val"] = density(r, w.setup);
    } else if (op == "k_dos") {
        auto const num = o.at("vectors").get<idx_t>();
        dos_obs(w.setup, obs, ham, num, [&] { return kpm.calc_dos(energy, w.setup.broadening(o.at("num")), num); });
    } else if (op == "k_greens") {
        auto const r = kpm.calc_greens(o.at("row"), o.at("cols").at(0), energy, w.setup.broadening(o.at("num")));
        obs["val"] = json::array({greens(r, w.setup)});
    } else if (op == "k_greensv") {
        auto const r = kpm.calc_greens_vector(o.at("row"), o.at("cols").get<std::vector<idx_t>>(), energy,
                                              w.setup.broadening(o.at("num")));
        obs["val"] = json::array();
        for (auto const& g : r) { obs["val"].push_back(greens(g, w.setup)); }
    } else if (op == "k_cond") {
        auto const mu = potentials(w.setup);
        auto const r = kpm.calc_conductivity(mu, w.setup.broadening(o.at("num")), 2000.0, o.at("dir").get<std::string>(),
                                             o.at("vectors").get<idx_t>(), o.value("points", 7));
        obs = cond_obs(w, o, mu, r.cast<cd>(), ham);
    } else {
        std::cerr << "driver: unknown op " << op << "\n";
        std::exit(2);
    }
    obs["raw"] = rec.data.is_null() ? json::array() : rec.data;
    obs["nm"] = rec.num_moments;
    obs["prog"] = progress();
    return true;
}

static json run_op(World& w, json const& o) {
    auto const op = o.at("op").get<std::string>();
    auto obs = json::object();
    rec.clear();
    batch_factor = 1;
    if (op == "core") {
        auto config = make_config(o, w.setup);
        w.setup.type = o.at("type").get<std::string>();
        TOL = 0.2;
        w.n = o.at("n").get<idx_t>();
        w.ham = make_ham(w.setup.type, w.n, o.at("h"));
        w.core.reset(new kpm::Core(w.ham, Recorder(o.at("threads").get<idx_t>()), config));
        return json();
    }
    if (op == "set_ham") {
        w.setup.type = o.at("type").get<std::string>();
        w.n = o.at("n").get<idx_t>();
        w.ham = make_ham(w.setup.type, w.n, o.at("h"));
        w.core->set_hamiltonian(w.ham);
        return json();
    }
    if (model_op(w, o, obs)) { return obs; }
    auto& core = *w.core;
    auto const energy = special_energies(w.setup);
    if (op == "moments") {
        auto const r = core.moments(o.at("num").get<idx_t>(), vec(o.at("alpha")), vec(o.at("beta")), op_matrix(o, w.n));
        obs["mom"] = array4(r);
        obs["raw"] = rec.data;
        obs["nm"] = rec.num_moments;
    } else if (op == "ldos") {
        auto const idx = o.at("idx").get<std::vector<idx_t>>();
        auto const r = core.ldos(idx, energy, w.setup.broadening(o.at("num")));
        obs["raw"] = rec.data;
        obs["nm"] = rec.num_moments;
        obs["val"] = density(r, w.setup);
        obs["prog"] = progress();
    } else if (op == "dos") {
        auto const num = o.at("vectors").get<idx_t>();
        dos_obs(w.setup, obs, w.ham, num, [&] { return core.dos(energy, w.setup.broadening(o.at("num")), num); });
        obs["raw"] = rec.data;
        obs["nm"] = rec.num_moments;
        obs["prog"] = progress();
    } else if (op == "greens") {
        auto const r = core.greens_vector(o.at("row"), o.at("cols").get<std::vector<idx_t>>(), energy,
                                          w.setup.broadening(o.at("num")));
        obs["raw"] = rec.data;
        obs["nm"] = rec.num_moments;
        obs["val"] = json::array();
        for (auto const& g : r) { obs["val"].push_back(greens(g, w.setup)); }
    } else if (op == "cond") {
        auto const num = o.at("vectors").get<idx_t>();
        auto const mu = potentials(w.setup);
        auto const r = core.conductivity(coords(o.at("left")), coords(o.at("right")), mu,
                                         w.setup.broadening(o.at("num")), 2000.0, num, o.value("points", 7));
        obs = cond_obs(w, o, mu, r, w.ham);
    } else if (op == "random") {
        obs = w.ham.get_variant().match(RandomProducts{w.ham, o.at("vectors").get<idx_t>()});
    } else if (op == "scale") {
        auto const s = core.scaling_factors();
        obs["a"] = std::isfinite(s.a) ? std::lround(1e4 * s.a) : drv::NONINT;
        obs["b"] = std::isfinite(s.b) ? std::lround(1e4 * s.b) : drv::NONINT;
    } else if (op == "report") {
        obs["text"] = !core.report(o.value("short", false)).empty();
    } else {
        std::cerr << "driver: unknown op " << op << "\n";
        std::exit(2);
    }
    return obs;
}

static json run(json const& sc) {
    auto w = World{};
    auto results = json::array();
    for (auto const& o : sc.at("ops")) {
        auto r = json::object();
        try {
            auto obs = run_op(w, o);
            r["res"] = "ok";
            if (!obs.is_null()) { r["obs"] = obs; }
        } catch (json::exception const& e) {
            std::cerr << "driver: " << e.what() << "\n";
            std::exit(2);
        } catch (std::exception const& e) {
            if (std::string(e.what()).find("driver:") == 0) { std::cerr << e.what() << "\n"; std::exit(2); }
            r["res"] = "error";
            r["what"] = e.what();
        }
        results.push_back(r);
    }
    return {{"id", sc.at("id")}, {"results", results}};
}

int main(int argc, char** argv) { return drv::main_loop(argc, argv, run); }

// Interpreter for model-building scenarios, on the public API of cppcore only.
#pragma once
#include "common.hpp"
#include "Model.hpp"

namespace drv {
using namespace cpb;

inline Cartesian cart(json const& j) {
    return {j.at(0).get<float>(), j.at(1).get<float>(), j.at(2).get<float>()};
}
inline Index3D index3(json const& j) {
    return {j.at(0).get<int>(), j.at(1).get<int>(), j.at(2).get<int>()};
}
inline json jpos(Cartesian p) { return json::array({to_int(p.x()), to_int(p.y()), to_int(p.z())}); }
inline json jcx(std::complex<double> c) { return json::array({to_int(c.real()), to_int(c.imag())}); }
inline std::complex<double> cx(json const& j) { return {j.at(0).get<double>(), j.at(1).get<double>()}; }

/// Matrix: list of rows of [re, im]; `dims` makes zero-dimensional ones expressible
inline MatrixXcd matrix(json const& j) {
    auto const rows = static_cast<int>(j.size());
    auto const cols = rows ? static_cast<int>(j.at(0).size()) : 0;
    MatrixXcd m(rows, cols);
    for (auto r = 0; r < rows; ++r)
        for (auto c = 0; c < cols; ++c)
            m(r, c) = cx(j.at(r).at(c));
    return m;
}
inline json jmatrix(MatrixXcd const& m) {
    auto res = json::array();
    for (auto r = 0; r < m.rows(); ++r) {
        auto row = json::array();
        for (auto c = 0; c < m.cols(); ++c) { row.push_back(jcx(m(r, c))); }
        res.push_back(row);
    }
    return res;
}

/// Rule: a*x + b*y + c*z + d on integer coordinates
inline long lin(json const& l, Cartesian p) {
    return l.at(0).get<long>() * std::lround(p.x()) + l.at(1).get<long>() * std::lround(p.y())
           + l.at(2).get<long>() * std::lround(p.z()) + l.at(3).get<long>();
}
inline bool rule(json const& r, Cartesian p) {
    return imod(lin(r.at("lin"), p), r.at("m").get<long>()) == r.at("r").get<long>();
}

template<class Registry> json jregistry(Registry const& r) {
    auto res = json::array();
    auto const& names = r.get_names(); auto const& energies = r.get_energies();
    for (auto i = size_t{0}; i < names.size(); ++i) {
        res.push_back({{"name", names[i]}, {"e", jmatrix(energies[i])}});
    }
    return res;
}

inline json lattice_obs(Lattice const& l) {
    json o;
    auto const& subs = l.get_sublattices();
    auto const& hops = l.get_hoppings();
    auto name_of = [&](idx_t uid) -> std::string {
        std::string found;
        for (auto const& p : subs) {
            if (p.second.unique_id.value() == uid) { found = found.empty() ? p.first : "#ambiguous"; }
        }
        return found.empty() ? "#none" : found;
    };
    std::map<idx_t, json> by_id;
    for (auto const& p : subs) {
        by_id[p.second.unique_id.value()] = {
            {"name", p.first}, {"pos", jpos(p.second.position)}, {"e", jmatrix(p.second.energy)},
            {"orig", name_of(p.second.alias_id.value())}};
    }
    o["subs"] = json::array();
    for (auto const& p : by_id) { o["subs"].push_back(p.second); }
    std::map<idx_t, json> fam;
    for (auto const& p : hops) {
        auto terms = json::array();
        for (auto const& t : p.second.terms) {
            terms.push_back({{"rel", {t.relative_index[0], t.relative_index[1], t.relative_index[2]}},
                             {"from", name_of(t.from.value())}, {"to", name_of(t.to.value())}});
        }
        fam[p.second.family_id.value()] = {{"name", p.first}, {"e", jmatrix(p.second.energy)}, {"terms", terms}};
    }
    o["hops"] = json::array();
    for (auto const& p : fam) { o["hops"].push_back(p.second); }
    o["ndim"] = l.ndim(); o["nsub"] = l.nsub(); o["nhop"] = l.nhop();
    o["vecs"] = json::array();
    for (auto const& v : l.get_vectors()) { o["vecs"].push_back(jpos(v)); }
    o["offset"] = jpos(l.get_offset()); o["minnb"] = l.get_min_neighbors();
    o["maxh"] = l.nsub() ? l.max_hoppings() : 0;
    o["diag"] = l.has_diagonal_terms(); o["onsite"] = l.has_onsite_energy();
    o["sregok"] = o["hregok"] = true; o["sreg"] = o["hreg"] = json::array();
    try { o["sreg"] = jregistry(l.site_registry()); } catch (std::exception const&) { o["sregok"] = false; }
    try { o["hreg"] = jregistry(l.hopping_registry()); } catch (std::exception const&) { o["hregok"] = false; }
    // the optimized unit cell: neighbours of each site, as the builder will see them
    auto cell = json::array();
    auto const ouc = l.optimized_unit_cell();
    for (auto i = 0; i < l.nsub(); ++i) {
        auto const& s = ouc[i];
        auto nb = json::array();
        for (auto const& h : s.hoppings) {
            nb.push_back({{"rel", {h.relative_index[0], h.relative_index[1], h.relative_index[2]}},
                          {"to", name_of(ouc[h.to_sub_idx].unique_id.value())},
                          {"fam", h.family_id.value() + 1}, {"conj", h.is_conjugate}});
        }
        cell.push_back({{"name", name_of(s.unique_id.value())}, {"norb", s.norb}, {"nb", nb}});
    }
    o["cell"] = cell;
    return o;
}

inline json jhops(HoppingBlocks const& hb, HoppingRegistry const& reg) {
    auto res = json::array();
    for (auto const& block : hb) {
        std::string name;
        if (block.size() > 0) { name = reg.name(block.family_id()); }
        for (auto const& coo : block.coordinates()) {
            res.push_back({{"fam", name}, {"i", coo.row + 1}, {"j", coo.col + 1}});
        }
    }
    return res;
}

/// The same hoppings as a matrix: its size, and whether it has the same elements as the list
inline json jcsr(HoppingBlocks const& hb, idx_t n) {
    auto places = std::map<std::pair<idx_t, idx_t>, idx_t>();
    for (auto const& block : hb) {
        for (auto const& coo : block.coordinates()) {
            if (coo.row < 0 || coo.col < 0 || coo.row >= n || coo.col >= n) { return {{"size", -1}, {"same", false}}; }
            places[{coo.row, coo.col}] = block.family_id().value();
        }
    }
    if (static_cast<idx_t>(places.size()) != hb.nnz()) { return {{"size", n}, {"same", true}}; } // several in the same place
    auto size = static_cast<idx_t>(hb.count_neighbors().size());
    if (size != n) { return {{"size", size}, {"same", false}}; }
    auto const csr = hb.tocsr();
    auto same = csr.nonZeros() == hb.nnz() && csr.rows() == csr.cols();
    for (auto r = 0; r < csr.outerSize(); ++r) {
        for (HoppingCSR::InnerIterator it(csr, r); it; ++it) {
            auto const found = places.find({it.row(), it.col()});
            same = same && found != places.end() && found->second == it.value();
        }
    }
    return {{"size", csr.rows()}, {"same", same}};
}

inline json system_obs(System const& s) {
    json o;
    auto const n = s.num_sites();
    auto sites = json::array();
    auto names = std::vector<std::string>(n, "#none");
    for (auto const& sub : s.compressed_sublattices) {
        for (auto i = sub.sys_start(); i < sub.sys_end() && i < n; ++i) {
            names[i] = s.site_registry.name(sub.id());
        }
    }
    for (auto i = idx_t{0}; i < n; ++i) {
        auto h = json::array();
        try {
            auto const hi = s.to_hamiltonian_indices(i);
            for (auto k = 0; k < hi.size(); ++k) { h.push_back(hi[k] + 1); }
        } catch (std::exception const&) {}
        sites.push_back({{"pos", jpos(s.positions[i])}, {"sub", names[i]}, {"ham", h}});
    }
    o["sites"] = sites;
    o["n"] = n;
    o["hamsize"] = s.hamiltonian_size();
    o["hamnnz"] = s.hamiltonian_nnz();
    o["hops"] = jhops(s.hopping_blocks, s.hopping_registry);
    auto bs = json::array();
    for (auto const& b : s.boundaries) {
        bs.push_back({{"shift", jpos(b.shift)}, {"hops", jhops(b.hopping_blocks, s.hopping_registry)},
                      {"csr", jcsr(b.hopping_blocks, n)}});
    }
    o["csr"] = jcsr(s.hopping_blocks, n);
    o["bounds"] = bs;
    return o;
}

/// The site and orbital of each Hamiltonian index, as told by `to_hamiltonian_indices`.
/// [0, 0] for indices which do not belong to exactly one orbital.
inline json owners(System const& s, long size) {
    auto res = std::vector<json>(size, json::array({0, 0}));
    auto count = std::vector<int>(size, 0);
    for (auto i = idx_t{0}; i < s.num_sites(); ++i) {
        auto const hi = s.to_hamiltonian_indices(i);
        for (auto k = 0; k < hi.size(); ++k) {
            if (hi[k] < 0 || hi[k] >= size) { continue; }
            res[hi[k]] = (count[hi[k]]++ == 0) ? json::array({i + 1, k + 1}) : json::array({0, 0});
        }
    }
    return res;
}

struct MatrixDump {
    json operator()(SparseMatrixRC<float> const& m) const { return dump(*m, "float"); }
    json operator()(SparseMatrixRC<double> const& m) const { return dump(*m, "double"); }
    json operator()(SparseMatrixRC<std::complex<float>> const& m) const { return dump(*m, "cfloat"); }
    json operator()(SparseMatrixRC<std::complex<double>> const& m) const { return dump(*m, "cdouble"); }

    template<class scalar_t>
    static json dump(SparseMatrixX<scalar_t> const& m, char const* type) {
        json o;
        o["type"] = type; o["rows"] = m.rows(); o["cols"] = m.cols();
        auto e = json::array();
        // a Bloch phase in single precision is not exact: the error is relative to the largest element
        auto largest = 0.0;
        for (auto r = 0; r < m.outerSize(); ++r) {
            for (typename SparseMatrixX<scalar_t>::InnerIterator it(m, r); it; ++it) {
                auto const a = std::abs(std::complex<double>(it.value()));
                if (std::isfinite(a)) { largest = std::max(largest, a); }
            }
        }
        auto const tol = std::min(0.45, 2e-2 + 2e-4 * largest);
        for (auto r = 0; r < m.outerSize(); ++r) {
            for (typename SparseMatrixX<scalar_t>::InnerIterator it(m, r); it; ++it) {
                auto const v = std::complex<double>(it.value());
                e.push_back({it.row() + 1, it.col() + 1, to_int(v.real(), tol), to_int(v.imag(), tol)});
            }
        }
        o["entries"] = e;
        return o;
    }
};

inline json ham_obs(Hamiltonian const& h) {
    if (!h) { return {{"type", "none"}, {"rows", 0}, {"cols", 0}, {"entries", json::array()}}; }
    return var::apply_visitor(MatrixDump{}, h.get_variant());
}

/// Energy functions of the modifiers, for any scalar type
template<class scalar_t> struct ToScalar {
    static scalar_t make(std::complex<double> v) {
        if (v.imag() != 0) { throw ComplexOverride(); }
        return static_cast<scalar_t>(v.real());
    }
};
template<class T> struct ToScalar<std::complex<T>> {
    static std::complex<T> make(std::complex<double> v) { return std::complex<T>(v); }
};
inline std::complex<double> ipow(long n) {
    switch (imod(n, 4)) {
        case 0: return {1, 0};
        case 1: return {0, 1};
        case 2: return {-1, 0};
        default: return {0, -1};
    }
}

template<class Fn> void with_scalar(ComplexArrayRef const& e, Fn fn) {
    using num::Tag;
    switch (e.tag) {
        case Tag::f32: fn(static_cast<float*>(e.data)); break;
        case Tag::f64: fn(static_cast<double*>(e.data)); break;
        case Tag::cf32: fn(static_cast<std::complex<float>*>(e.data)); break;
        case Tag::cf64: fn(static_cast<std::complex<double>*>(e.data)); break;
        default: throw std::runtime_error("unexpected tag");
    }
}

struct Interp {
    std::unique_ptr<Lattice> lattice;
    std::map<std::string, std::shared_ptr<Model>> models;
    std::string current = "m";
    std::map<std::string, std::pair<std::shared_ptr<System const>, Hamiltonian>> held; ///< results kept by the user
    std::shared_ptr<json> log = std::make_shared<json>(json::array()); ///< what callbacks saw

    Model& model() { return *models.at(current); }

    static Shape make_shape(json const& j) {
        auto const kind = j.at("kind").get<std::string>();
        auto shape = [&]() -> Shape {
            if (kind == "polygon") {
                auto v = Shape::Vertices();
                for (auto const& p : j.at("verts")) { v.push_back(cart(p)); }
                return Polygon(v);
            } else if (kind == "line") {
                return Line(cart(j.at("a")), cart(j.at("b")));
            } else if (kind == "box") {
                auto const lo = cart(j.at("lo")), hi = cart(j.at("hi"));
                return FreeformShape([lo, hi](CartesianArrayConstRef p) -> ArrayX<bool> {
                    return p.x() >= lo.x() && p.x() <= hi.x() && p.y() >= lo.y() && p.y() <= hi.y()
                           && p.z() >= lo.z() && p.z() <= hi.z();
                }, hi - lo, 0.5f * (hi + lo));
            } else if (kind == "circle") {
                auto const c = cart(j.at("c"));
                auto const r2 = j.at("r2").get<float>();
                auto const w = 2 * j.at("h").get<float>(); // half width of the bounding box
                return FreeformShape([c, r2](CartesianArrayConstRef p) -> ArrayX<bool> {
                    return (p.x() - c.x()).cwiseAbs2() + (p.y() - c.y()).cwiseAbs2()
                           + (p.z() - c.z()).cwiseAbs2() < r2;
                }, {w, w, w}, c);
            }
            throw std::runtime_error("driver: unknown shape " + kind);
        }();
        if (j.count("offset")) { shape.lattice_offset = cart(j.at("offset")); }
        return shape;
    }

    static bool sub_match(json const& j, std::string const& name) {
        auto const s = j.at("sub").get<std::string>();
        return s.empty() || s == name;
    }

    SiteStateModifier state_mod(json const& j) {
        auto log = this->log;
        return {[j, log](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef pos, string_view sub) {
            auto seen = json::array();
            for (auto i = 0; i < state.size(); ++i) {
                auto const p = Cartesian{pos.x()[i], pos.y()[i], pos.z()[i]};
                if (state[i]) { seen.push_back(jpos(p)); }
                if (sub_match(j, sub) && rule(j.at("rule"), p)) { state[i] = false; }
            }
            log->push_back({{"cb", "state"}, {"tag", j.at("tag")}, {"sub", sub}, {"seen", seen}});
        }, j.value("minnb", 0)};
    }
    PositionModifier pos_mod(json const& j) {
        auto log = this->log;
        return {[j, log](CartesianArrayRef pos, string_view sub) {
            auto const d = cart(j.at("d"));
            for (auto i = 0; i < pos.size(); ++i) {
                auto const p = Cartesian{pos.x()[i], pos.y()[i], pos.z()[i]};
                if (sub_match(j, sub) && rule(j.at("rule"), p)) {
                    pos.x()[i] += d.x(); pos.y()[i] += d.y(); pos.z()[i] += d.z();
                }
            }
            log->push_back({{"cb", "pos"}, {"tag", j.at("tag")}, {"sub", sub}, {"seen", json::array()}});
        }};
    }
    SiteGenerator site_gen(json const& j) {
        auto log = this->log;
        return {j.at("name").get<std::string>(), matrix(j.at("e")), [j, log](System const& s) {
            auto const o = system_obs(s);
            auto out = std::vector<Cartesian>();
            for (auto const& site : o.at("sites")) {
                auto const p = cart(site.at("pos"));
                if (site.at("sub") == j.at("sub") && rule(j.at("rule"), p)) {
                    out.push_back(p + cart(j.at("d")));
                }
            }
            auto res = CartesianArray(static_cast<idx_t>(out.size()));
            for (auto i = size_t{0}; i < out.size(); ++i) { res[i] = out[i]; }
            log->push_back({{"cb", "sitegen"}, {"tag", j.at("tag")}, {"sub", ""}, {"sys", o}});
            return res;
        }};
    }
    HoppingGenerator hop_gen(json const& j) {
        auto log = this->log;
        return {j.at("name").get<std::string>(), matrix(j.at("e")), [j, log](System const& s) {
            auto const o = system_obs(s);
            auto from = std::vector<int>(), to = std::vector<int>();
            auto const d = cart(j.at("d"));
            auto const& sites = o.at("sites");
            for (auto a = size_t{0}; a < sites.size(); ++a) {
                if (sites[a].at("sub") != j.at("from")) { continue; }
                for (auto b = size_t{0}; b < sites.size(); ++b) {
                    if (sites[b].at("sub") != j.at("to")) { continue; }
                    if (cart(sites[a].at("pos")) + d == cart(sites[b].at("pos"))) {
                        from.push_back(a); to.push_back(b);
                        if (j.value("twice", false)) { from.push_back(b); to.push_back(a); }
                    }
                }
            }
            if (j.value("again", false)) { // the whole list once more
                for (auto i = size_t{0}, n = from.size(); i < n; ++i) { from.push_back(from[i]); to.push_back(to[i]); }
            }
            auto const n = static_cast<idx_t>(from.size());
            auto r = HoppingGenerator::Result{ArrayXi(n), ArrayXi(n)};
            for (auto i = 0; i < n; ++i) { r.from[i] = from[i]; r.to[i] = to[i]; }
            log->push_back({{"cb", "hopgen"}, {"tag", j.at("tag")}, {"sub", ""}, {"sys", o}});
            return r;
        }};
    }
    OnsiteModifier onsite_mod(json const& j) {
        auto log = this->log;
        return {[j, log](ComplexArrayRef e, CartesianArrayConstRef pos, string_view sub) {
            auto const n = pos.size();
            auto const norb = (e.ndim == 1) ? idx_t{1} : e.shape[0];
            auto seen = json::array();
            auto const ok_shape = (e.ndim == 1) ? e.shape[0] == n
                : (e.ndim == 3 && e.shape[0] == e.shape[1] && e.shape[2] == n);
            for (auto i = 0; i < n; ++i) { seen.push_back(jpos({pos.x()[i], pos.y()[i], pos.z()[i]})); }
            log->push_back({{"cb", "onsite"}, {"tag", j.at("tag")}, {"sub", sub}, {"norb", norb},
                            {"okshape", ok_shape}, {"seen", seen}});
            if (!ok_shape || !sub_match(j, sub)) { return; }
            with_scalar(e, [&](auto* data) {
                using T = typename std::remove_reference<decltype(*data)>::type;
                for (auto r = 0; r < norb; ++r) for (auto c = 0; c < norb; ++c) for (auto i = 0; i < n; ++i) {
                    auto& v = data[(r * norb + c) * n + i];
                    auto const value = static_cast<std::complex<double>>(v);
                    auto const kind = j.at("kind").get<std::string>();
                    auto const l = static_cast<double>(lin(j.at("lin"), {pos.x()[i], pos.y()[i], pos.z()[i]}));
                    auto out = value;
                    if (kind == "add") {
                        if (r == c) { out = value + l * (r + 1.0); }
                    } else if (kind == "mul") {
                        out = value * l;
                    } else if (kind == "mix") { // Hermitian off-diagonal contribution
                        auto const w = cx(j.at("w"));
                        if (r < c) { out = value + w * l; }
                        if (r > c) { out = value + std::conj(w) * l; }
                    } else if (kind == "nan") {
                        out = (l != 0) ? std::complex<double>(std::nan(""), 0) : value;
                    } else if (kind == "inf") {
                        out = (l != 0) ? std::complex<double>(INFINITY, 0) : value;
                    }
                    v = ToScalar<T>::make(out);
                }
            });
        }, j.value("complex", false), j.value("double", false)};
    }
    HoppingModifier hop_mod(json const& j) {
        auto log = this->log;
        return {[j, log](ComplexArrayRef e, CartesianArrayConstRef p1, CartesianArrayConstRef p2, string_view fam) {
            auto const n = p1.size();
            auto const rows = (e.ndim == 1) ? idx_t{1} : e.shape[0];
            auto const cols = (e.ndim == 1) ? idx_t{1} : e.shape[1];
            auto const ok_shape = p2.size() == n
                && ((e.ndim == 1) ? e.shape[0] == n : (e.ndim == 3 && e.shape[2] == n));
            if (j.value("log", true)) {
                auto seen = json::array();
                for (auto i = 0; i < n; ++i) {
                    seen.push_back(json::array({jpos({p1.x()[i], p1.y()[i], p1.z()[i]}),
                                                jpos({p2.x()[i], p2.y()[i], p2.z()[i]})}));
                }
                log->push_back({{"cb", "hop"}, {"tag", j.at("tag")}, {"fam", fam}, {"rows", rows},
                                {"cols", cols}, {"okshape", ok_shape}, {"seen", seen}});
            }
            auto const jf = j.at("fam").get<std::string>();
            if (!ok_shape || !(jf.empty() || jf == fam)) { return; }
            auto const kind = j.at("kind").get<std::string>();
            with_scalar(e, [&](auto* data) {
                using T = typename std::remove_reference<decltype(*data)>::type;
                for (auto r = 0; r < rows; ++r) for (auto c = 0; c < cols; ++c) for (auto i = 0; i < n; ++i) {
                    auto& v = data[(r * cols + c) * n + i];
                    auto const value = static_cast<std::complex<double>>(v);
                    auto const l = lin(j.at("lin1"), {p1.x()[i], p1.y()[i], p1.z()[i]})
                                   + lin(j.at("lin2"), {p2.x()[i], p2.y()[i], p2.z()[i]});
                    auto out = value;
                    if (kind == "add") { out = value + static_cast<double>(l) * (2.0 * r + c + 1.0); }
                    else if (kind == "mul") { out = value * static_cast<double>(l); }
                    else if (kind == "phase") { out = value * ipow(l); }
                    v = ToScalar<T>::make(out);
                }
            });
        }, j.value("complex", false), j.value("double", false)};
    }

    json lead_obs(Lead const& lead) {
        json o;
        o["indices"] = json::array();
        for (auto i : lead.indices()) { o["indices"].push_back(i + 1); }
        o["sys"] = system_obs(lead.system());
        o["h0"] = ham_obs(lead.h0());
        o["h1"] = ham_obs(lead.h1());
        o["owner"] = owners(lead.system(), o.at("h0").at("rows").get<long>());
        return o;
    }

    /// Execute one operation: returns the observation (may be null)
    json exec(json const& j) {
        auto const op = j.at("op").get<std::string>();
        // ---- lattice
        if (op == "lattice") {
            auto v = std::vector<Cartesian>(3, Cartesian{0, 0, 0});
            for (auto i = size_t{0}; i < j.at("vecs").size(); ++i) { v[i] = cart(j["vecs"][i]); }
            lattice.reset(new Lattice(v[0], v[1], v[2]));
        } else if (op == "add_sub") {
            auto const kind = j.at("kind").get<std::string>();
            auto const name = j.at("name").get<std::string>();
            auto const pos = cart(j.at("pos"));
            auto const e = matrix(j.at("e"));
            if (kind == "scalar") { lattice->add_sublattice(name, pos, e(0, 0).real()); }
            else if (kind == "vector") {
                VectorXd v = e.diagonal().real();
                lattice->add_sublattice(name, pos, v);
            } else { lattice->add_sublattice(name, pos, e); }
        } else if (op == "add_alias") {
            lattice->add_alias(j.at("name").get<std::string>(), j.at("orig").get<std::string>(), cart(j.at("pos")));
        } else if (op == "reg_hop") {
            auto const e = matrix(j.at("e"));
            if (j.value("scalar", false)) { lattice->register_hopping_energy(j.at("name").get<std::string>(), e(0, 0)); }
            else { lattice->register_hopping_energy(j.at("name").get<std::string>(), e); }
        } else if (op == "add_hop") {
            lattice->add_hopping(index3(j.at("rel")), j.at("from").get<std::string>(),
                                 j.at("to").get<std::string>(), j.at("hop").get<std::string>());
        } else if (op == "add_hop_e") {
            auto const e = matrix(j.at("e"));
            if (j.value("scalar", false)) {
                lattice->add_hopping(index3(j.at("rel")), j.at("from").get<std::string>(), j.at("to").get<std::string>(), e(0, 0));
            } else {
                lattice->add_hopping(index3(j.at("rel")), j.at("from").get<std::string>(), j.at("to").get<std::string>(), e);
            }
        } else if (op == "set_offset") { lattice->set_offset(cart(j.at("pos")));
        } else if (op == "with_offset") { *lattice = lattice->with_offset(cart(j.at("pos")));
        } else if (op == "min_nb") { lattice->set_min_neighbors(j.at("n").get<int>());
        } else if (op == "with_min_nb") { *lattice = lattice->with_min_neighbors(j.at("n").get<int>());
        } else if (op == "calc_pos") {
            return jpos(lattice->calc_position(index3(j.at("idx")), j.at("name").get<std::string>()));
        } else if (op == "translate") {
            auto const v = lattice->translate_coordinates(cart(j.at("pos")));
            auto const s = j.at("scale").get<double>();
            return json::array({to_int(v[0] * s), to_int(v[1] * s), to_int(v[2] * s)});
        } else if (op == "lat_obs") { return lattice_obs(*lattice);
        // ---- model
        } else if (op == "model") {
            current = j.value("m", "m");
            models[current] = std::make_shared<Model>(*lattice);
        } else if (op == "copy") {
            models[j.at("to").get<std::string>()] = std::make_shared<Model>(model());
        } else if (op == "use") { current = j.at("m").get<std::string>();
        } else if (op == "primitive") {
            auto const n = index3(j.at("n"));
            model().add(Primitive(n[0], n[1], n[2]));
        } else if (op == "shape") { model().add(make_shape(j));
        } else if (op == "symmetry") {
            auto const l = cart(j.at("len"));
            model().add(TranslationalSymmetry(l[0], l[1], l[2]));
        } else if (op == "state_mod") { model().add(state_mod(j));
        } else if (op == "pos_mod") { model().add(pos_mod(j));
        } else if (op == "onsite_mod") { model().add(onsite_mod(j));
        } else if (op == "hop_mod") { model().add(hop_mod(j));
        } else if (op == "site_gen") { model().add(site_gen(j));
        } else if (op == "hop_gen") { model().add(hop_gen(j));
        } else if (op == "lead") { model().attach_lead(j.at("dir").get<int>(), make_shape(j.at("shape")));
        } else if (op == "wave") {
            auto const m = cart(j.at("k"));
            model().set_wave_vector(static_cast<float>(M_PI / 8) * m);
        } else if (op == "clear_structure") { model().clear_structure_modifiers();
        } else if (op == "clear_ham") { model().clear_hamiltonian_modifiers();
        } else if (op == "clear_all") { model().clear_all_modifiers();
        // ---- observations
        } else if (op == "system") { return system_obs(*model().system());
        } else if (op == "ham") {
            auto o = ham_obs(model().hamiltonian());
            auto const& sys = *model().system();
            o["sites"] = system_obs(sys).at("sites");
            o["owner"] = owners(sys, o.at("rows").get<long>());
            return o;
        } else if (op == "hold") {
            auto h = model().hamiltonian();
            held[j.at("h").get<std::string>()] = {model().system(), h};
            return {{"sys", system_obs(*model().system())}, {"ham", ham_obs(h)}};
        } else if (op == "held") {
            auto const& h = held.at(j.at("h").get<std::string>());
            return {{"sys", system_obs(*h.first)}, {"ham", ham_obs(h.second)}};
        } else if (op == "leads") {
            auto res = json::array();
            auto const& ls = model().leads();
            for (auto i = 0; i < ls.size(); ++i) { res.push_back(lead_obs(ls[i])); }
            return {{"leads", res}, {"sites", system_obs(*model().system()).at("sites")}};
        } else if (op == "eval") { model().eval();
        } else if (op == "report") { model().report();
        } else if (op == "flags") {
            return {{"multi", model().is_multiorbital()}, {"double", model().is_double()},
                    {"complex", model().is_complex()}};
        } else if (op == "nearest") {
            return model().system()->find_nearest(cart(j.at("pos")), j.at("sub").get<std::string>()) + 1;
        } else if (op == "range") {
            auto const r = model().system()->sublattice_range(j.at("sub").get<std::string>());
            return json::array({r.start + 1, r.end});
        } else if (op == "expanded") {
            auto const e = model().system()->expanded_positions();
            auto res = json::array();
            for (auto i = 0; i < e.size(); ++i) { res.push_back(jpos(e[i])); }
            return res;
        } else if (op == "registries") {
            return {{"s", jregistry(model().get_site_registry())}, {"h", jregistry(model().get_hopping_registry())}};
        } else if (op == "model_lattice") {
            return lattice_obs(model().get_lattice());
        } else { throw std::runtime_error("driver: unknown op " + op); }
        return nullptr;
    }

    json run(json const& scenario) {
        auto results = json::array();
        for (auto const& j : scenario.at("ops")) {
            log->clear(); *log = json::array();
            json r;
            try {
                auto o = exec(j);
                r["res"] = "ok";
                if (!o.is_null()) { r["obs"] = o; }
            } catch (std::exception const& e) {
                if (std::string(e.what()).find("driver:") == 0) { throw; }
                r["res"] = "err"; r["what"] = e.what();
            }
            if (!log->empty()) { r["log"] = *log; }
            results.push_back(r);
        }
        return {{"id", scenario.at("id")}, {"results", results}};
    }
};

} // namespace drv

// Drives the containers of a system, registries and sparse matrices
#include "system/HoppingBlocks.hpp"
#include "system/CompressedSublattices.hpp"
#include "system/Registry.hpp"
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"
#include "detail/algorithm.hpp"
#include "common.hpp"

#include <set>
#include <stdexcept>

using namespace cpb;
using cd = std::complex<double>;

namespace {

json num(cd v) { return {drv::to_int(v.real()), drv::to_int(v.imag())}; }
ArrayXi ints(json const& j) {
    auto a = ArrayXi(static_cast<idx_t>(j.size()));
    for (std::size_t i = 0; i < j.size(); ++i) { a[static_cast<idx_t>(i)] = j[i].get<int>(); }
    return a;
}
template<class A> json list(A const& a) {
    auto j = json::array();
    for (idx_t i = 0; i < a.size(); ++i) { j.push_back(a[i]); }
    return j;
}
VectorX<bool> bools(json const& j) {
    auto a = VectorX<bool>(static_cast<idx_t>(j.size()));
    for (std::size_t i = 0; i < j.size(); ++i) { a[static_cast<idx_t>(i)] = j[i].get<bool>(); }
    return a;
}
MatrixXcd matrix(json const& j) {
    auto const r = static_cast<idx_t>(j.size()), c = r ? static_cast<idx_t>(j[0].size()) : 0;
    auto m = MatrixXcd(r, c);
    for (idx_t i = 0; i < r; ++i) { for (idx_t k = 0; k < c; ++k) {
        auto const& z = j[static_cast<std::size_t>(i)][static_cast<std::size_t>(k)];
        m(i, k) = {z[0].get<double>(), z[1].get<double>()};
    }}
    return m;
}
json matrix(MatrixXcd const& m) {
    auto j = json::array();
    for (idx_t i = 0; i < m.rows(); ++i) {
        auto row = json::array();
        for (idx_t k = 0; k < m.cols(); ++k) { row.push_back(num(m(i, k))); }
        j.push_back(row);
    }
    return j;
}
json pairs(NameMap const& map) {
    auto j = json::array();
    for (auto const& p : map) { j.push_back({p.first, p.second}); }
    return j;
}

json look(HoppingBlocks const& hb) {
    auto o = json{{"n", hb.get_num_sites()}, {"nnz", hb.nnz()}, {"neighbors", list(hb.count_neighbors())},
                  {"map", pairs(hb.get_name_map())}};
    auto blocks = json::array(), ids = json::array(), sizes = json::array();
    auto unique = true;
    auto seen = std::set<std::pair<int, int>>();
    for (auto const& b : hb) {
        auto block = json::array();
        for (auto const& coo : b.coordinates()) {
            block.push_back({coo.row, coo.col});
            unique = seen.insert({coo.row, coo.col}).second && unique;
        }
        blocks.push_back(block);
        ids.push_back(b.family_id().value());
        sizes.push_back(b.size());
    }
    o["blocks"] = blocks;
    o["ids"] = ids;
    o["sizes"] = sizes;
    auto csr = json::array();
    o["csr_n"] = hb.get_num_sites();
    if (unique) { // required by `tocsr`
        auto const m = hb.tocsr();
        o["csr_n"] = m.rows() == m.cols() ? m.rows() : -1;
        for (auto r = 0; r < m.outerSize(); ++r) {
            for (HoppingCSR::InnerIterator it(m, r); it; ++it) { csr.push_back({it.row(), it.col(), it.value()}); }
        }
    }
    o["csr"] = csr;
    return o;
}

json look(CompressedSublattices const& cs) {
    auto o = json{{"size", cs.decompressed_size()}, {"all", list(cs.decompressed())}};
    auto groups = json::array();
    for (auto const& g : cs) {
        groups.push_back({g.id().value(), g.num_sites(), g.num_orbitals(), g.sys_start(), g.sys_end(), g.ham_start(),
                          g.ham_end(), g.ham_size()});
    }
    o["groups"] = groups;
    return o;
}

template<class ID>
json reg_op(Registry<ID>& reg, json const& o) {
    auto const op = o.at("op").get<std::string>();
    if (op == "reg_add") { reg.register_family(o.at("name").get<std::string>(), matrix(o.at("energy"))); return 0; }
    if (op == "reg_id") { return reg.id(o.at("name").get<std::string>()).value(); }
    if (op == "reg_at") {
        auto const id = ID(o.at("id").get<int>());
        return {{"name", reg.name(id)}, {"energy", matrix(reg.energy(id))}};
    }
    if (op == "reg_look") {
        auto energies = json::array();
        for (auto const& e : reg.get_energies()) { energies.push_back(matrix(e)); }
        return {{"size", reg.size()}, {"names", reg.get_names()}, {"energies", energies}, {"map", pairs(reg.name_map())},
                {"nonzero", reg.has_nonzero_energy()}, {"complex", reg.any_complex_terms()},
                {"orbitals", reg.has_multiple_orbitals()}};
    }
    throw std::runtime_error("driver: unknown op " + op);
}

struct World {
    HoppingBlocks hb;
    CompressedSublattices cs;
    std::unique_ptr<SiteRegistry> sites;
    std::unique_ptr<HoppingRegistry> hops;
    SparseMatrixXcd mat;
    num::EllMatrix<cd> ell;
};

json visited(idx_t r, idx_t c, cd v) { return {r, c, num(v)}; }

json run_op(World& w, json const& o) {
    auto const op = o.at("op").get<std::string>();
    if (op == "hb_new") {
        auto map = NameMap();
        auto i = 0;
        for (auto const& n : o.at("names")) { map[n.get<std::string>()] = i++; }
        w.hb = HoppingBlocks(o.at("n").get<idx_t>(), map);
        return 0;
    }
    if (op == "hb_add") { w.hb.add(HopID(o.at("f").get<int>()), o.at("r").get<idx_t>(), o.at("c").get<idx_t>()); return 0; }
    if (op == "hb_append") {
        w.hb.append(HopID(o.at("f").get<int>()), ints(o.at("rows")), ints(o.at("cols")), o.at("herm").get<bool>());
        return 0;
    }
    if (op == "hb_reserve") { w.hb.reserve(ints(o.at("counts"))); return 0; }
    if (op == "hb_filter") { w.hb.filter(bools(o.at("keep"))); return 0; }
    if (op == "hb_sites") { w.hb.add_sites(o.at("k").get<idx_t>()); return 0; }
    if (op == "hb_look") { return look(w.hb); }
    if (op == "hb_copy") { // as it is saved to a file and read again
        w.hb = HoppingBlocks(w.hb.get_num_sites(), w.hb.get_serialized_blocks(), w.hb.get_name_map());
        return look(w.hb);
    }
    if (op == "cs_new") { w.cs = CompressedSublattices(); return 0; }
    if (op == "cs_add") { w.cs.add(SiteID(o.at("id").get<int>()), o.at("norb").get<idx_t>(), o.at("k").get<idx_t>()); return 0; }
    if (op == "cs_filter") { w.cs.filter(bools(o.at("keep"))); return 0; }
    if (op == "cs_verify") { w.cs.verify(o.at("n").get<idx_t>()); return 0; }
    if (op == "cs_start") { return w.cs.start_index(o.at("norb").get<idx_t>()); }
    if (op == "cs_look") { return look(w.cs); }
    if (op == "cs_copy") {
        w.cs = CompressedSublattices(w.cs.alias_ids(), w.cs.site_counts(), w.cs.orbital_counts());
        return look(w.cs);
    }
    if (op == "reg_new") {
        w.sites.reset();
        w.hops.reset();
        if (o.at("kind") == "site") { w.sites.reset(new SiteRegistry({}, {})); }
        else { w.hops.reset(new HoppingRegistry({}, {})); }
        return 0;
    }
    if (op.compare(0, 4, "reg_") == 0) { return w.sites ? reg_op(*w.sites, o) : reg_op(*w.hops, o); }
    if (op == "mat") {
        auto const& rows = o.at("rows");
        auto const size = static_cast<idx_t>(rows.size());
        w.mat = SparseMatrixXcd(size, o.at("cols").get<idx_t>());
        auto total = std::size_t{0};
        for (auto const& r : rows) { total += r.size(); }
        auto ins = compressed_inserter(w.mat, static_cast<idx_t>(total + o.at("spare").get<std::size_t>()));
        for (idx_t r = 0; r < size; ++r) {
            auto const& row = rows[static_cast<std::size_t>(r)];
            if (o.at("indexed").get<bool>()) {
                if (row.empty()) { continue; } // rows without elements may be left out
                ins.start_row(r);
            } else { ins.start_row(); }
            for (auto const& e : row) { ins.insert(e[0].get<idx_t>(), {e[1][0].get<double>(), e[1][1].get<double>()}); }
        }
        ins.compress();
        w.ell = num::csr_to_ell(w.mat);
        auto obs = json{{"shape", {w.mat.rows(), w.mat.cols()}}, {"max", sparse::max_nnz_per_row(w.mat)},
                        {"ell_shape", {w.ell.rows(), w.ell.cols()}}, {"ell_nnz", w.ell.nonZeros()}};
        auto stored = json::array(), each = json::array(), byrow = json::array(), ell = json::array();
        auto const loop = sparse::make_loop(w.mat);
        for (auto r = 0; r < w.mat.outerSize(); ++r) {
            auto row = json::array();
            for (auto it = sparse_row(w.mat, r); it; ++it) { stored.push_back(visited(it.row(), it.col(), it.value())); }
            loop.for_each_in_row(r, [&](idx_t c, cd v) { row.push_back({c, num(v)}); });
            byrow.push_back(row);
        }
        loop.for_each([&](idx_t r, idx_t c, cd v) { each.push_back(visited(r, c, v)); });
        w.ell.for_each([&](idx_t r, idx_t c, cd v) { ell.push_back(visited(r, c, v)); });
        obs["stored"] = stored;
        obs["each"] = each;
        obs["byrow"] = byrow;
        obs["ell"] = ell;
        return obs;
    }
    if (op == "buffered") {
        auto const loop = sparse::make_loop(w.mat);
        auto seen = json::array(), pieces = json::array();
        loop.buffered_for_each(
            o.at("size").get<idx_t>(),
            [&](idx_t r, idx_t c, cd v, idx_t n) { seen.push_back({r, c, num(v), n}); },
            [&](idx_t outer, idx_t idx, idx_t n) {
                auto again = json::array();
                loop.slice_for_each(outer, idx, n, [&](idx_t r, idx_t c, cd v, idx_t k) { again.push_back({r, c, num(v), k}); });
                pieces.push_back({{"n", n}, {"again", again}});
            });
        return {{"visited", seen}, {"pieces", pieces}};
    }
    if (op == "rows") {
        auto ell = json::array();
        w.ell.for_slice(o.at("start").get<idx_t>(), o.at("end").get<idx_t>(),
                        [&](idx_t r, idx_t c, cd v) { ell.push_back(visited(r, c, v)); });
        return {{"ell", ell}};
    }
    if (op == "pieces") {
        auto const v = o.at("v").get<std::vector<int>>();
        auto j = json::array();
        for (auto const& slice : sliced(v, o.at("size").get<idx_t>())) {
            auto p = json::array();
            for (auto const& x : slice) { p.push_back(x); }
            j.push_back(p);
        }
        return j;
    }
    throw std::runtime_error("driver: unknown op " + op);
}

json run(json const& sc) {
    auto w = World{};
    auto results = json::array();
    for (auto const& o : sc.at("ops")) {
        auto r = json::object();
        try {
            auto obs = run_op(w, o);
            r["res"] = "ok";
            r["obs"] = obs;
        } catch (json::exception const& e) {
            std::cerr << "driver: " << e.what() << "\n";
            std::exit(2);
        } catch (std::exception const& e) {
            if (std::string(e.what()).find("driver:") == 0) { std::cerr << e.what() << "\n"; std::exit(2); }
            r["res"] = "error";
            r["what"] = e.what();
        }
        results.push_back(r);
    }
    return {{"id", sc.at("id")}, {"results", results}};
}

} // namespace

int main(int argc, char** argv) { return drv::main_loop(argc, argv, run); }

CONT = r'''
#include <cstdio>
#include <cstdlib>
#include <set>
#include "system/HoppingBlocks.hpp"
#include "system/CompressedSublattices.hpp"
#include "system/Registry.hpp"
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"
using namespace cpb;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
inline ArrayXi ints(std::initializer_list<int> v) { ArrayXi a(static_cast<idx_t>(v.size())); int i = 0; for (auto x : v) a[i++] = x; return a; }
'''
seed("S30-append-sorts-only-unsorted-rows", "C19",
     [("cppcore/src/system/HoppingBlocks.cpp", """    // Each hopping must be unique
    std::sort(block.begin(), block.end());
    block.erase(""", """    // Each hopping must be unique
    auto const first_new = block.end() - rows.size();
    if (!std::is_sorted(first_new, block.end())) { std::sort(block.begin(), block.end()); }
    block.erase(""")],
     CONT + r'''
int main() {
    auto hb = HoppingBlocks(4, NameMap{{"t", 0}});
    hb.append(HopID(0), ints({0, 1}), ints({1, 2}), true);
    hb.append(HopID(0), ints({0, 1, 2}), ints({1, 2, 3}), true);
    REQUIRE(hb.nnz() == 3);
    hb.append(HopID(0), ints({3, 0}), ints({0, 1}), true);
    REQUIRE(hb.nnz() == 4);
}
''', "hoppings which are appended in order to a family which already has some of them",
     "the same hopping is there twice")
seed("S31-empty-ell-rows-repeat-elements", "C19",
     [("cppcore/include/numeric/ellmatrix.hpp", """        for (; n < ell.nnz_per_row; ++n) {
            ell.data(row, n) = scalar_t{0};
            ell.indices(row, n) = (row > 0) ? ell.indices(row - 1, n) : 0;
        }
""", """        for (; n < ell.nnz_per_row; ++n) {
            ell.data(row, n) = (row > 0 && n > 0) ? scalar_t{0} : ell.data(0, n);
            ell.indices(row, n) = (row > 0) ? ell.indices(row - 1, n) : 0;
        }
""")],
     CONT + r'''
int main() {
    auto m = SparseMatrixXd(2, 2);
    m.insert(0, 0) = 5;
    m.makeCompressed();
    auto const ell = num::csr_to_ell(m);
    auto total = 0.0;
    ell.for_each([&](idx_t, idx_t, double v) { total += v; });
    REQUIRE(total == 5);
}
''', "a row without elements", "elements which do not exist")
seed("S32-filter-keeps-empty-blocks", "C19",
     [("cppcore/src/system/HoppingBlocks.cpp", """    num_sites = new_index;
    for (auto& block : blocks) {
        block.erase(""", """    num_sites = new_index;
    for (auto& block : blocks) {
        if (block.empty() || (keep[block.front().row] && keep[block.back().row] && block.size() < 3)) { continue; }
        block.erase(""")],
     CONT + r'''
int main() {
    auto hb = HoppingBlocks(4, NameMap{{"t", 0}});
    hb.append(HopID(0), ints({1}), ints({2}), true);
    VectorX<bool> keep(4); keep << false, true, true, true;
    hb.filter(keep);
    REQUIRE(hb.get_serialized_blocks()[0].first[0] == 0);
}
''', "a family with one or two hoppings whose first sites are kept", "indices of sites which were renumbered")
seed("S33-flags-of-diagonals", "C19",
     [("cppcore/src/system/Registry.cpp", """        return !energy.imag().isZero();
""", """        return !energy.imag().diagonal().isZero();
""")],
     CONT + r'''
int main() {
    auto reg = HoppingRegistry({}, {});
    MatrixXcd m = MatrixXcd::Zero(2, 2);
    m(0, 1) = std::complex<double>(0, 1);
    reg.register_family("t", m);
    REQUIRE(reg.any_complex_terms());
}
''', "a matrix with a complex off-diagonal element only", "complex energies are taken for real ones")

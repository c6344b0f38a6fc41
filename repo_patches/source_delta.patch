From 40cd89a9c158d54ccdd885df3188012fdf658b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 01/51] fix: an alias of an alias must resolve to the original
 sublattice

---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..fe30e1b 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // an alias of an alias belongs to the same original
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From 13c656c9fa203c04883785e58a502c9db3aaa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 02/51] fix: don't keep the anonymous hopping family of a
 rejected hopping

---
 cppcore/src/Lattice.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index fe30e1b..725adbb 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,6 +105,7 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
+    auto is_new_family = false;
     auto const hopping_name = [&] {
         // Look for an existing hopping ID with the same energy
         auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
@@ -117,11 +118,18 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         } else {
             auto const name = "__anonymous__{}"_format(hoppings.size());
             register_hopping_energy(name, energy);
+            is_new_family = true;
             return name;
         }
     }();
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        // A rejected hopping must not leave an unused anonymous family behind
+        if (is_new_family) { hoppings.erase(hopping_name); }
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From 7e4de8ea33fbb6b6c54976c9dcbdc7c905ea52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 03/51] fix: site registry and site ids of a lattice where an
 alias precedes an original sublattice

---
 cppcore/include/Lattice.hpp           |  1 +
 cppcore/include/system/Foundation.hpp |  1 +
 cppcore/src/Lattice.cpp               | 38 +++++++++++++++++++--------
 cppcore/src/leads/Structure.cpp       |  2 +-
 cppcore/src/system/System.cpp         |  2 +-
 5 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/cppcore/include/Lattice.hpp b/cppcore/include/Lattice.hpp
index 8cf72cd..ef245ae 100644
--- a/cppcore/include/Lattice.hpp
+++ b/cppcore/include/Lattice.hpp
@@ -173,6 +173,7 @@ public:
         SubID unique_id;
         SubAliasID alias_id;
         std::vector<Hopping> hoppings;
+        SiteID site_id; ///< corresponds to `Lattice::site_registry()`, shared by all aliases
     };
 
     using Sites = std::vector<Site>;
diff --git a/cppcore/include/system/Foundation.hpp b/cppcore/include/system/Foundation.hpp
index 2224985..39f4431 100644
--- a/cppcore/include/system/Foundation.hpp
+++ b/cppcore/include/system/Foundation.hpp
@@ -133,6 +133,7 @@ public:
     idx_t get_flat_idx() const { return flat_idx; }
 
     SubAliasID get_alias_id() const { return foundation->unit_cell[sub_idx].alias_id; }
+    SiteID get_site_id() const { return foundation->unit_cell[sub_idx].site_id; }
     storage_idx_t get_norb() const { return foundation->unit_cell[sub_idx].norb; }
 
     Cartesian get_position() const { return foundation->positions[flat_idx]; }
diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 725adbb..ae477f4 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -18,6 +18,23 @@ namespace {
             }
         }
     }
+
+    /// IDs of the original sublattices (not aliases) in ascending order: the position in this
+    /// vector is the `SiteID` of the sublattice, i.e. its index in the site registry
+    std::vector<SubID> original_sublattice_ids(Lattice::Sublattices const& sublattices) {
+        auto ids = std::vector<SubID>();
+        for (auto const& pair : sublattices) {
+            auto const& sub = pair.second;
+            if (SubID(sub.alias_id) == sub.unique_id) { ids.push_back(sub.unique_id); }
+        }
+        std::sort(ids.begin(), ids.end());
+        return ids;
+    }
+
+    SiteID find_site_id(std::vector<SubID> const& original_ids, SubAliasID alias_id) {
+        auto const it = std::lower_bound(original_ids.begin(), original_ids.end(), SubID(alias_id));
+        return SiteID(it - original_ids.begin());
+    }
 } // anonymous namespace
 
 Lattice::Lattice(Cartesian a1, Cartesian a2, Cartesian a3) {
@@ -253,21 +270,17 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
-        }
-    );
+    auto const original_ids = original_sublattice_ids(sublattices);
 
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    auto energies = std::vector<MatrixXcd>(original_ids.size());
+    auto names = std::vector<std::string>(original_ids.size());
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
         if (SubID(sub.alias_id) != sub.unique_id) { continue; }
 
-        energies.at(sub.unique_id.value()) = sub.energy;
-        names.at(sub.unique_id.value()) = pair.first;
+        auto const site_id = find_site_id(original_ids, sub.alias_id);
+        energies.at(site_id.value()) = sub.energy;
+        names.at(site_id.value()) = pair.first;
     }
     return {energies, names};
 }
@@ -294,12 +307,15 @@ SubID Lattice::make_unique_sublattice_id(string_view name) {
 }
 
 OptimizedUnitCell::OptimizedUnitCell(Lattice const& lattice) : sites(lattice.nsub()) {
+    auto const original_ids = original_sublattice_ids(lattice.get_sublattices());
+
     // Populate sites in ascending unique_id order
     for (auto const& pair : lattice.get_sublattices()) {
         auto const& sub = pair.second;
         auto const idx = sub.unique_id.as<size_t>();
         sites[idx] = {sub.position, /*norb*/static_cast<storage_idx_t>(sub.energy.cols()),
-                      sub.unique_id, sub.alias_id, /*hoppings*/{}};
+                      sub.unique_id, sub.alias_id, /*hoppings*/{},
+                      find_site_id(original_ids, sub.alias_id)};
     }
 
     // Sites with equal `alias_id` will be merged in the final system. Stable sort
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..770ca56 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -37,7 +37,7 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
             auto const index = lead_index(finalized_indices[site]);
 
             system.positions[index] = site.get_position() + shift;
-            system.compressed_sublattices.add(SiteID{site.get_alias_id()}, site.get_norb());
+            system.compressed_sublattices.add(site.get_site_id(), site.get_norb());
 
             site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
                 auto const neighbor_index = lead_index(finalized_indices[neighbor]);
diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..5367daf 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -111,7 +111,7 @@ void populate_system(System& system, Foundation const& foundation) {
         if (index < 0) { continue; } // invalid site
 
         system.positions[index] = site.get_position();
-        system.compressed_sublattices.add(SiteID{site.get_alias_id()}, site.get_norb());
+        system.compressed_sublattices.add(site.get_site_id(), site.get_norb());
 
         site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
             auto const neighbor_index = finalized_indices[neighbor];
-- 
2.43.0


From aa7d82668d31eeeee47fd9637a478aa61c1b2af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/51] fix: a rejected primitive, shape or generator must not
 change the model

---
 cppcore/src/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..ff6e350 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -28,8 +28,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     site_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From 3b49d4d902c3f06e1178d150cacc35d0872e052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 05/51] fix: replacing the shape of a model must also replace
 its lattice offset

---
 cppcore/src/Model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index ff6e350..ba101ec 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -28,7 +28,9 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
-    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset);
+    // The new shape replaces any previous one, including its lattice offset
+    auto const base_offset = Cartesian(lattice.get_offset() - shape.lattice_offset);
+    lattice.set_offset(base_offset + new_shape.lattice_offset);
     shape = new_shape;
     clear_structure();
 }
-- 
2.43.0


From 2098d97666f43fcd1a240328a7c6e72177227b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 06/51] fix: clearing modifiers must discard the results which
 were built with them

---
 cppcore/include/Model.hpp |  6 +++---
 cppcore/src/Model.cpp     | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..92748eb 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,9 +78,9 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
-    void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
+    void clear_all_modifiers();
 
 private:
     std::shared_ptr<System> make_system() const;
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index ba101ec..82ad870 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -141,6 +141,24 @@ std::string Model::report() {
                        num_sites, system_build_time, nnz, hamiltonian_build_time);
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // Only the lattice families remain: generators are structure modifiers
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    clear_hamiltonian();
+}
+
+void Model::clear_all_modifiers() {
+    clear_structure_modifiers();
+    clear_hamiltonian_modifiers();
+}
+
 std::shared_ptr<System> Model::make_system() const {
     auto foundation = shape ? Foundation(lattice, shape)
                             : Foundation(lattice, primitive);
@@ -214,6 +232,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false;
 }
 
 } // namespace cpb
-- 
2.43.0


From 03e5b0b960b77259341e92b071c784944c53e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 07/51] fix: removing sites after a generator must renumber the
 existing hoppings

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..715a3df 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -78,13 +78,23 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-    using std::begin; using std::end;
+    // Indices of the remaining sites after all the removed ones have been taken out
+    auto new_indices = ArrayXi(keep.size());
+    auto new_index = storage_idx_t{0};
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_indices[i] = new_index;
+        if (keep[i]) { ++new_index; }
+    }
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
+    num_sites = new_index;
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_indices[coo.row], new_indices[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From 1d0342202af696c399f6372ef05c1e8cf0b810cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 08/51] fix: the boundary hoppings must account for generated
 sites

---
 cppcore/src/system/StructureModifiers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..b0cb56c 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -55,6 +55,9 @@ void apply(SiteGenerator const& g, System& s) {
     auto const nsites = new_positions.size();
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& boundary : s.boundaries) {
+        boundary.hopping_blocks.add_sites(nsites);
+    }
     s.positions = concat(s.positions, new_positions);
 }
 
-- 
2.43.0


From 72ec3e02934588b34ad0d9d1ab724f29fd2ca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 09/51] fix: find_nearest must not return a site of another
 sublattice

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index 5367daf..67dda03 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("There are no sites of sublattice '" + sublattice_name + "'");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From bc4e3f35802220d4633b3ebc5ae6803b087bb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 10/51] fix: the onsite matrix of generated sites must be made
 Hermitian

---
 cppcore/src/system/Registry.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..1fea332 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -7,12 +7,14 @@ namespace cpb {
 
 namespace {
 
-void check_energy(SiteRegistry const&, MatrixXcd const& energy) {
+MatrixXcd checked_energy(SiteRegistry const&, MatrixXcd const& energy) {
     detail::check_onsite_energy(energy);
+    return energy.selfadjointView<Eigen::Upper>(); // may be given as upper triangular
 }
 
-void check_energy(HoppingRegistry const&, MatrixXcd const& energy) {
+MatrixXcd checked_energy(HoppingRegistry const&, MatrixXcd const& energy) {
     detail::check_hopping_energy(energy);
+    return energy;
 }
 
 template<class ID>
@@ -31,7 +33,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     if (name.empty()) {
         throw std::logic_error("{} family name can't be blank"_format(kind<ID>()));
     }
-    check_energy(*this, energy);
+    auto const full_energy = checked_energy(*this, energy);
 
     auto const not_unique = std::find(names.begin(), names.end(), name) != names.end();
     if (not_unique) {
@@ -39,7 +41,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     }
 
     names.push_back(name);
-    energies.push_back(energy);
+    energies.push_back(full_energy);
 }
 
 template<class ID>
-- 
2.43.0


From 9f878a5b7aa0e6dfa1939e3f5611b118b91268a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:50 +0000
Subject: [PATCH 11/51] fix: keep the direction of generated hoppings with a
 non-Hermitian energy

---
 cppcore/include/system/HoppingBlocks.hpp  | 5 +++--
 cppcore/src/system/HoppingBlocks.cpp      | 6 +++---
 cppcore/src/system/StructureModifiers.cpp | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cppcore/include/system/HoppingBlocks.hpp b/cppcore/include/system/HoppingBlocks.hpp
index 2023271..7e7d7bc 100644
--- a/cppcore/include/system/HoppingBlocks.hpp
+++ b/cppcore/include/system/HoppingBlocks.hpp
@@ -124,8 +124,9 @@ public:
         blocks[family_id.as<size_t>()].push_back({row, col});
     }
 
-    /// Append a range of coordinates to the given family block
-    void append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols);
+    /// Append a range of coordinates to the given family block. The direction of a hopping can
+    /// only be ignored (to keep the upper triangular format) if the family energy `is_hermitian`.
+    void append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols, bool is_hermitian = true);
 
     /// Remove sites for which `keep == false`
     void filter(VectorX<bool> const& keep);
diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 715a3df..3b8cdba 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -56,7 +56,7 @@ void HoppingBlocks::reserve(ArrayXi const& counts) {
     }
 }
 
-void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
+void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols, bool is_hermitian) {
     if (rows.size() != cols.size()) {
         throw std::runtime_error("When generating hoppings, the number of "
                                  "`from` and `to` indices must be equal");
@@ -68,11 +68,11 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
     for (auto i = 0; i < rows.size(); ++i) {
         auto m = rows[i];
         auto n = cols[i];
-        if (m > n) { std::swap(m, n); } // upper triangular format
+        if (is_hermitian && m > n) { std::swap(m, n); } // upper triangular format
         block.emplace_back(m, n);
     }
 
-    // Maintain upper triangular format
+    // Each hopping must be unique
     std::sort(block.begin(), block.end());
     block.erase(std::unique(block.begin(), block.end()), block.end());
 }
diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index b0cb56c..df053b2 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -65,8 +65,9 @@ void apply(HoppingGenerator const& g, System& s) {
     detail::remove_invalid(s);
 
     auto pairs = g.make(s);
+    auto const is_hermitian = g.energy.rows() == g.energy.cols() && g.energy == g.energy.adjoint();
     s.hopping_blocks.append(s.hopping_registry.id(g.name),
-                            std::move(pairs.from), std::move(pairs.to));
+                            std::move(pairs.from), std::move(pairs.to), is_hermitian);
 }
 
 } // namespace cpb
-- 
2.43.0


From 494ca157f699f5f8c78993a3f1d41c29b5d5041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 12/51] fix: Hamiltonian indices of hoppings to generated sites

---
 .../hamiltonian/HamiltonianModifiers.hpp      | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..310e728 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -163,10 +163,7 @@ public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
         : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+          sublattices(system.compressed_sublattices) {}
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
@@ -174,25 +171,32 @@ public:
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = 0; i < term_size.row; ++i) {
+            for (auto j = 0; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
-
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
-                        lambda(ham_row, ham_col, value);
+                        lambda(ham_index(coo.row) + i, ham_index(coo.col) + j, value);
                     }
                 }
             }
         }
     }
 
+private:
+    /// Hamiltonian index of the first orbital of a site. The number of sublattices is small.
+    idx_t ham_index(idx_t sys_index) const {
+        for (auto const& sub : sublattices) {
+            if (sys_index < sub.sys_end()) {
+                return sub.ham_start() + (sys_index - sub.sys_start()) * sub.num_orbitals();
+            }
+        }
+        throw std::runtime_error("IndexTranslator: this should never happen");
+    }
+
 private:
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    CompressedSublattices const& sublattices; ///< not sorted by norb if there are generated sites
 };
 
 /**
@@ -244,7 +248,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From 24a4da2364943e2e877062f3c5b196804c7c3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 13/51] fix: boundary hoppings which reach over more than one
 cell

---
 cppcore/src/system/Symmetry.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..7b3d5c2 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -45,6 +45,14 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
 
+    // the longest reach of any hopping, in number of unit cells
+    Index3D reach = Index3D::Zero();
+    for (auto const& sublattice : lattice.optimized_unit_cell()) {
+        for (auto const& hopping : sublattice.hoppings) {
+            reach = reach.cwiseMax(hopping.relative_index.cwiseAbs());
+        }
+    }
+
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
         if (direction == Index3D::Zero()) {
@@ -60,10 +68,11 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+            auto const width = std::min(reach[n], symmetry_area.middle[n]);
             if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
+                boundary_slice[n] = {symmetry_area.left[n], symmetry_area.left[n] + width};
             else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+                boundary_slice[n] = {symmetry_area.right[n] + 1 - width, symmetry_area.right[n] + 1};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -80,8 +89,20 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     auto const masks = detail::make_masks(enabled_directions, lattice.ndim());
     for (auto const& sublattice : lattice.optimized_unit_cell()) {
         for (auto const& hopping : sublattice.hoppings) {
+            // a hopping connects cells which are at least `near` and at most `far` periods apart
+            auto const& rel = hopping.relative_index;
+            Index3D near, far;
+            for (auto n = 0; n < rel.size(); ++n) {
+                auto const period = std::max(symmetry_area.middle[n], 1);
+                near[n] = rel[n] / period;
+                far[n] = near[n] + ((rel[n] % period > 0) - (rel[n] % period < 0));
+            }
+
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                for (auto const& far_mask : masks) {
+                    Index3D const nearest = near + (far - near).cwiseProduct(far_mask);
+                    add_translation(nearest.cwiseProduct(mask));
+                }
             }
         }
     }
-- 
2.43.0


From 09e2424500abe9658175c3fc7d91b8d724b2770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 14/51] fix: a periodic cell which is larger than the
 foundation

---
 cppcore/src/system/Symmetry.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 7b3d5c2..36f8f94 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -68,11 +68,19 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+            if (direction[n] == 0) { continue; }
+
             auto const width = std::min(reach[n], symmetry_area.middle[n]);
-            if (direction[n] > 0)
-                boundary_slice[n] = {symmetry_area.left[n], symmetry_area.left[n] + width};
-            else if (direction[n] < 0)
-                boundary_slice[n] = {symmetry_area.right[n] + 1 - width, symmetry_area.right[n] + 1};
+            auto start = (direction[n] > 0) ? symmetry_area.left[n]
+                                            : symmetry_area.right[n] + 1 - width;
+            auto end = start + width;
+
+            // the periodic cell may be larger than the foundation
+            start = std::max(start, 0);
+            end = std::min(end, foundation.get_spatial_size()[n]);
+            if (start >= end) { return; } // no sites there
+
+            boundary_slice[n] = {start, end};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
-- 
2.43.0


From ca8b200daf729f352e166fed54edb152f80167d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 15/51] fix: conjugate the lead hoppings which are given in the
 opposite direction

---
 cppcore/include/leads/HamiltonianPair.hpp | 28 +++++++++++++----------
 cppcore/include/leads/Structure.hpp       |  6 +++++
 cppcore/src/leads/Leads.cpp               |  2 +-
 cppcore/src/leads/Structure.cpp           | 21 +++++++++++++----
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..d3681d2 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "hamiltonian/Hamiltonian.hpp"
+#include "leads/Structure.hpp"
 
 namespace cpb { namespace leads {
 
@@ -15,18 +16,21 @@ namespace detail {
     }
 
     template<class scalar_t>
-    Hamiltonian make_h1(System const& system, Lattice const& lattice,
+    Hamiltonian make_h1(Structure const& lead, Lattice const& lattice,
                         HamiltonianModifiers const& modifiers) {
         auto h1 = std::make_shared<SparseMatrixX<scalar_t>>();
         auto& matrix = *h1;
 
-        auto const size = system.hamiltonian_size();
+        auto const size = lead.system.hamiltonian_size();
         matrix.resize(size, size);
         matrix.reserve(ArrayXi::Constant(size, lattice.max_hoppings()));
 
-        modifiers.apply_to_hoppings<scalar_t>(system, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
+        modifiers.apply_to_hoppings<scalar_t>(lead.outgoing, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
             matrix.insert(i, j) = hopping;
         });
+        modifiers.apply_to_hoppings<scalar_t>(lead.incoming, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
+            matrix.insert(j, i) = num::conjugate(hopping);
+        });
 
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
@@ -42,23 +46,23 @@ struct HamiltonianPair {
     Hamiltonian h0; ///< hoppings within the unit cell
     Hamiltonian h1; ///< hoppings between unit cells
 
-    HamiltonianPair(System const& lead_system, Lattice const& lattice,
+    HamiltonianPair(Structure const& lead, Lattice const& lattice,
                     HamiltonianModifiers const& modifiers, bool is_double, bool is_complex) {
         if (is_double) {
             if (is_complex) {
-                h0 = detail::make_h0<std::complex<double>>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<std::complex<double>>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<std::complex<double>>(lead.system, lattice, modifiers);
+                h1 = detail::make_h1<std::complex<double>>(lead, lattice, modifiers);
             } else {
-                h0 = detail::make_h0<double>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<double>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<double>(lead.system, lattice, modifiers);
+                h1 = detail::make_h1<double>(lead, lattice, modifiers);
             }
         } else {
             if (is_complex) {
-                h0 = detail::make_h0<std::complex<float>>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<std::complex<float>>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<std::complex<float>>(lead.system, lattice, modifiers);
+                h1 = detail::make_h1<std::complex<float>>(lead, lattice, modifiers);
             } else {
-                h0 = detail::make_h0<float>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<float>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<float>(lead.system, lattice, modifiers);
+                h1 = detail::make_h1<float>(lead, lattice, modifiers);
             }
         }
     }
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index 33409c2..ba02512 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -13,6 +13,12 @@ struct Structure {
     std::vector<int> indices; ///< map from lead Hamiltonian indices to main system indices
     System system; ///< description of lead sites and boundaries
 
+    /// The boundary hoppings sorted by the direction in which the hopping energy is given:
+    ///  - from this unit cell to the next one, towards the main system
+    System outgoing;
+    ///  - from the next unit cell (the positions are the ones of that cell) to this one
+    System incoming;
+
     Structure(Foundation const& foundation, Spec const& spec);
 
     /// Return the lead index corresponding to the main system Hamiltonian index
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..12da8a4 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -25,7 +25,7 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
     }
 
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        hamiltonians.emplace_back(structure, lattice, modifiers, is_double, is_complex);
     }
 }
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index 770ca56..7e3fbb6 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -5,7 +5,8 @@ namespace cpb { namespace leads {
 
 Structure::Structure(Foundation const& foundation, Spec const& lead)
     : system(foundation.get_lattice().site_registry(),
-             foundation.get_lattice().hopping_registry()) {
+             foundation.get_lattice().hopping_registry()),
+      outgoing(system), incoming(system) {
     auto const& lattice = foundation.get_lattice();
     auto const& finalized_indices = foundation.get_finalized_indices();
 
@@ -49,9 +50,12 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
         system.compressed_sublattices.verify(size);
     }
 
-    system.boundaries.push_back([&]{
+    /*boundary*/ {
         auto const size = static_cast<int>(indices.size());
         auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+        auto outgoing_blocks = hopping_blocks;
+        auto incoming_blocks = hopping_blocks;
+        outgoing = incoming = system;
 
         for (auto const& site : slice) {
             if (!junction.is_valid[site.get_slice_idx()]) {
@@ -65,16 +69,25 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
             }();
 
             auto const index = lead_index(finalized_indices[site]);
+            incoming.positions[index] = site.get_position();
             shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
                 auto const neighbor_index = lead_index(finalized_indices[neighbor]);
                 if (neighbor_index >= 0) {
                     hopping_blocks.add(hopping.family_id, index, neighbor_index);
+                    if (hopping.is_conjugate) {
+                        incoming_blocks.add(hopping.family_id, neighbor_index, index);
+                    } else {
+                        outgoing_blocks.add(hopping.family_id, index, neighbor_index);
+                    }
                 }
             });
         }
 
-        return System::Boundary{hopping_blocks, shift};
-    }());
+        outgoing.boundaries.push_back({outgoing_blocks, shift});
+        incoming.boundaries.push_back({incoming_blocks, -shift});
+
+        system.boundaries.push_back({hopping_blocks, shift});
+    }
 }
 
 }} // namespace cpb::leads
-- 
2.43.0


From 6b6ea1ab411af29658d82625b7586b890df7210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 16/51] fix: a lead stays where it was attached when a later
 lead fills in sites near it

---
 cppcore/include/leads/Leads.hpp     |  3 ++-
 cppcore/include/leads/Spec.hpp      | 10 +++++-----
 cppcore/include/leads/Structure.hpp |  2 +-
 cppcore/src/leads/Leads.cpp         | 10 ++++++----
 cppcore/src/leads/Spec.cpp          | 13 ++++++++-----
 cppcore/src/leads/Structure.cpp     |  4 ++--
 6 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index be618c0..7b89891 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -29,6 +29,7 @@ public:
  */
 class Leads {
     std::vector<leads::Spec> specs;
+    std::vector<leads::detail::Junction> junctions;
     std::vector<leads::Structure> structures;
     std::vector<leads::HamiltonianPair> hamiltonians;
 
@@ -43,7 +44,7 @@ public:
     void add(int direction, Shape const& shape) { specs.emplace_back(direction, shape); }
 
     /// Modify the `foundation` so that all leads can be attached
-    void create_attachment_area(Foundation& foundation) const;
+    void create_attachment_area(Foundation& foundation);
 
     /// Create the structure of each lead
     void make_structure(Foundation const& foundation);
diff --git a/cppcore/include/leads/Spec.hpp b/cppcore/include/leads/Spec.hpp
index f1e61a8..c34e69d 100644
--- a/cppcore/include/leads/Spec.hpp
+++ b/cppcore/include/leads/Spec.hpp
@@ -26,11 +26,6 @@ struct Spec {
     Spec(int direction, Shape const& shape);
 };
 
-/**
- Create a lead attachment area in the foundation
- */
-void create_attachment_area(Foundation& foundation, Spec const& spec);
-
 namespace detail {
     /// Return the slice of the foundation which contains the shape
     SliceIndex3D shape_slice(Foundation const& foundation, Shape const& shape);
@@ -46,4 +41,9 @@ namespace detail {
     };
 } // namespace detail
 
+/**
+ Create a lead attachment area in the foundation and return the junction where it's attached
+ */
+detail::Junction create_attachment_area(Foundation& foundation, Spec const& spec);
+
 }} // namespace cpb::leads
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index ba02512..7d09b36 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -19,7 +19,7 @@ struct Structure {
     ///  - from the next unit cell (the positions are the ones of that cell) to this one
     System incoming;
 
-    Structure(Foundation const& foundation, Spec const& spec);
+    Structure(Foundation const& foundation, Spec const& spec, detail::Junction const& junction);
 
     /// Return the lead index corresponding to the main system Hamiltonian index
     int lead_index(int system_index) const {
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 12da8a4..b6913a5 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -2,9 +2,11 @@
 
 namespace cpb {
 
-void Leads::create_attachment_area(Foundation& foundation) const {
+void Leads::create_attachment_area(Foundation& foundation) {
+    junctions.clear();
     for (auto const& spec : specs) {
-        leads::create_attachment_area(foundation, spec);
+        // A lead which is added later may change the foundation near this one
+        junctions.push_back(leads::create_attachment_area(foundation, spec));
     }
 }
 
@@ -13,8 +15,8 @@ void Leads::make_structure(Foundation const& foundation) {
         return;
     }
 
-    for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+    for (auto i = size_t{0}; i < specs.size(); ++i) {
+        structures.emplace_back(foundation, specs[i], junctions[i]);
     }
 }
 
diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 14951bd..4748494 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -8,18 +8,19 @@ Spec::Spec(int direction, Shape const& shape)
       sign(direction != 0 ? direction / abs(direction) : 0),
       shape(shape) {}
 
-void create_attachment_area(Foundation& foundation, Spec const& spec) {
+detail::Junction create_attachment_area(Foundation& foundation, Spec const& spec) {
     auto const size = foundation.get_spatial_size();
     auto const step = -spec.sign;
     auto const end = (step > 0) ? size[spec.axis] : -1;
 
-    auto junction = detail::Junction(foundation, spec);
+    auto const junction = detail::Junction(foundation, spec);
+    auto is_valid = junction.is_valid;
     auto slice = foundation[junction.slice_index];
 
     // Fill in the foundation until all lead sites can be connected to foundation sites
     for (; slice[spec.axis] != end; slice[spec.axis] += step) {
         for (auto& site : slice) {
-            if (!junction.is_valid[site.get_slice_idx()])
+            if (!is_valid[site.get_slice_idx()])
                 continue;
 
             if (!site.is_valid()) {
@@ -27,11 +28,11 @@ void create_attachment_area(Foundation& foundation, Spec const& spec) {
                 site.set_valid(true);
             } else {
                 // Stop once we hit an existing site on the lead's path
-                junction.is_valid[site.get_slice_idx()] = false;
+                is_valid[site.get_slice_idx()] = false;
             }
         }
 
-        if (none_of(junction.is_valid)) {
+        if (none_of(is_valid)) {
             break;
         }
     }
@@ -39,6 +40,8 @@ void create_attachment_area(Foundation& foundation, Spec const& spec) {
     if (slice[spec.axis] == end) {
         throw std::runtime_error("Can't attach lead: partially misses main structure");
     }
+
+    return junction;
 }
 
 namespace detail {
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index 7e3fbb6..d86bbd7 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -3,7 +3,8 @@
 
 namespace cpb { namespace leads {
 
-Structure::Structure(Foundation const& foundation, Spec const& lead)
+Structure::Structure(Foundation const& foundation, Spec const& lead,
+                     detail::Junction const& junction)
     : system(foundation.get_lattice().site_registry(),
              foundation.get_lattice().hopping_registry()),
       outgoing(system), incoming(system) {
@@ -11,7 +12,6 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
     auto const& finalized_indices = foundation.get_finalized_indices();
 
     auto const shift = Cartesian(static_cast<float>(lead.sign) * lattice.vector(lead.axis));
-    auto const junction = detail::Junction(foundation, lead);
     auto const slice = foundation[junction.slice_index];
 
     indices = [&]{
-- 
2.43.0


From 2842d8a362e2a27e7e6ec6325c94bfe407c7130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 17/51] fix: a shape must include the sites which are far from
 the origin of their unit cell

---
 cppcore/src/system/Foundation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 8f6df1e..73f5ea9 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -18,6 +18,18 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     lower_bound.head(ndim) -= 1;
     upper_bound.head(ndim) += 1;
 
+    // The sites of a unit cell may also be far from its origin
+    for (auto const& pair : lattice.get_sublattices()) {
+        Cartesian const position = lattice.get_offset() + pair.second.position;
+        for (auto const& point : shape.vertices) {
+            auto const v = lattice.translate_coordinates(point - position);
+            Array3i const first = v.array().ceil().cast<int>();
+            Array3i const last = v.array().floor().cast<int>();
+            lower_bound = (first < lower_bound).select(first, lower_bound);
+            upper_bound = (last > upper_bound).select(last, upper_bound);
+        }
+    }
+
     return {lower_bound, upper_bound};
 }
 
-- 
2.43.0


From dcc979e8f306de3ec7f634022e1cf933eae308c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 18/51] fix: a lead shape may reach outside of the foundation
 or be entirely outside of it

---
 cppcore/src/leads/Spec.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 4748494..f972ce1 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -55,7 +55,9 @@ SliceIndex3D shape_slice(Foundation const& foundation, Shape const& shape) {
     for (auto i = 0; i < slice_index.ndims(); ++i) {
         auto const lead_start = lead_bounds.first[i] - foundation_bounds.first[i];
         auto const lead_end = (lead_bounds.second[i] + 1) - foundation_bounds.first[i];
-        slice_index[i] = {std::max(lead_start, 0), std::min(lead_end, size[i])};
+        auto const start = std::max(lead_start, 0);
+        auto const end = std::min(lead_end, size[i]);
+        slice_index[i] = {start, std::max(start, end)}; // empty if the lead is outside
     }
     return slice_index;
 }
@@ -94,7 +96,9 @@ Junction::Junction(Foundation const& foundation, Spec const& spec)
     // The lead's shape.contains() should be invoked in the center of the shape slice
     auto si3d = shape_slice(foundation, spec.shape);
     auto const si = si3d[spec.axis];
-    si3d[spec.axis] = (si.start + si.end) / 2;
+    auto const last = foundation.get_spatial_size()[spec.axis] - 1;
+    // ... or as close to it as possible: the center may be outside of the foundation
+    si3d[spec.axis] = std::min(std::max((si.start + si.end) / 2, 0), last);
     auto const slice = foundation[si3d];
     is_valid = spec.shape.contains(slice.positions());
 
-- 
2.43.0


From 14b42a59065e4ddce2fc67541beb66ce7bfe1226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 19/51] fix: KPM reordering of a Hamiltonian which consists of
 disconnected parts

The index queue ran out before all rows were filled: it was read out of bounds,
and destination indices in another part did not have a place in the slice map.
---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..73059c2 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -104,9 +104,18 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
 
     // Fill the reordered matrix row by row
     auto const h_view = sparse::make_loop(h);
+    auto next_unmapped = storage_idx_t{0};
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
         auto diagonal_inserted = false;
 
+        // The indices reachable from the source are exhausted, but the system has more of them:
+        // the Hamiltonian consists of several disconnected parts. Continue with the next one.
+        if (h2_row == static_cast<idx_t>(index_queue.size())) {
+            while (reorder_map[next_unmapped] >= 0) { ++next_unmapped; }
+            reorder_map[next_unmapped] = h2_row;
+            index_queue.push_back(next_unmapped);
+        }
+
         // Loop over elements in the row of the original matrix
         // corresponding to the h2_row of the reordered matrix
         auto const row = index_queue[h2_row];
@@ -145,6 +154,10 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     optimized_matrix = h2.markAsRValue();
 
     slice_border_indices.pop_back(); // the last element is a duplicate of the second to last
+    if (slice_border_indices.back() != system_size) {
+        // all the parts which are not reachable from the source form the last slice
+        slice_border_indices.push_back(static_cast<storage_idx_t>(system_size));
+    }
     slice_border_indices.shrink_to_fit();
 
     optimized_idx = reorder_indices(idx, reorder_map);
-- 
2.43.0


From 7378fd3c98518bb1418379bd884ef37cabc2a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:01 +0000
Subject: [PATCH 20/51] fix: the Green's function element (row, col) of a
 complex Hamiltonian was element (col, row)

---
 cppcore/src/kpm/Core.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index c7b5ae4..dbd612b 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -12,6 +12,13 @@ namespace {
             return {config.min_energy, config.max_energy}; // user-defined bounds
         }
     }
+
+    struct ConjugateMoments {
+        template<class scalar_t>
+        void operator()(std::vector<ArrayX<scalar_t>>& moments_vector) const {
+            for (auto& moments : moments_vector) { moments = moments.conjugate().eval(); }
+        }
+    };
 } // anonymous namespace
 
 Core::Core(Hamiltonian const& h, Compute const& compute, Config const& config)
@@ -111,6 +118,8 @@ std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& c
     } else {
         auto moments_vector = MultiUnitMoments(num_moments, oh.idx());
         timed_compute(&moments_vector, unit_starter(oh), config.algorithm);
+        // The moments are `<col|Tn(H)|row>`, but the matrix element is `<row|Tn(H)|col>`
+        var::apply_visitor(ConjugateMoments{}, moments_vector.data);
         apply_damping(moments_vector, config.kernel);
         return reconstruct<GreensFunction>(moments_vector, energy, scale);
     }
-- 
2.43.0


From 30011fa4437bf8cb7ce43b1d2dbe486ee55499e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 21/51] fix: KPM of a Hamiltonian without any elements (ELLPACK
 matrix with zero width)

---
 cppcore/include/numeric/ellmatrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..2fb0dac 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -63,8 +63,10 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // At least one element per row (it may be an explicit zero): the vectorized KPM kernels
+    // are split before the last one and would not do anything for a matrix without elements.
+    auto const nnz_per_row = std::max(idx_t{1}, static_cast<idx_t>(sparse::max_nnz_per_row(csr)));
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 34e4d33b085f9c9d96212e1c454bb7330c9fe3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 22/51] fix: KPM accepted Green's function indices one past the
 end of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..dba2f9d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From 48a49fce8c57e351dea8ad935f97c9723c9c0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:29 +0000
Subject: [PATCH 23/51] fix: KPM conductivity accepted directions with one
 invalid coordinate and crashed

---
 cppcore/src/KPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index dba2f9d..72633e7 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -131,8 +131,8 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
 ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broadening,
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
-    auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    auto const is_xyz = [](char c) { return c == 'x' || c == 'y' || c == 'z'; };
+    if (direction.size() != 2 || !std::all_of(direction.begin(), direction.end(), is_xyz)) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From f056ecd5d44a0c557dfa7a106fc3fc7a7e7f2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 24/51] fix: KPM crashed when there are no sites or columns to
 calculate

---
 cppcore/src/KPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 72633e7..d2188db 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -87,6 +87,10 @@ ArrayXXdCM KPM::calc_spatial_ldos(ArrayXd const& energy, double broadening, Shap
         return v;
     }();
 
+    if (indices.empty()) { // nothing to calculate: the shape doesn't contain any sites
+        return ArrayXXdCM(energy.size(), 0);
+    }
+
     auto results = core.ldos(indices, energy, broadening);
     calculation_timer.toc();
 
@@ -121,6 +125,7 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
+    if (cols.empty()) { return {}; }
 
     calculation_timer.tic();
     auto greens_functions = core.greens_vector(row, cols, energy, broadening);
-- 
2.43.0


From aa426afed2e59ec36284fdbd6996ae51ecb169fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 25/51] fix: the Lanczos procedure did not converge when the
 spectrum begins or ends at zero energy

---
 cppcore/include/compute/lanczos.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index 5cf29b1..c0d48f5 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -139,8 +139,10 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
                                                                   eigen_cast<ArrayX>(beta));
         auto const min = eigenvalues.minCoeff();
         auto const max = eigenvalues.maxCoeff();
-        auto const is_converged_min = abs((previous_min - min) / min) < precision;
-        auto const is_converged_max = abs((previous_max - max) / max) < precision;
+        // The precision is relative to the largest magnitude: one of the two may be zero
+        auto const magnitude = std::max(std::abs(min), std::abs(max));
+        auto const is_converged_min = std::abs(previous_min - min) < precision * magnitude;
+        auto const is_converged_max = std::abs(previous_max - max) < precision * magnitude;
 
         if (is_converged_min && is_converged_max) {
             return {min, max, i};
-- 
2.43.0


From 4ee3ed574fe12baf9a63081d204b94481ff811bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 26/51] fix: Solver::set_model leaves the solver as it was when
 the new model or strategy fails

---
 cppcore/src/solver/Solver.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..0ad0133 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,19 +49,18 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
-    is_solved = false;
-    model = new_model;
-
-    if (strategy) {// try to assign a new Hamiltonian to the existing Solver strategy
-        bool success = strategy->change_hamiltonian(model.hamiltonian());
-        if (!success) { // fails if the they have incompatible scalar types
-            strategy.reset();
-        }
+    // evaluate the new model first: if anything fails, the current one isn't changed
+    auto const& hamiltonian = new_model.eval().hamiltonian();
+
+    // try to assign the new Hamiltonian to the existing Solver strategy
+    if (!strategy->change_hamiltonian(hamiltonian)) {
+        // fails if the they have incompatible scalar types
+        // -> create a SolverStrategy with a scalar type suited to the Hamiltonian
+        strategy = make_strategy(hamiltonian);
     }
 
-    if (!strategy) { // creates a SolverStrategy with a scalar type suited to the Hamiltonian
-        strategy = make_strategy(model.hamiltonian());
-    }
+    model = new_model;
+    is_solved = false;
 }
 
 void BaseSolver::solve() {
-- 
2.43.0


From 0b051d8d5f91e49c78721cebb02156637ea476d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 27/51] fix: KPM::set_model keeps the current model when the
 new one can't be evaluated

---
 cppcore/src/KPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index d2188db..62608d2 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,7 +8,7 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
-    model = new_model;
+    model = new_model.eval(); // the current model is kept if this fails
     core.set_hamiltonian(model.hamiltonian());
 }
 
-- 
2.43.0


From 8613193b4277d77805fbaebbef5047036a83ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 28/51] fix: make_path must compare the shapes of all the
 k-points

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index dddffe3..3647087 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -141,7 +141,7 @@ def make_path(k0, k1, *ks, step=0.1):
     True
     """
     k_points = [np.atleast_1d(k) for k in (k0, k1) + ks]
-    if not all(k.shape == k_points[0].shape for k in k_points[:1]):
+    if not all(k.shape == k_points[0].shape for k in k_points[1:]):
         raise RuntimeError("All k-points must have the same shape")
 
     k_paths = []
-- 
2.43.0


From bc5a6699a0abe89193970cffd43d357ca306963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 29/51] fix: make_path must keep the start of segments shorter
 than the step

---
 pybinding/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 3647087..1432ae6 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -147,7 +147,8 @@ def make_path(k0, k1, *ks, step=0.1):
     k_paths = []
     point_indices = [0]
     for k_start, k_end in zip(k_points[:-1], k_points[1:]):
-        num_steps = int(np.linalg.norm(k_end - k_start) // step)
+        # a segment shorter than the step must still include its starting point
+        num_steps = max(1, int(np.linalg.norm(k_end - k_start) // step))
         # k_path.shape == num_steps, k_space_dimensions
         k_path = np.array([np.linspace(s, e, num_steps, endpoint=False)
                            for s, e in zip(k_start, k_end)]).T
-- 
2.43.0


From 2ffc3f3c1857452fa25db60f144684895145ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 30/51] fix: Sweep.mirrored must raise the error for an invalid
 axis

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 1432ae6..05b75a1 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -873,7 +873,7 @@ class Sweep:
             data = np.hstack((self.data[:, ::-1], self.data[:, 1:]))
             return self._with_data(self.x, y, data)
         else:
-            RuntimeError("Invalid axis")
+            raise RuntimeError("Invalid axis")
 
     def interpolated(self, mul=None, size=None, kind='linear'):
         """Return a copy with interpolate data using :class:`scipy.interpolate.interp1d`
-- 
2.43.0


From 12c2cac275b5658537930c065e133f2900d7667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 31/51] fix: Sweep must keep data.shape == (x.size, y.size)
 when indexed with a single y

---
 pybinding/results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 05b75a1..4348936 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -801,7 +801,10 @@ class Sweep:
         else:
             idx_x = item
             idx_y = slice(None)
-        return self._with_data(self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y])
+        x, y, data = self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y]
+        if np.ndim(y) == 0 and np.ndim(data) == 1:
+            data = data[:, np.newaxis]  # keep `shape == (x.size, y.size)` for a single y value
+        return self._with_data(x, y, data)
 
     def _with_data(self, x, y, data):
         return self.__class__(x, y, data, self.labels, self.tags)
-- 
2.43.0


From d5a28732fde7a454397f4c9756293293e493179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 32/51] fix: Sites created without ids must support indexing

---
 pybinding/support/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/structure.py b/pybinding/support/structure.py
index 62f9b10..518e257 100644
--- a/pybinding/support/structure.py
+++ b/pybinding/support/structure.py
@@ -173,7 +173,7 @@ class Sites(AbstractSites):
         return getattr(self, "_ids", np.zeros_like(self._x, dtype=np.int8))
 
     def __getitem__(self, item):
-        return self.__class__([v[item] for v in self.positions], self._ids[item])
+        return self.__class__([v[item] for v in self.positions], self.ids[item])
 
 
 class AbstractHoppings(metaclass=ABCMeta):
-- 
2.43.0


From d7d2bdb15a5dd485bab42baa5de2e7627e6657fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 33/51] fix: modifiers of multi-orbital models must be able to
 take sites together with coordinates

---
 pybinding/modifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index ac25ab3..a885881 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -43,8 +43,7 @@ def _process_modifier_args(args, keywords, requested_argnames):
         if isinstance(obj, str):
             return AliasIndex(SplitName(obj), shape, orbs)
         elif isinstance(obj, np.ndarray) and obj.size == shape[0]:
-            obj.shape = shape
-            return obj
+            return obj.reshape(shape)  # a view: the original is also needed for `sites`
         else:
             return obj
 
-- 
2.43.0


From c3a4135760a803f10227a6d20464333afe4910e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 34/51] fix: modifier results must reach the model correctly
 for any memory layout

---
 pybinding/modifier.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index a885881..7f075e9 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -110,11 +110,8 @@ def _sanitize_modifier_result(result, args, expected_num_return, can_be_complex)
                                 " (precision is flexible)".format(r.dtype, prime_arg.dtype))
 
     def moveaxis(r):
-        """If the result is a new contiguous array, the axis needs to be moved back"""
-        if r.ndim == 3 and r.flags["OWNDATA"] and r.flags["C_CONTIGUOUS"]:
-            return np.moveaxis(r, 0, 2).copy()
-        else:
-            return r
+        """Move the axis back and make sure the result is contiguous (no copy if it already is)"""
+        return np.ascontiguousarray(np.moveaxis(r, 0, 2) if r.ndim == 3 else r)
 
     result = tuple(map(cast, result))
     result = tuple(map(moveaxis, result))
-- 
2.43.0


From f8cda3b23092c657c3c70086036d6822dc5219f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:45 +0000
Subject: [PATCH 35/51] fix: parallelize must pass the swept variables by name

---
 pybinding/parallel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybinding/parallel.py b/pybinding/parallel.py
index c5f4fd0..575cbc0 100644
--- a/pybinding/parallel.py
+++ b/pybinding/parallel.py
@@ -175,12 +175,12 @@ class Factory:
         self.produce = produce
         self.config = config
 
+        # the names of `variables`: they may come after `fixtures` in the function signature
+        self.names = [k for k in inspect.signature(self.produce).parameters if k not in fixtures]
         self.sequence = list(itertools.product(*variables))
 
         self.hooks = Hooks()
-        self.hooks.status.append(DefaultStatus(
-            inspect.signature(self.produce).parameters, self.sequence
-        ))
+        self.hooks.status.append(DefaultStatus(self.names, self.sequence))
 
 
 class ParallelFor:
@@ -222,7 +222,8 @@ class ParallelFor:
         return data
 
     def _produce(self, var):
-        deferred = self.factory.produce(*var, **self.factory.fixtures)
+        variables = dict(zip(self.factory.names, var))
+        deferred = self.factory.produce(**variables, **self.factory.fixtures)
 
         if not self.called_first:
             self._first(deferred)
-- 
2.43.0


From 2694952fe07e57a3277c5692f1c7fe397a71101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:25 +0000
Subject: [PATCH 36/51] fix: map the probability of all orbitals at the site in
 calc_eigenvalues

The site index was used as a row of the eigenvectors, which is another site's
orbital in multi-orbital models, and positions given as arrays were rejected.
---
 pybinding/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 37e9c97..d30f15c 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -117,11 +117,12 @@ class Solver:
         -------
         :class:`~pybinding.Eigenvalues`
         """
-        if not map_probability_at:
+        if map_probability_at is None:
             return results.Eigenvalues(self.eigenvalues)
         else:
             site_idx = self.system.find_nearest(position=map_probability_at)
-            probability = abs(self.eigenvectors[site_idx, :])**2
+            ham_idx = self.system.to_hamiltonian_indices(site_idx)
+            probability = np.sum(abs(self.eigenvectors[ham_idx, :])**2, axis=0)
 
             # sum probabilities of degenerate states
             for idx in self.find_degenerate_states(self.eigenvalues):
-- 
2.43.0


From 5e3670a6330a5306278fd76879973cdd4e64d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:25 +0000
Subject: [PATCH 37/51] fix: report the orbitals of each site to kwant

The orbital counts are in the order of the site groups, which need not be the
sublattice IDs.
---
 pybinding/support/kwant.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybinding/support/kwant.py b/pybinding/support/kwant.py
index 99e635f..fd512fe 100644
--- a/pybinding/support/kwant.py
+++ b/pybinding/support/kwant.py
@@ -59,9 +59,8 @@ class KwantFiniteSystem(FiniteSystem):
         if not return_norb:
             return matrix
         else:
-            subs = self.pb_model.system.sublattices
-            norb = self.pb_model.system.impl.compressed_sublattices.orbital_counts
-            to_norb = norb[subs]
+            cs = self.pb_model.system.impl.compressed_sublattices
+            to_norb = np.repeat(cs.orbital_counts, cs.site_counts)
             from_norb = to_norb
             return matrix, to_norb, from_norb
 
-- 
2.43.0


From 956c645b96f87687e6898d5fed0ab9a247bc5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:22 +0000
Subject: [PATCH 38/51] fix: keep the orbitals of an LDOS at a single energy as
 columns

squeeze() also removed the energy axis, so that the data didn't match the variable.
---
 pybinding/chebyshev.py | 6 ++++--
 pybinding/solver.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pybinding/chebyshev.py b/pybinding/chebyshev.py
index 054103b..daba774 100644
--- a/pybinding/chebyshev.py
+++ b/pybinding/chebyshev.py
@@ -197,8 +197,10 @@ class KPM:
         :class:`~pybinding.Series`
         """
         ldos = self.impl.calc_ldos(energy, broadening, position, sublattice, reduce)
-        return results.Series(energy, ldos.squeeze(), labels=dict(variable="E (eV)", data="LDOS",
-                                                                  columns="orbitals"))
+        if ldos.ndim > 1 and ldos.shape[1] == 1:
+            ldos = ldos[:, 0]
+        return results.Series(energy, ldos, labels=dict(variable="E (eV)", data="LDOS",
+                                                        columns="orbitals"))
 
     def calc_spatial_ldos(self, energy, broadening, shape, sublattice=""):
         """Calculate the LDOS as a function of energy and space (in the area of the given shape)
diff --git a/pybinding/solver.py b/pybinding/solver.py
index d30f15c..f293927 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -243,8 +243,10 @@ class Solver:
             if reduce:
                 ldos = np.sum(ldos, axis=1)
 
-        return results.Series(energies, ldos.squeeze(), labels=dict(variable="E (eV)", data="LDOS",
-                                                                    columns="orbitals"))
+        if ldos.ndim > 1 and ldos.shape[1] == 1:
+            ldos = ldos[:, 0]
+        return results.Series(energies, ldos, labels=dict(variable="E (eV)", data="LDOS",
+                                                          columns="orbitals"))
 
     def calc_spatial_ldos(self, energy, broadening):
         r"""Calculate the spatial local density of states at the given energy
-- 
2.43.0


From f03664e5589c19fd064a358269618cf8d70b6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:31 +0000
Subject: [PATCH 39/51] fix: move both ends of a Line by the whole offset
 vector

---
 pybinding/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 2012fe8..34e4678 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -85,7 +85,10 @@ class Line(_cpp.Line):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
-        return Line(self.a + vector[0], self.b + vector[1])
+        v = np.zeros(2)
+        vector = np.atleast_1d(vector)[:2]
+        v[:len(vector)] = vector
+        return Line(self.a + v, self.b + v)
 
     def plot(self, **kwargs):
         """Show the line
-- 
2.43.0


From b6bb475559c73df4a556a09a220daadec00c1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:31 +0000
Subject: [PATCH 40/51] fix: keep every coordinate of the center when
 offsetting a freeform shape

---
 pybinding/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 34e4678..801cf89 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -163,7 +163,10 @@ class FreeformShape(_cpp.FreeformShape, _CompositionMixin):
             r0 = [x, y, z]
             r = [v0 - v for v0, v in zip(r0, vector)] + r0[len(vector):]
             return self.contains(*r)
-        return FreeformShape(contains, self.width, self.center[:len(vector)] + vector)
+        center = np.zeros(3)
+        center[:len(self.center)] = self.center
+        center[:len(vector)] += vector
+        return FreeformShape(contains, self.width, center)
 
     def plot(self, resolution=(1000, 1000), **kwargs):
         """Plot a lightly shaded silhouette of the freeform shape
-- 
2.43.0


From ae1b519dc9c488a72dd209dff6d2f06f8e592689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:47 +0000
Subject: [PATCH 41/51] fix: bound composite shapes in 1 and 3 dimensions

---
 pybinding/shape.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 801cf89..5ddd348 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -202,9 +202,13 @@ class CompositeShape(_cpp.Shape, _CompositionMixin):
         # The bounding vertices are always taken as the convex hull of the combined vertices.
         # This is a wasteful in some situations (e.g. intersections) but its always safe and
         # quick to code using scipy's implementation. Performance isn't an issue here for now
-        # but revisit this if it becomes a concern.
-        hull = ConvexHull(np.array(shape1.vertices + shape2.vertices)[:, :2])
-        vertices = hull.points[hull.vertices]
+        # but revisit this if it becomes a concern. Shapes which don't span the xy plane (1D) or
+        # which extend out of it (3D) are simply bounded by all of the combined vertices.
+        vertices = np.array(list(shape1.vertices) + list(shape2.vertices))
+        is_flat = np.all(vertices[:, 2] == 0)
+        if is_flat and np.linalg.matrix_rank(vertices[1:, :2] - vertices[0, :2]) == 2:
+            hull = ConvexHull(vertices[:, :2])
+            vertices = hull.points[hull.vertices]
 
         super().__init__(vertices, lambda x, y, z: op(shape1.contains(x, y, z),
                                                       shape2.contains(x, y, z)))
-- 
2.43.0


From aaf7e033a1ca20bf885ba72085fd121decdb59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 42/51] fix: find the Brillouin zone of lattices with skewed
 primitive vectors

---
 pybinding/lattice.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 8a1182c..151c2cc 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -324,8 +324,16 @@ class Lattice:
             l = np.linalg.norm(v1)
             return [-l/2, l/2]
         elif self.ndim == 2:
-            # The closest reciprocal lattice points are combinations of the primitive vectors
-            vectors = self.reciprocal_vectors()
+            # The closest reciprocal lattice points are combinations of the shortest vectors
+            v1, v2 = (np.asarray(v) for v in self.reciprocal_vectors())
+            while True:
+                if np.dot(v1, v1) > np.dot(v2, v2):
+                    v1, v2 = v2, v1
+                v3 = v2 - round(np.dot(v1, v2) / np.dot(v1, v1)) * v1
+                if np.linalg.norm(v3) >= np.linalg.norm(v2) * (1 - 1e-9):
+                    break
+                v2 = v3
+            vectors = v1, v2
             points = [sum(n * v for n, v in zip(ns, vectors))
                       for ns in itertools.product([-1, 0, 1], repeat=self.ndim)]
 
-- 
2.43.0


From cc4a047bb56d7020ea64048c0467680f2de87ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 43/51] fix: keep the radius of each site in 3D plots when they
 are sorted by depth

---
 pybinding/support/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybinding/support/collections.py b/pybinding/support/collections.py
index 2b95ce9..2105334 100644
--- a/pybinding/support/collections.py
+++ b/pybinding/support/collections.py
@@ -36,6 +36,7 @@ class CircleCollection(Collection):
 class Circle3DCollection(CircleCollection):
     def __init__(self, radius, zs=0, zdir='z', depthshade=True, **kwargs):
         super().__init__(radius, **kwargs)
+        self._radius0 = self.radius
         self._depthshade = depthshade
         self.set_3d_properties(zs, zdir)
         self._A0 = self._A
@@ -72,6 +73,8 @@ class Circle3DCollection(CircleCollection):
 
         self.set_offsets(v[:2, idx].transpose())
         super().set_array(self._A0[idx])
+        if self._radius0.size > 1:
+            self.radius = self._radius0[idx]
 
         fcs = zalpha(self._facecolor3d, vzs) if self._depthshade else self._facecolor3d
         fcs = mcolors.colorConverter.to_rgba_array(fcs, self._alpha)
-- 
2.43.0


From bd3e8a61be8b556619152bd55227f4e0c8800fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:02 +0000
Subject: [PATCH 44/51] fix: don't change the given hopping matrix when drawing
 only some of them

---
 pybinding/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybinding/system.py b/pybinding/system.py
index e4d2825..0e4a40f 100644
--- a/pybinding/system.py
+++ b/pybinding/system.py
@@ -1,4 +1,5 @@
 """Structural information and utilities"""
+import copy
 import functools
 import itertools
 
@@ -379,6 +380,7 @@ def plot_hoppings(positions, hoppings, width=1.0, offset=(0, 0, 0), blend=1.0, c
 
     # leave only the desired hoppings
     if draw_only:
+        hoppings = copy.copy(hoppings)  # don't change the given matrix
         keep = np.zeros_like(hoppings.data, dtype=np.bool)
         for hop_id in draw_only:
             keep = np.logical_or(keep, hoppings.data == hop_id)
-- 
2.43.0


From 503aebf676aac2a0875b9ad68101575ba69f9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:42 +0000
Subject: [PATCH 45/51] fix: find the energy bounds of the current model in the
 Python implementation of KPM

---
 pybinding/chebyshev.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pybinding/chebyshev.py b/pybinding/chebyshev.py
index daba774..c60ff06 100644
--- a/pybinding/chebyshev.py
+++ b/pybinding/chebyshev.py
@@ -457,6 +457,15 @@ class _PythonImpl:
 
         self._stats = {}
 
+    @property
+    def model(self):
+        return self._model
+
+    @model.setter
+    def model(self, model):
+        self._model = model
+        self._bounds = None  # computed for each model
+
     @property
     def stats(self):
         class AttrDict(dict):
@@ -476,11 +485,12 @@ class _PythonImpl:
             if self.energy_range[0] != self.energy_range[1]:
                 return self.energy_range
 
-            from scipy.sparse.linalg import eigsh
-            h = self.model.hamiltonian
-            self.energy_range = [eigsh(h, which=x, k=1, tol=2e-3, return_eigenvectors=False)[0]
-                                 for x in ("SA", "LA")]
-            return self.energy_range
+            if self._bounds is None:
+                from scipy.sparse.linalg import eigsh
+                h = self.model.hamiltonian
+                self._bounds = [eigsh(h, which=x, k=1, tol=2e-3, return_eigenvectors=False)[0]
+                                for x in ("SA", "LA")]
+            return self._bounds
 
         with timed() as self._stats["bounds_time"]:
             emin, emax = find_bounds()
-- 
2.43.0


From 15323c4ebf6bf29629b2c683e6817655a511e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:00 +0000
Subject: [PATCH 46/51] fix: plot the lattice vectors at a position which is
 given as an array

---
 pybinding/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 151c2cc..c7788b3 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -477,7 +477,8 @@ class Lattice:
         sub_center = sum(s.position for s in self.sublattices.values()) / self.nsub
         sub_center = rotate_axes(sub_center, axes)
         if vector_position is not None:
-            vector_position = sub_center if vector_position == "center" else vector_position
+            if isinstance(vector_position, str) and vector_position == "center":
+                vector_position = sub_center
             self._plot_vectors(vectors, vector_position)
 
         # annotate sublattice names
-- 
2.43.0


From 601cc7a31f0f64416376f122bda9ba76380806a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:15 +0000
Subject: [PATCH 47/51] fix: add the missing gamma4 hoppings of bilayer
 graphene

---
 pybinding/repository/graphene/lattice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/repository/graphene/lattice.py b/pybinding/repository/graphene/lattice.py
index 09563bd..82278ef 100644
--- a/pybinding/repository/graphene/lattice.py
+++ b/pybinding/repository/graphene/lattice.py
@@ -188,7 +188,10 @@ def bilayer(gamma3=False, gamma4=False, onsite=(0, 0, 0, 0)):
         lat.add_hoppings(
             ([0, 0], 'A2', 'A1', 'gamma4'),
             ([0, 1], 'A2', 'A1', 'gamma4'),
-            ([1, 0], 'A2', 'A1', 'gamma4')
+            ([1, 0], 'A2', 'A1', 'gamma4'),
+            ([ 0,  0], 'B1', 'B2', 'gamma4'),
+            ([ 0, -1], 'B1', 'B2', 'gamma4'),
+            ([-1,  0], 'B1', 'B2', 'gamma4')
         )
 
     lat.min_neighbors = 2
-- 
2.43.0


From 40608b93d174973ad0578356c31ebbc481ec16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:15 +0000
Subject: [PATCH 48/51] fix: place the name of a lead on its drawing also when
 other axes are plotted

---
 pybinding/leads.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..210121a 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -13,6 +13,7 @@ from . import _cpp
 from . import pltutils, results
 from .system import (System, plot_sites, plot_hoppings, structure_plot_properties,
                      decorate_structure_plot)
+from .utils import rotate_axes
 
 __all__ = ['Lead']
 
@@ -111,7 +112,9 @@ class Lead:
             plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
                           boundary=(1, boundary.shift), **props['boundary'])
 
-        label_pos = _center(pos, lead_length * boundary.shift * 1.5)
+        axes = props['axes']
+        label_pos = _center(rotate_axes(pos, axes),
+                            rotate_axes(lead_length * boundary.shift * 1.5, axes))
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
 
         decorate_structure_plot(**props)
-- 
2.43.0


From c961e50bbe1da221de5b648b4ef6737492f33c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:15 +0000
Subject: [PATCH 49/51] fix: Model.modifiers asked the core for lists which it
 doesn't have

---
 pybinding/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybinding/model.py b/pybinding/model.py
index fb4337b..3fa1ce1 100644
--- a/pybinding/model.py
+++ b/pybinding/model.py
@@ -32,11 +32,15 @@ class Model(_cpp.Model):
         * Any number of modifiers can be added. Adding the same modifier more than once
           is allowed: this will usually multiply the modifier's effect.
     """
+    _modifier_kinds = (_cpp.SiteStateModifier, _cpp.PositionModifier,
+                       _cpp.OnsiteModifier, _cpp.HoppingModifier)
+
     def __init__(self, lattice, *args):
         super().__init__(lattice.impl)
 
         self._lattice = lattice
         self._shape = None
+        self._modifiers = []
         self.add(*args)
 
     def add(self, *args):
@@ -58,6 +62,8 @@ class Model(_cpp.Model):
                 super().add(arg)
                 if isinstance(arg, _cpp.Shape):
                     self._shape = arg
+                elif isinstance(arg, self._modifier_kinds):
+                    self._modifiers.append(arg)
 
     def attach_lead(self, direction, contact):
         """Attach a lead to the main system
@@ -133,8 +139,8 @@ class Model(_cpp.Model):
     @property
     def modifiers(self) -> list:
         """List of all modifiers applied to this model"""
-        return (self.state_modifiers + self.position_modifiers +
-                self.onsite_modifiers + self.hopping_modifiers)
+        return [m for kind in self._modifier_kinds
+                for m in self._modifiers if isinstance(m, kind)]
 
     @property
     def onsite_map(self) -> results.StructureMap:
-- 
2.43.0


From 1fea6d912ff2ca78a1ad573850b3ae95f4c88ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:15 +0000
Subject: [PATCH 50/51] fix: starting a running progress bar again lost the
 captured streams

---
 pybinding/utils/progressbar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybinding/utils/progressbar.py b/pybinding/utils/progressbar.py
index 4369d10..4cc8cd6 100644
--- a/pybinding/utils/progressbar.py
+++ b/pybinding/utils/progressbar.py
@@ -167,6 +167,7 @@ class ProgressBar:
         return "".join(formatted_widgets).ljust(self.width)
 
     def start(self):
+        self.stop()  # release the captured streams if it's already running
         self.running = True
         self.value = 0
 
-- 
2.43.0


From 42d9c452ab251d82e023d94b30f8285caa64d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:15 +0000
Subject: [PATCH 51/51] fix: a progress bar is the target of its own with
 statement

---
 pybinding/utils/progressbar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybinding/utils/progressbar.py b/pybinding/utils/progressbar.py
index 4cc8cd6..37a3c58 100644
--- a/pybinding/utils/progressbar.py
+++ b/pybinding/utils/progressbar.py
@@ -179,6 +179,7 @@ class ProgressBar:
         self.start_time = datetime.datetime.now()
         self.last_update_time = self.start_time
         self.refresh()
+        return self
 
     def update(self, value):
         if not self.running:
-- 
2.43.0


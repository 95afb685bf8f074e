From 296c356508eead9221ff0805e71585c6b37c4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 01/20] fix: TZRVector::zr_view() starts at the z component

---
 eisvogel/core/impl/Vector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/Vector.hh b/eisvogel/core/impl/Vector.hh
index 6bed49d..ae14f10 100644
--- a/eisvogel/core/impl/Vector.hh
+++ b/eisvogel/core/impl/Vector.hh
@@ -356,7 +356,7 @@ struct TZRVector : public Vector3D<T> {
   T& z() { return this -> operator[](1); };
   T& r() { return this -> operator[](2); };
 
-  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin()); };
+  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin() + 1); };
   ZRVector<T> zr() const { return ZRVector<T>{z(), r()}; };
 };
 
-- 
2.43.0


From 8a405e249015813fb0ea393805a1fffbac1da384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 02/20] fix: IteratorUtils::empty_range compares per axis

---
 eisvogel/core/impl/IteratorUtils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/IteratorUtils.hh b/eisvogel/core/impl/IteratorUtils.hh
index 4d950ce..d678fb2 100644
--- a/eisvogel/core/impl/IteratorUtils.hh
+++ b/eisvogel/core/impl/IteratorUtils.hh
@@ -102,7 +102,7 @@ namespace IteratorUtils {
   bool empty_range(const Vector<std::size_t, dims>& begin, const Vector<std::size_t, dims>& end) {
     
     for(std::size_t i = 0; i < dims; i++) {
-      if(begin >= end) {
+      if(begin[i] >= end[i]) {
 	return true;
       }
     }
-- 
2.43.0


From 3cfae3a5b277b3c19f094f7805ba60d6a3e83053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 03/20] fix: chunk file name buffer holds the terminating zero
 of the uuid

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..26c8ddc 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -516,7 +516,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[UUID_STR_LEN]; // includes the terminating zero
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From cbb7e4b2a9a1e07ee75953201f3a24738c1fd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 04/20] fix: ExportSignal refuses times and values of different
 lengths

---
 eisvogel/core/impl/SignalExport.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/core/impl/SignalExport.hxx b/eisvogel/core/impl/SignalExport.hxx
index d80ebf6..587b65e 100644
--- a/eisvogel/core/impl/SignalExport.hxx
+++ b/eisvogel/core/impl/SignalExport.hxx
@@ -1,9 +1,14 @@
 #include "SignalExport.hh"
 #include <fstream>
 #include <iomanip>
+#include <stdexcept>
 
 void ExportSignal(std::vector<scalar_t> signal_times, std::vector<scalar_t> signal_values,
 		  std::string outpath, int time_prec, int value_prec) {
+
+  if(signal_times.size() != signal_values.size()) {
+    throw std::runtime_error("Error: need exactly one time for every signal value!");
+  }
   
   std::ofstream outfile;
   outfile.open(outpath);
-- 
2.43.0


From 579f55092743d93a591eda18a8e352c2314f2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 05/20] fix: pick the shower profile that was drawn or
 requested and refuse numbers that do not exist

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3f7c739..e2c2b2e 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -64,18 +64,18 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	if (i_shower < 0) {
 		std::random_device rand_dev;
 		std::default_random_engine generator(rand_dev());
-		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size());
+		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size() - 1);
 		shower_index = dist(generator);
 	} else {
 		shower_index = i_shower;
 	}
-        std::cout << "Pick shower " << i_shower << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
+        std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][i_shower],
+			ce_profiles[had][closest_energy].at(shower_index),
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0


From 082d07391fcacb122402517544088e89e2a91dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 06/20] fix: do not register an uninitialised profile at the
 end of the shower file

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index e2c2b2e..eed1fcc 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -32,6 +32,7 @@ showers::ShowerCreator::ShowerCreator(
 				&profile.grammage,
 				&profile.charge_excess
 				);
+		if (reading_complete != 0) break;
 		int find_shower = ce_profiles[profile.hadronic].count(profile.energy);
 		if (find_shower == 0) {
 			ce_profiles[profile.hadronic][profile.energy] = std::vector<showers::ChargeExcessProfile>();
-- 
2.43.0


From 0d95e621f485c94cc6568d33ff55bd4e47448cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 07/20] fix: scale the charge of the first shower sample like
 that of the others

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index 6fdc400..d4a1ca3 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -61,7 +61,7 @@ void showers::Shower1D::get_shower(
 	(*x)[0] = start_position[0];
 	(*y)[0] = start_position[1];
 	(*z)[0] = start_position[2];
-	(*ce)[0] = charge_excess_profile.charge_excess[0];
+	(*ce)[0] = charge_excess_profile.charge_excess[0] * charge_excess_profile_scaling;
 	integrated_grammage = 0;
 	int grammage_i = 0;
 	double delta_ce;
-- 
2.43.0


From dc57ff05c48b3eed4f529add5e63cf975b0f124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 08/20] fix: single-index access of a one-dimensional array
 view honours the view's offset

---
 eisvogel/core/impl/NDVecArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..9d90b1f 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + ComputeFlatInd(ind_t{ind}));
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
-- 
2.43.0


From 34e7a0013593b8e874a0d9a994d44d8ee015fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 09/20] fix: copying from an array view reads the viewed region

---
 eisvogel/core/impl/NDVecArray.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..8a8d16c 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -83,9 +83,8 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
     
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
-- 
2.43.0


From 391dfdc7ec951088741d4e3aab03454354ea2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 10/20] fix: NDVecArray::Append copies the viewed region of a
 view, not its parent's storage

---
 eisvogel/core/impl/NDVecArray.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index 8a8d16c..2b65197 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -216,16 +216,19 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  const shape_t app_shape = other.m_shape;
+  ind_t app_start(0u);
+  app_start[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
-  new_shape[axis] += other.m_shape[axis];
+  new_shape[axis] += app_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data (`other` may be a view, i.e. its elements need not be contiguous in memory)
+  if(ComputeNumberElements(app_shape) > 0) {
+    fill_from(other, ind_t(0u), app_shape, app_start);
+  }
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 9945c560ecd194a9adf124f879fb1cb26ec0be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 11/20] fix: refuse appending a slice whose serialization
 chunks would not line up

The array read back after such an append had misplaced elements or failed
an assertion while reading.
---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..dccd6c5 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -251,6 +251,20 @@ namespace stor {
     return false;
   }
   
+  // tests if the serialization chunks of a slice appended along `axis` simply follow those of the existing array, i.e. if
+  // the chunk loop over the existing array followed by that over the slice is the same as the chunk loop over the combined array
+  template <std::size_t dims>
+  bool permits_appending_along_axis(const Vector<std::size_t, dims>& array_shape, const Vector<std::size_t, dims>& ser_chunk_shape, std::size_t axis) {
+    // axes that change more slowly than `axis` must not be divided into several serialization chunks
+    for(std::size_t ind = 0; ind < axis; ind++) {
+      if(ser_chunk_shape[ind] < array_shape[ind]) {
+	return false;
+      }
+    }
+    // the existing array must not end with a partial serialization chunk along `axis`
+    return array_shape[axis] % ser_chunk_shape[axis] == 0;
+  }
+
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
@@ -270,16 +284,11 @@ namespace stor {
       throw std::runtime_error("Error: dimensions not compatible for concatenation!");
     }
 
-    // --------
-    // TODO: Finish implementing checks
     // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
+    if(!permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
+      throw std::runtime_error("Error: serialization chunks do not permit appending along this axis!");
+    }
 
-    // Better conditions:
-    // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
-    // 2) concat dimension must not be after the outermost changing dimension
-    // --------
-    
     // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
     // if(!chunk_is_slice(meta.array_shape, meta.ser_chunk_shape)) {
     //   throw std::runtime_error("Error: serialization chunk is not a slice, cannot append!");
-- 
2.43.0


From bd13b770d3f5750533c39a0b58c9c02159546563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 12/20] fix: RemoveChunk deletes the file in which the chunk is
 actually stored

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 26c8ddc..718c564 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -65,8 +65,8 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::RemoveChunk(const chunk_meta_t& chun
   }
 
   // Also remove the chunk from disk, if it exists there
-  if(std::filesystem::exists(chunk_meta.filepath)) {
-    std::filesystem::remove(chunk_meta.filepath);
+  if(!chunk_meta.filepath.empty()) {
+    std::filesystem::remove(get_abs_path(chunk_meta.filepath));
   }
 }
 
-- 
2.43.0


From 57d215027b32b2ed142567629541cb056e091816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 13/20] fix: AppendSlice along a new axis no longer appends the
 stored chunk to itself

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 718c564..e406783 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -170,12 +170,17 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
       
       // Concatenation axis changed, need to synchronize
       sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
-    }
 
-    // Now have the fully up-to date chunk in the cache, can append
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);
+      // The cached chunk is now the full chunk and in sync with the information on disk; as above, remove it from the cache
+      // and schedule only the new slice for concatenation
+      m_cache.evict(index);
+      insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
+    }
+    else {
+      // Same concatenation axis, can append in memory
+      cached_chunk.chunk_meta = chunk_meta;
+      cached_chunk.chunk_data.template Append<axis>(slice);
+    }
   }
 
   // Immediately synchronize to disk if we're asked to operate without cache
-- 
2.43.0


From 756120ab404f8ec8ebf0dc50e04003b7fe3e1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 14/20] fix: chunks registered after an index was loaded get
 unused identities

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index e406783..28a040d 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -724,6 +724,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
 
   for(metadata_t& cur_meta : chunk_list) {
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
+
+    // Chunks that are registered later must not reuse the identity of a loaded one
+    m_next_chunk_id = std::max<id_t>(m_next_chunk_id, cur_meta.chunk_id + 1);
   }  
 }
 
-- 
2.43.0


From 011beaa207d847c9b878eb6f338809ec067f7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 15/20] fix: point queries, bounding-box updates and rebuilds
 are well defined on an empty spatial index

---
 eisvogel/core/impl/RStarTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..6d1f77a 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -562,6 +562,11 @@ template <typename CoordT, std::size_t dims, class PayloadT>
 void RStarTree<CoordT, dims, PayloadT>::UpdateBoundingBox(const Vector<CoordT, dims>& elem_coords,
 							  const Vector<CoordT, dims>& updated_start_coords, const Vector<CoordT, dims>& updated_end_coords) {
 
+  // An empty tree does not contain any element whose bounding box could be updated
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return;
+  }
+
   // Traverse the tree starting from the root node, updating the root node if required
   if(search_entry_update_bbox(m_root_slot, elem_coords, updated_start_coords, updated_end_coords)) {
     recalculate_bbox(m_root_slot);
@@ -1078,6 +1083,11 @@ PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>&
     }
   }
   
+  // An empty tree does not contain any entries
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return nullptr;
+  }
+
   std::size_t entry_slot = search_entry(m_root_slot, coords);
   if(entry_slot != NodePool::INVALID_SLOT) {
     m_last_accessed_entry_slot = entry_slot;
@@ -1333,6 +1343,11 @@ void RStarTree<CoordT, dims, PayloadT>::RebuildSTR() {
 
   // std::cout << "starting to rebuild tree for " << entries.size() << " entries" << std::endl;
 
+  // Without any entries, the rebuilt tree remains empty
+  if(entries.empty()) {
+    return;
+  }
+
   std::vector<std::size_t> node_slots;
   
   // Build the layer of leaf nodes:
-- 
2.43.0


From 1c4b9b396dd2c84a793dffccfed45f6da2c4bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 16/20] fix: all-zero chunks are materialised including their
 overlap

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 28a040d..b6757f0 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -294,7 +294,8 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
     // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    // (the stored data also covers the overlap on all sides)
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From d1c310c310f623cc7fea8f04a0391a483c8a2d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 17/20] fix: rechunking and element loops cover the full index
 range of the array

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index b6757f0..e2af1d6 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1057,8 +1057,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 template <class CallableT>
 constexpr void ChunkLibrary<ArrayT, T, dims, vec_dims>::index_loop_over_elements(CallableT&& worker) {
-  Vector<std::size_t, dims> start_ind(0);
-  index_loop_over_elements(start_ind, m_index.GetShape(), worker);
+  index_loop_over_elements(m_index.get_start_ind(), m_index.get_end_ind(), worker);
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -1247,7 +1246,9 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
     ind_t output_start = (fill_start_ind.template as_type<int>() - extended_chunk_start_ind).template as_type<std::size_t>();
     
     // fill rebuilt chunk into local buffer ...    
-    chunk_buffer.resize(extended_chunk_shape);    
+    // (locations not covered by any chunk of this array must not inherit values from the previous iteration)
+    chunk_buffer.resize(extended_chunk_shape);
+    chunk_buffer = (T)(0.0);
     FillArray(chunk_buffer, fill_start_ind, fill_end_ind, output_start);
 
     auto is_boundary_element = [&](Vector<int, dims>& boundary_ind) {
@@ -1353,10 +1354,10 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 template <class BoundaryCallableT>
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape, std::filesystem::path tmpdir, std::size_t overlap,
 								     BoundaryCallableT&& boundary_evaluator, const ChunkHints& hints) {
-  ind_t global_start_ind(0);
-  shape_t global_shape = m_library.GetShape();
+  ind_t global_start_ind = m_library.GetStartInd();
+  ind_t global_end_ind = m_library.GetEndInd();
   
-  RebuildChunksPartial(global_start_ind, global_shape, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
-- 
2.43.0


From f9ff490a587aa198a6b24b181aafd282a70f3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 18/20] fix: sample positions stay aligned across all-zero
 chunks, and missing chunks are reported

---
 eisvogel/core/impl/GreensFunction.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..4f12c6c 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <stdexcept>
 #include "GreensFunction.hh"
 #include "Serialization.hh"
 #include "Interpolation.hh"
@@ -383,6 +384,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
       return;
     }
 
+    // Otherwise, there is no data that could be used for this location
+    if(meta == nullptr) {
+      throw std::runtime_error("Error: track outside of Green's function domain!");
+    }
+
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
@@ -431,6 +437,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+
+      // This chunk contains only zeroes, i.e. there is nothing to accumulate for the samples it determines
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From 2b493127d5b212e321262ad2652351b2c9e946c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:24 +0000
Subject: [PATCH 19/20] fix: RebuildChunks works in a new subdirectory and
 leaves the contents of tmpdir alone

All of tmpdir was deleted at the end (with scratchdir = /tmp, as in the
examples, everything in /tmp), and an array already stored in tmpdir became
part of the rebuilt one.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index e2af1d6..665ca07 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1357,17 +1357,24 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t
   ind_t global_start_ind = m_library.GetStartInd();
   ind_t global_end_ind = m_library.GetEndInd();
   
-  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  // Work in a new subdirectory: whatever else is stored in `tmpdir` must neither be imported nor deleted
+  bool created_tmpdir = std::filesystem::create_directory(tmpdir);
+  std::filesystem::path rebuild_dir = tmpdir / get_chunkfile_path();
+  
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, rebuild_dir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
 
   // ... pull in the contents of the rebuilt one ...
-  m_library.ImportLibrary(tmpdir);
+  m_library.ImportLibrary(rebuild_dir);
   m_library.FlushLibrary();
 
   // ... and delete the temporary directory
-  std::filesystem::remove_all(tmpdir);
+  std::filesystem::remove_all(rebuild_dir);
+  if(created_tmpdir) {
+    std::filesystem::remove(tmpdir);
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From 4369adc4f14f93890e6747ef2737421a984c31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:56 +0000
Subject: [PATCH 20/20] fix: evaluate a sample at the end of a chunk from the
 next chunk

The interpolation stencil of a sample that lies exactly at the (exclusive) end
index of a chunk reaches beyond the overlap of this chunk, i.e. into unrelated
elements of the next row or past the end of the buffer.
---
 eisvogel/core/impl/GreensFunction.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 4f12c6c..fc2b401 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -392,16 +392,16 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-    // Check how many of the next samples are determined by the currently-loaded chunk
-    std::size_t chunk_num_samples = (std::size_t)((RZTIndexVector::t(meta -> end_ind) - cur_f_ind.t()) / t_samp_f_ind) + 1;
+    // Check how many of the next samples are determined by the currently-loaded chunk, i.e. lie before its (exclusive) `end_ind`: at
+    // `end_ind` itself, the interpolation stencil would reach beyond the overlap
+    std::size_t chunk_num_samples = (std::size_t)std::ceil((RZTIndexVector::t(meta -> end_ind) - cur_f_ind.t()) / t_samp_f_ind);
 
     // std::cout << "chunk_num_samples = " << chunk_num_samples << std::endl;
     
     // Make sure to not request more samples than needed
     std::size_t samples_to_request = std::min(chunk_num_samples, num_samples - cur_sample_ind);
 
-    // Ensure that we're not going too far (interpolation end point `cur_t_end_f_ind` is exclusive,
-    // i.e. can reach up to and including the `end_ind` of the chunk)
+    // Ensure that we're not going too far
     assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind <= RZTIndexVector::t(meta -> end_ind));
     
     // std::cout << "HHHHHHHHH" << std::endl;
-- 
2.43.0


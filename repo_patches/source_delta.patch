From a10f662cd89d87b3d708c41f1ed3712fc5b38a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 01/40] fix: updating a neighbour of a node removed without
 edges no longer throws

---
 include/executor/jobs/graph_update_job.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..e723625 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -166,10 +166,10 @@ class GraphUpdateJob {
       if (nbr == static_cast<IDType>(-1)) {
         break;
       }
-      if (job_context_->removed_vertices_.count(nbr)) {
-        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_.at(nbr)) {
-          candidate_nbrs.insert(second_hop_nbr);
-        }
+      // A vertex removed while it had no neighbor has no entry here.
+      if (auto it = job_context_->removed_node_nbrs_.find(nbr);
+          it != job_context_->removed_node_nbrs_.end()) {
+        candidate_nbrs.insert(it->second.begin(), it->second.end());
       }
       candidate_nbrs.insert(nbr);
     }
-- 
2.43.0


From a051068546cf9ac9d88b6d0e10877c24226a003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 02/40] fix: nodes inserted next to removed nodes stay
 reachable by search

---
 include/executor/jobs/graph_update_job.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index e723625..8721d66 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <limits>
@@ -189,7 +190,15 @@ class GraphUpdateJob {
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-    graph_->update(node_id, updated_edges.data());
+    if (graph_->update(node_id, updated_edges.data()) == invalid_id()) {
+      // node_id has been removed but searches still route through it (it may even be the entry
+      // point), so it has to lead to the nodes inserted next to it.
+      std::copy(updated_edges.begin(), updated_edges.end(), graph_->edges(node_id));
+      if (auto it = job_context_->removed_node_nbrs_.find(node_id);
+          it != job_context_->removed_node_nbrs_.end()) {
+        it->second = updated_edges;
+      }
+    }
   }
 
  private:
-- 
2.43.0


From 645a1317bbb64129acfe35bab6f16d8a5955a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 03/40] fix: boolean values in Python metadata filters match
 boolean fields

---
 python/include/parse.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/include/parse.hpp b/python/include/parse.hpp
index d0743c0..de69ffe 100644
--- a/python/include/parse.hpp
+++ b/python/include/parse.hpp
@@ -8,6 +8,7 @@
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/pytypes.h>
+#include <pybind11/stl.h>
 
 #include <cstring>
 #include <stdexcept>
@@ -20,6 +21,23 @@
 #include "executor/search_info.hpp"
 #include "utils/scalar_data.hpp"
 
+namespace pybind11::detail {
+
+// A Python bool is also an int: without this, True and False would become the integers 1 and 0 and
+// never equal the booleans that pydict_to_metadata_map() stores.
+template <>
+struct type_caster<alaya::MetadataValue> : variant_caster<alaya::MetadataValue> {
+  bool load(handle src, bool convert) {
+    if (isinstance<bool_>(src)) {
+      value = src.cast<bool>();
+      return true;
+    }
+    return variant_caster<alaya::MetadataValue>::load(src, convert);
+  }
+};
+
+}  // namespace pybind11::detail
+
 namespace alaya {
 
 namespace py = pybind11;
-- 
2.43.0


From d631afbbd929e975ddc48b69913ae8a68a10fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 04/40] fix: iterative hybrid search returns the nearest
 matches of the beam

---
 include/executor/jobs/graph_hybrid_search_job.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/executor/jobs/graph_hybrid_search_job.hpp b/include/executor/jobs/graph_hybrid_search_job.hpp
index b50f3bc..3e3b4fa 100644
--- a/include/executor/jobs/graph_hybrid_search_job.hpp
+++ b/include/executor/jobs/graph_hybrid_search_job.hpp
@@ -302,9 +302,10 @@ struct GraphHybridSearchJob {
     std::vector<DistanceType> candidate_distances;
     std::vector<uint8_t> matches;
 
-    while (result_pool.size() < search_info.topk_ && iterator->has_next()) {
-      auto batch_size = static_cast<size_t>(search_info.topk_ - result_pool.size());
-      iterator->next_batch(batch_size, candidate_ids, candidate_distances);
+    // The iterator yields candidates in the order the beam expands them, the first one being the
+    // entry point: only the exhausted beam tells which matches are the nearest.
+    while (iterator->has_next()) {
+      iterator->next_batch(search_info.topk_, candidate_ids, candidate_distances);
       if (candidate_ids.empty()) {
         break;
       }
@@ -315,9 +316,6 @@ struct GraphHybridSearchJob {
           continue;
         }
         result_pool.insert(candidate_ids[i], candidate_distances[i]);
-        if (result_pool.size() == search_info.topk_) {
-          break;
-        }
       }
     }
 
-- 
2.43.0


From fe2241250f30daa96715fe0b5096ffad42663eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 05/40] fix: secondary index lookups ignore keys of longer
 values and field names

---
 include/storage/rocksdb_storage.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..164f854 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -561,6 +561,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // Keys of longer string values share the prefix: only the id may follow it.
+      if (key.find_first_not_of("0123456789", prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
@@ -605,6 +609,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (encoded_value.size() != end_encoded.size()) {
+        continue;  // Key of another field whose name extends this one
+      }
       if (encoded_value > end_encoded) {
         break;  // Exceeded max value
       }
@@ -649,6 +656,9 @@ class RocksDBStorage {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
+      if (encoded_value.size() != end_encoded.size()) {
+        continue;  // Key of another field whose name extends this one
+      }
       if (encoded_value > end_encoded) {
         break;
       }
-- 
2.43.0


From 4881d45f6230b3a49cafe7d3e868576682418c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 06/40] fix: indexed double filters treat -0.0 as 0.0 and
 honour the range limits

---
 include/utils/index_encoding.hpp          |  3 +++
 include/utils/metadata_filter_matcher.hpp | 13 +++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..6ccf11e 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -51,6 +51,9 @@ inline auto decode_int64(const std::string &s) -> int64_t {
 inline auto encode_double(double value) -> std::string {
   uint64_t bits;
   std::memcpy(&bits, &value, sizeof(bits));
+  if ((bits << 1) == 0U) {
+    bits = 0;  // -0.0 equals 0.0 and has to share its key
+  }
   if ((bits >> 63) != 0U) {
     bits = ~bits;  // Negative: flip all bits
   } else {
diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..4872a34 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -196,7 +196,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -213,8 +213,9 @@ class MetadataFilterExecutor {
           auto value = std::get<double>(cond.value);
           return storage_
               ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+                                        std::nextafter(value,
+                                                       std::numeric_limits<double>::infinity()),
+                                        std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +226,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   -std::numeric_limits<double>::infinity(),
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -243,9 +244,9 @@ class MetadataFilterExecutor {
           auto value = std::get<double>(cond.value);
           return storage_
               ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
+                                        -std::numeric_limits<double>::infinity(),
                                         std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+                                                       -std::numeric_limits<double>::infinity()));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From 58ce5420729a8b4dcae811fa8b6b315ff26ece63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 07/40] fix: a full index refuses inserts and upserts instead
 of dropping them

---
 python/include/index.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..cfb4d6c 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -346,6 +346,15 @@ class PyIndex : public BasePyIndex {
     }
   }
 
+  // Slots are never given back: a full index has to refuse before anything is logged or removed.
+  void validate_insert_capacity() const {
+    if (update_job_ != nullptr && build_space_ != nullptr &&
+        build_space_->get_data_num() >= build_space_->get_capacity()) {
+      throw std::runtime_error("The index is full: capacity " +
+                               std::to_string(build_space_->get_capacity()));
+    }
+  }
+
   auto remove_nondurable(IDType id) -> void {
     if (update_job_ == nullptr) {
       throw std::runtime_error("incremental updates are not supported for the current index type");
@@ -697,6 +706,7 @@ class PyIndex : public BasePyIndex {
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
     validate_insert_item_id_available(scalar_data);
+    validate_insert_capacity();
 
     // TODO(P2): RocksDB has its own internal WAL and the custom WAL must stay
     // in sync. If the process crashes between insert_nondurable (RocksDB write)
@@ -727,6 +737,7 @@ class PyIndex : public BasePyIndex {
     auto insert_data_ptr = static_cast<DataType *>(insert_data.request().ptr);
     MetadataMap meta_map = pydict_to_metadata_map(metadata);
     ScalarData scalar_data{item_id, document, meta_map};
+    validate_insert_capacity();
 
     if (recovery_manager_ != nullptr) {
       auto op_id = next_recovery_op_id_++;
-- 
2.43.0


From 17a8e64baea4feb7a19cf263cdafe1d9ed5f020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 08/40] fix: iterative search of a materialized view returns
 the nearest matches

---
 python/include/materialized_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/include/materialized_view.hpp b/python/include/materialized_view.hpp
index 053f26f..2bef416 100644
--- a/python/include/materialized_view.hpp
+++ b/python/include/materialized_view.hpp
@@ -731,7 +731,7 @@ class MaterializedViewManager {
 
     if (search_info.filter_exec_hint_ == FilterExecHint::kIterativeFilter) {
       auto iterator = partition.search_job_->make_vector_iterator(query, local_search_info);
-      while (results.size() < local_search_info.topk_ && iterator->has_next()) {
+      while (iterator->has_next()) {
         auto candidate = iterator->next();
         if (!candidate.has_value()) {
           break;
-- 
2.43.0


From 29435ffe1e1ab45f8c35793ed7db8396d003688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 09/40] fix: a torn write-ahead log tail no longer hides later
 operations

---
 include/recovery/write_ahead_log.hpp | 40 ++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..79cd090 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,49 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Returns the length of the leading part of the WAL file that replay can read.
+   *
+   * A crash can leave a torn frame at the end of the file. Frames appended behind it would never be
+   * replayed, so the torn tail has to be cut off before the log is extended.
+   */
+  [[nodiscard]] auto readable_prefix_size(uintmax_t wal_file_size) const -> uintmax_t {
+    std::ifstream input(path_, std::ios::binary);
+    if (!input.is_open()) {
+      throw std::runtime_error("Failed to open WAL file at " + path_.string());
+    }
+    uintmax_t prefix_size = 0;
+    while (true) {
+      auto header = read_frame_header(input);
+      if (!header.has_value() ||
+          !payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+        return prefix_size;
+      }
+      input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+      uint32_t trailer = 0;
+      input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+      if (!input || trailer != kWalTrailerMagic) {
+        return prefix_size;
+      }
+      prefix_size = static_cast<uintmax_t>(input.tellg());
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      std::error_code size_ec;
+      const auto wal_file_size = fs::file_size(path_, size_ec);
+      if (!size_ec && wal_file_size > 0) {
+        const auto prefix_size = readable_prefix_size(wal_file_size);
+        if (prefix_size < wal_file_size) {
+          LOG_WARN("WAL torn tail removed: path={} kept={} of {} bytes",
+                   path_.string(),
+                   prefix_size,
+                   wal_file_size);
+          fs::resize_file(path_, prefix_size);
+        }
+      }
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From bad69581b963e667d7de8ae31090f5771f5050f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 10/40] fix: a crash while rebuilding an index no longer
 replays superseded operations

---
 python/include/index.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index cfb4d6c..a402c39 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -693,6 +693,10 @@ class PyIndex : public BasePyIndex {
                                        build_space_,
                                        materialized_view_ef_construction,
                                        materialized_view_build_threads);
+    // The fitted data replaces everything logged before it, so none of those operations may be
+    // replayed on top of this snapshot if the process stops before the log is truncated.
+    last_committed_recovery_op_id_ =
+        std::max(last_committed_recovery_op_id_, last_seen_recovery_op_id_);
     checkpoint_recovery_snapshot("post_fit");
     LOG_DEBUG("Create task generator successfully!");
   }
-- 
2.43.0


From 8520009770f84448f4cfc409f50e64e96fd68f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 11/40] fix: a collection stays usable after a crash during its
 first insert

---
 python/src/alayalite/collection.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 8f87de4..0928b92 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -94,6 +94,20 @@ class Collection:
             {"type": "collection", "index": self.__index_params.to_json_dict()},
         )
 
+    def _discard_unfinished_first_insert(self) -> None:
+        """
+        Remove the database left behind when the process stopped during the very first insert.
+
+        The schema file is written once the first batch is stored, so a client-managed collection directory
+        without it holds nothing that was ever acknowledged.
+        """
+        rocksdb_path = self.__index_params.rocksdb_path
+        collection_dir = os.path.dirname(rocksdb_path)
+        if rocksdb_path != _default_rocksdb_path(self.__name, os.path.dirname(collection_dir)):
+            return
+        if os.path.isdir(rocksdb_path) and not os.path.exists(os.path.join(collection_dir, "schema.json")):
+            shutil.rmtree(rocksdb_path)
+
     def batch_query(
         self,
         vectors: List[List[float]],
@@ -256,6 +270,7 @@ class Collection:
             # Collection always requires scalar data storage
             self.__index_params.has_scalar_data = True
 
+            self._discard_unfinished_first_insert()
             index = Index(self.__name, self.__index_params)
 
             # Prepare batch data
-- 
2.43.0


From a76eaa0cc1d77364fc8459fbdde87edbc65695e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 12/40] fix: snapshot files reach stable storage before they
 replace the log

---
 include/recovery/recovery_manager.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..97c3371 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -87,6 +87,8 @@ class RecoveryManager {
   auto publish_snapshot(const SnapshotManifest &manifest, const fs::path &snapshot_dir) const
       -> void {
     ensure_layout();
+    sync_tree(snapshot_dir);
+    platform::sync_directory(snapshots_dir_);
     auto manifest_path = snapshot_dir / "manifest.txt";
     write_text_atomically(manifest_path, manifest.serialize());
     write_text_atomically(current_path_, manifest.snapshot_id_ + "\n");
@@ -213,6 +215,26 @@ class RecoveryManager {
     }
   }
 
+  /**
+   * @brief Forces every file and directory of a snapshot to stable storage.
+   *
+   * The log and the older snapshots are removed once CURRENT names the new snapshot, so nothing of
+   * it may still depend on unsynced data by then.
+   */
+  static auto sync_tree(const fs::path &root) -> void {
+    if (!fs::exists(root)) {
+      return;
+    }
+    for (const auto &entry : fs::recursive_directory_iterator(root)) {
+      if (entry.is_regular_file()) {
+        platform::sync_file_or_throw(entry.path());
+      } else if (entry.is_directory()) {
+        platform::sync_directory(entry.path());
+      }
+    }
+    platform::sync_directory(root);
+  }
+
   static auto trim(std::string value) -> std::string {
     while (!value.empty() &&
            (value.back() == '\n' || value.back() == '\r' || value.back() == ' ')) {
-- 
2.43.0


From d6529506f7eba1102ddf3f11ef1767d5b9ae245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 13/40] fix: a new snapshot never reuses the directory of an
 existing one

---
 include/recovery/recovery_manager.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 97c3371..5d1e9f7 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -65,11 +65,16 @@ class RecoveryManager {
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
     auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // The clock may repeat a value; a directory in use must never be handed out again.
+    while (true) {
+      std::ostringstream name;
+      name << "snapshot-" << now;
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+      ++now;
+    }
   }
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-- 
2.43.0


From 045a0415a27017fd26758c7bc8c9b0f76e530edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 14/40] fix: failing write-ahead log writes are reported
 instead of acknowledged

---
 include/recovery/write_ahead_log.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 79cd090..6e2b083 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -390,12 +390,18 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopening removes whatever part of the frame reached the file.
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append to WAL file at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From 52ddb2aed840cb7d0797e0125216c16c1743d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 15/40] fix: a new collection's schema survives a power failure

---
 python/src/alayalite/schema.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/src/alayalite/schema.py b/python/src/alayalite/schema.py
index 619f51c..00c3248 100644
--- a/python/src/alayalite/schema.py
+++ b/python/src/alayalite/schema.py
@@ -203,6 +203,17 @@ def load_schema(url) -> dict:
         return json.load(f)
 
 
+def _sync_directory(path):
+    """Make the entries of a directory durable where the platform lets directories be opened."""
+    if not hasattr(os, "O_DIRECTORY"):
+        return
+    fd = os.open(path, os.O_RDONLY | os.O_DIRECTORY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+
 def save_schema(schema_url, schema_map):
     schema_dir = os.path.dirname(schema_url)
     if schema_dir:
@@ -213,6 +224,10 @@ def save_schema(schema_url, schema_map):
         f.flush()
         os.fsync(f.fileno())
     os.replace(tmp_schema_url, schema_url)
+    # The rename, and a directory created for it, must not be lost to a power failure either.
+    schema_dir = os.path.abspath(schema_dir)
+    _sync_directory(schema_dir)
+    _sync_directory(os.path.dirname(schema_dir))
 
 
 def is_index_url(url):
-- 
2.43.0


From 9974dc217241d4cfb107025e8c692fd4e76c5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 16/40] fix: the scalar store's record count survives a crash

The count was only written when flushing or closing, so a killed process (or a
read-only handle opened next to a writer) saw a stale one. Write it in the same
batch as the records.
---
 include/storage/rocksdb_storage.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 164f854..6c3fba2 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -240,6 +240,7 @@ class RocksDBStorage {
 
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
+    put_count(batch, cached_count_.load() + (replacing_existing ? 0 : 1));
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -345,6 +346,7 @@ class RocksDBStorage {
       // Add field indexes for indexed fields
       add_field_indexes(batch, record.id, record.data);
     }
+    put_count(batch, cached_count_.load() + inserted_count);
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -379,6 +381,8 @@ class RocksDBStorage {
 
     // Remove field indexes
     remove_field_indexes(batch, id, data);
+    size_t count = cached_count_.load();
+    put_count(batch, count > 0 ? count - 1 : 0);
 
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
@@ -994,6 +998,11 @@ class RocksDBStorage {
     db_->Put(sync_options, count_key(), count_slice);
   }
 
+  // The count changes in the same batch as the records it counts.
+  static void put_count(rocksdb::WriteBatch &batch, size_t count) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&count), sizeof(count)));
+  }
+
   static auto item_id_index_key(const std::string &item_id) -> std::string {
     return "i_" + item_id;
   }
-- 
2.43.0


From d3676286b70e31ac6fa7263a22e874254d9f9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 17/40] fix: vector stores keep slot numbers and counts in step
 when an insertion is refused

---
 include/space/raw_space.hpp | 20 ++++++++++++++++++--
 include/space/sq4_space.hpp | 18 ++++++++++++++----
 include/space/sq8_space.hpp | 18 ++++++++++++++----
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..d6b2b47 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -162,11 +162,24 @@ class RawSpace {
    * @param scalar_data Optional scalar data
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
+    if constexpr (has_scalar_data) {
+      // Refuse a taken item id before a slot is used up.
+      if (scalar_data != nullptr && scalar_storage_ != nullptr &&
+          !scalar_storage_->item_id_available(scalar_data->item_id,
+                                              static_cast<IDType>(data_storage_.pos_))) {
+        throw std::runtime_error("Failed to insert ScalarData");
+      }
+    }
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return id;
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -180,13 +193,16 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
         scalar_storage_->remove(id);
       }
     }
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   auto remove(const std::string &item_id) -> IDType {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..765c460 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -278,6 +278,14 @@ class SQ4Space {
    * @return IDType The ID of the inserted data point (-1 for failure)
    */
   auto insert(DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
+    if constexpr (has_scalar_data) {  // NOLINT
+      // Refuse a taken item id before a slot is used up.
+      if (scalar_data != nullptr && scalar_storage_ != nullptr &&
+          !scalar_storage_->item_id_available(scalar_data->item_id,
+                                              static_cast<IDType>(data_storage_.pos_))) {
+        throw std::runtime_error("Failed to insert ScalarData");
+      }
+    }
     auto id = data_storage_.reserve();
     if (id == static_cast<IDType>(-1)) {
       return static_cast<IDType>(-1);
@@ -291,7 +299,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -308,8 +316,6 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
@@ -317,7 +323,11 @@ class SQ4Space {
       }
     }
 
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   /**
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..a5f9e62 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -277,6 +277,14 @@ class SQ8Space {
    * @return IDType The ID of the inserted data point (-1 for failure)
    */
   auto insert(DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
+    if constexpr (has_scalar_data) {  // NOLINT
+      // Refuse a taken item id before a slot is used up.
+      if (scalar_data != nullptr && scalar_storage_ != nullptr &&
+          !scalar_storage_->item_id_available(scalar_data->item_id,
+                                              static_cast<IDType>(data_storage_.pos_))) {
+        throw std::runtime_error("Failed to insert ScalarData");
+      }
+    }
     auto id = data_storage_.reserve();
     if (id == static_cast<IDType>(-1)) {
       return static_cast<IDType>(-1);
@@ -290,7 +298,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -307,8 +315,6 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
@@ -316,7 +322,11 @@ class SQ8Space {
       }
     }
 
-    return data_storage_.remove(id);
+    auto removed = data_storage_.remove(id);
+    if (removed != static_cast<IDType>(-1)) {
+      delete_cnt_++;
+    }
+    return removed;
   }
 
   /**
-- 
2.43.0


From 7f712c904577160ed4cb55c09a73844eb1ca9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 18/40] fix: a disk segment published by a failed flush does
 not block the retry

---
 include/index/disk/disk_collection.hpp | 37 +++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..9ac95bd 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -924,12 +924,18 @@ class DiskCollection {
     // the dispatch decision in one place. The factory call also constructs
     // the searcher, so a builder-side or open-side failure is reported from
     // a single throw site.
-    auto searcher = create_segment_from_pending(seg_dir,
-                                                manifest_,
-                                                pending_vectors_.data(),
-                                                pending_labels_.data(),
-                                                pending_labels_.size(),
-                                                vamana_params_);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = create_segment_from_pending(seg_dir,
+                                             manifest_,
+                                             pending_vectors_.data(),
+                                             pending_labels_.data(),
+                                             pending_labels_.size(),
+                                             vamana_params_);
+    } catch (...) {
+      retire_segment_id_if_published(seg_id, seg_dir);
+      throw;
+    }
     // Segment is now on disk. Any subsequent failure in this function leaves
     // an orphan segment that will be classified as kind=complete on next open.
     // Eagerly advance in-memory next_segment_id so a retried flush() uses a
@@ -1009,7 +1015,13 @@ class DiskCollection {
     const std::string seg_basename = detail::format_segment_id(seg_id);
     const auto seg_dir = path_ / "segments" / seg_basename;
 
-    auto searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    } catch (...) {
+      retire_segment_id_if_published(seg_id, seg_dir);
+      throw;
+    }
 
     // Segment is now on disk. Match flush(): advance next_segment_id before
     // manifest publication so a retry after manifest-publish failure uses a
@@ -1247,6 +1259,17 @@ class DiskCollection {
   static auto is_deleted(uint64_t /*label*/) -> bool { return false; }
 
  private:
+  // A segment can be published on disk although creating it failed: the
+  // builder renames the directory into place before the searcher opens it.
+  // Give its id up, so that a retry does not collide with the orphan.
+  void retire_segment_id_if_published(uint64_t seg_id, const std::filesystem::path &seg_dir) {
+    std::error_code ec;
+    if (std::filesystem::symlink_status(seg_dir, ec).type() !=
+        std::filesystem::file_type::not_found) {
+      manifest_.next_segment_id = seg_id + 1;
+    }
+  }
+
   DiskCollection() = default;
 
   void open_listed_segments() {
-- 
2.43.0


From c3f0ef7bace4d1a1fd8d9d08d1f9bf5ed3660bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 19/40] fix: opening a disk collection rejects repeated or
 mismatched segments and ill-typed settings

---
 include/index/disk/disk_collection.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 9ac95bd..dc86aae 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -534,9 +534,8 @@ inline auto parse_u32_extra(const CollectionManifest &manifest,
     return fallback;
   }
   try {
-    size_t pos = 0;
-    const auto value = std::stoull(it->second, &pos);
-    if (pos != it->second.size() || value > std::numeric_limits<uint32_t>::max()) {
+    const auto value = parse_uint64(it->second, key);
+    if (value > std::numeric_limits<uint32_t>::max()) {
       throw std::out_of_range("not uint32");
     }
     return static_cast<uint32_t>(value);
@@ -554,12 +553,7 @@ inline auto parse_u64_extra(const CollectionManifest &manifest,
     return fallback;
   }
   try {
-    size_t pos = 0;
-    const auto value = std::stoull(it->second, &pos);
-    if (pos != it->second.size()) {
-      throw std::out_of_range("not uint64");
-    }
-    return value;
+    return parse_uint64(it->second, key);
   } catch (const std::exception &e) {
     throw std::runtime_error("DiskCollection: invalid collection manifest " + key + "='" +
                              it->second + "': " + e.what());
@@ -1285,7 +1279,21 @@ class DiskCollection {
         throw std::runtime_error("DiskCollection: segment directory is a symlink: " +
                                  seg_dir.string());
       }
+      if (std::find(segment_dirs_.begin(), segment_dirs_.end(), seg_dir) != segment_dirs_.end()) {
+        throw std::runtime_error("DiskCollection: collection manifest lists a segment twice: " +
+                                 seg_dir.string());
+      }
       auto searcher = load_segment_from_manifest(seg_dir);
+      // Queries are sized, and hits merged, by the collection's own dim and
+      // metric: a segment of another shape must not be served.
+      const auto sm = SegmentManifest::load(seg_dir / "manifest.txt");
+      if (sm.dim != manifest_.dim || sm.metric != manifest_.metric ||
+          sm.index_type != manifest_.index_type) {
+        throw std::runtime_error(
+            "DiskCollection: segment manifest disagrees with the collection manifest on dim, "
+            "metric or index_type: " +
+            seg_dir.string());
+      }
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
     }
-- 
2.43.0


From ac5f163ff2935d96f8e51e4d22c14901f605bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 20/40] fix: a failed batched node read reaches its caller
 instead of an empty record

---
 include/index/graph/diskann/disk_page_io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..3d3873d 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -293,7 +293,11 @@ class DiskPageIO {
       for (uint32_t i = 0; i < count; ++i) {
         tasks.emplace_back(read_one(i));
       }
-      co_await coro::when_all(std::move(tasks));
+      // when_all() keeps a failed read's exception in its task: hand it to the caller.
+      auto reads = co_await coro::when_all(std::move(tasks));
+      for (auto &read : reads) {
+        read.return_value();
+      }
     };
     coro::sync_wait(run());
     return out;
-- 
2.43.0


From 8882f0d96a4d572a0ae860a330d115591d4d1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 21/40] fix: an error in a parallel disk search reaches the
 caller of batch_search instead of ending the process

---
 include/index/graph/diskann/diskann_index.hpp | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..9e2da19 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -30,6 +30,7 @@
 #include <chrono>
 #include <cstdint>
 #include <cstring>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iostream>
@@ -543,22 +544,34 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
+    std::mutex error_mutex;
+    std::exception_ptr first_error;
     std::vector<std::thread> pool;
     pool.reserve(workers);
     for (uint32_t w = 0; w < workers; ++w) {
       pool.emplace_back([&]() {
-        for (;;) {
-          const uint32_t qi = next.fetch_add(1);
-          if (qi >= n_queries) {
-            break;
+        try {
+          for (;;) {
+            const uint32_t qi = next.fetch_add(1);
+            if (qi >= n_queries) {
+              break;
+            }
+            run_one(qi);
+          }
+        } catch (...) {
+          std::lock_guard<std::mutex> guard(error_mutex);
+          if (!first_error) {
+            first_error = std::current_exception();
           }
-          run_one(qi);
         }
       });
     }
     for (auto &th : pool) {
       th.join();
     }
+    if (first_error) {
+      std::rethrow_exception(first_error);
+    }
   }
 
 #if defined(__linux__)
-- 
2.43.0


From a7c98e736c43a0d46eaa17ec957a34fb1b8e562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 22/40] fix: a vector inserted into a disk index whose
 reachable nodes were all removed can be found

---
 include/index/graph/diskann/diskann_index.hpp | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 9e2da19..04d5172 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -854,6 +854,9 @@ class DiskANNIndex {
     write_inserted_node(slot, query, pruned);
     publish_slots(&slot, &slot + 1);
     reconnect_inserted_neighbors(pruned, slot);
+    if (pruned.empty()) {
+      link_orphan(query, slot);
+    }
     return slot;
   }
 
@@ -1746,6 +1749,7 @@ class DiskANNIndex {
                                                       uint32_t batch_size,
                                                       coro::thread_pool &pool) {
     std::vector<uint32_t> ids(count, 0);
+    std::vector<uint8_t> orphan(count, 0);
     StagedEdges staged;
 
     auto reconnect_one = [this, &pool, &staged](uint32_t node_id) -> coro::task<> {
@@ -1769,11 +1773,13 @@ class DiskANNIndex {
     };
 
     auto insert_one =
-        [this, &pool, &staged, &reconnect_one, vectors, labels, &ids](uint32_t i) -> coro::task<> {
+        [this, &pool, &staged, &reconnect_one, vectors, labels, &ids, &orphan](
+            uint32_t i) -> coro::task<> {
       co_await pool.schedule();
       auto mark = std::chrono::steady_clock::now();
       const float *vec = vectors + static_cast<uint64_t>(i) * dim_;
       const std::vector<uint32_t> selected = co_await select_insert_neighbors_async(vec, pool);
+      orphan[i] = selected.empty() ? 1 : 0;
       st_search_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       {
         std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
@@ -1821,6 +1827,11 @@ class DiskANNIndex {
         co_await coro::when_all(std::move(tasks));
       };
       coro::sync_wait(run());
+      for (uint32_t i = off; i < end; ++i) {
+        if (orphan[i] != 0) {
+          link_orphan(vectors + static_cast<uint64_t>(i) * dim_, ids[i]);
+        }
+      }
     }
     return ids;
   }
@@ -2124,6 +2135,24 @@ class DiskANNIndex {
     pool.shutdown();
   }
 
+  /// An insert that met no live node (all it could reach was removed) selected
+  /// no neighbors, so no edge leads to it. Once published, link it to what is
+  /// reachable by now, or else hang it onto the entry point, whose record every
+  /// search reads even when it is removed.
+  void link_orphan(const float *query, uint32_t slot) {
+    if (slot == medoid_) {
+      return;
+    }
+    std::vector<uint32_t> found = select_insert_neighbors(query);
+    std::erase(found, slot);
+    if (found.empty()) {
+      update_node_impl_for_insert(medoid_, slot);
+      return;
+    }
+    update_node_impl_locked(slot, found);
+    reconnect_inserted_neighbors_serial(found, slot);
+  }
+
   void reconnect_inserted_neighbors(const std::vector<uint32_t> &neighbors, uint32_t slot) {
     if (neighbors.empty()) {
       return;
-- 
2.43.0


From a019d8f269afa5dc9b5a9c33088ff195da892a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 23/40] fix: a failed page read during a blocking disk search
 reaches its caller instead of stale bytes

---
 include/index/graph/diskann/beam_search.hpp | 31 +++++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a2392da..32454ae 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -47,6 +47,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstddef>
 #include <cstdint>
 #include <deque>
 #include <stdexcept>
@@ -167,6 +168,30 @@ inline void scan_and_insert_neighbors(alaya::vamana::NeighborPriorityQueue &rets
   }
 }
 
+/// Reads pages and waits for all of them. AlignedFileReader::read() drops the
+/// per-read results, so a failed read would pass for stale scratch bytes.
+inline void read_pages(AlignedFileReader &reader,
+                       const std::vector<AlignedRead> &reqs,
+                       uint64_t page_size,
+                       IOContext &ctx) {
+  constexpr size_t kMaxInFlight = 1024;  // libaio context size
+  std::vector<AlignedReadEvent> evts;
+  bool failed = false;
+  for (size_t at = 0; at < reqs.size(); at += kMaxInFlight) {
+    const size_t end = std::min(reqs.size(), at + kMaxInFlight);
+    std::vector<AlignedRead> wave(reqs.begin() + static_cast<std::ptrdiff_t>(at),
+                                  reqs.begin() + static_cast<std::ptrdiff_t>(end));
+    reader.submit_reqs(wave, ctx);
+    reader.get_events(ctx, static_cast<int>(wave.size()), evts);
+    for (const auto &e : evts) {
+      failed = failed || e.result != static_cast<int64_t>(page_size);
+    }
+  }
+  if (failed) {
+    throw std::runtime_error("disk search: short/failed page read");
+  }
+}
+
 /**
  * @brief No-PQ disk greedy search: a disk port of Vamana greedy search.
  *
@@ -247,7 +272,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     }
     std::vector<AlignedRead> r1;
     r1.emplace_back(off, page_size, id, td.sector_scratch);
-    reader.read(r1, td.ctx_);
+    read_pages(reader, r1, page_size, td.ctx_);
     if (page_io != nullptr) {
       page_io->search_fill_page(off, td.sector_scratch, version);
     }
@@ -332,7 +357,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
           td.io_req_versions.push_back(version);
         }
         if (!reqs.empty()) {
-          reader.read(reqs, td.ctx_);  // blocking; kernel runs the batch concurrently
+          read_pages(reader, reqs, page_size, td.ctx_);  // blocking; reads overlap
           if (page_io != nullptr) {
             for (size_t r = 0; r < reqs.size(); ++r) {
               page_io->search_fill_page(reqs[r].offset,
@@ -742,7 +767,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
     const bool peeked = page_io != nullptr && page_io->search_peek_page(page_off, buf, &version);
     if (!peeked) {
       rerank_req[0] = {page_off, page_size, id, buf};
-      reader.read(rerank_req, td.ctx_);
+      read_pages(reader, rerank_req, page_size, td.ctx_);
       if (page_io != nullptr) {
         page_io->search_fill_page(page_off, buf, version);
       }
-- 
2.43.0


From 60a9f2b348bd27a9ee806d411a82225cb299989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 24/40] fix: a disk search that fails waits for its reads in
 flight before its scratch is used again

---
 include/index/graph/diskann/beam_search.hpp | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index 32454ae..75bb755 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -192,6 +192,29 @@ inline void read_pages(AlignedFileReader &reader,
   }
 }
 
+/// Counts the reads of a pipelined search that are still in flight and, when
+/// the search ends early, waits for them: left alone they would complete into
+/// the scratch pages of the next search that uses the same ThreadData.
+struct PendingReads {
+  AlignedFileReader &reader;
+  IOContext &ctx;
+  size_t count = 0;
+
+  PendingReads(AlignedFileReader &r, IOContext &c) : reader(r), ctx(c) {}
+  PendingReads(const PendingReads &) = delete;
+  auto operator=(const PendingReads &) -> PendingReads & = delete;
+  ~PendingReads() {
+    if (count == 0) {
+      return;
+    }
+    try {
+      std::vector<AlignedReadEvent> evts;
+      reader.get_events(ctx, static_cast<int>(count), evts);
+    } catch (...) {  // the context itself is broken: nothing left to wait for
+    }
+  }
+};
+
 /**
  * @brief No-PQ disk greedy search: a disk port of Vamana greedy search.
  *
@@ -387,6 +410,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     }
     std::deque<uint32_t> pending;
     std::vector<AlignedReadEvent> evts;
+    PendingReads in_flight(reader, td.ctx_);
 
     // Expand closest-unexpanded nodes into `pending` until there is enough queued
     // to fill the free slots (relaxed greedy: may expand before a closer in-flight
@@ -440,6 +464,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
       }
       if (!reqs.empty()) {
         reader.submit_reqs(reqs, td.ctx_);
+        in_flight.count += reqs.size();
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -454,6 +479,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     while (td.has_inflight() || !pending.empty() || frontier.has_unexpanded_node()) {
       if (td.has_inflight()) {
         reader.get_events(td.ctx_, 1, evts);  // get_events clears + fills `evts`
+        --in_flight.count;
         for (const auto &e : evts) {
           if (e.result != static_cast<int64_t>(page_size)) {
             throw std::runtime_error("disk_greedy_search: short/failed read, result=" +
@@ -655,6 +681,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
     if (page_io != nullptr) {
       td.ensure_peek_scratch(page_size);
     }
+    PendingReads in_flight(reader, td.ctx_);
     auto fill_pipe = [&]() {
       reqs.clear();
       while (!free_slots.empty() && retset.has_unexpanded_node()) {
@@ -696,6 +723,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
       }
       if (!reqs.empty()) {
         reader.submit_reqs(reqs, td.ctx_);
+        in_flight.count += reqs.size();
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -714,6 +742,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         stats->inflight_sum += beam - free_slots.size();
       }
       reader.get_events(td.ctx_, 1, evts);
+      --in_flight.count;
       if (stats != nullptr) {
         stats->wait_us +=
             static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::microseconds>(
-- 
2.43.0


From bcc05e251461ec56809e50c0be54979e42e15c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 25/40] fix: reloading a disk index drops pipelined-search
 scratch sized for the previous one

---
 include/index/graph/diskann/diskann_index.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 04d5172..ca7470b 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2259,6 +2259,12 @@ class DiskANNIndex {
       }
     }
     thread_data_storage_.clear();
+    for (auto &td : pipeline_tds_) {  // sized for this index, not for the next one loaded
+      if (td) {
+        td->free_scratch();
+      }
+    }
+    pipeline_tds_.clear();
     while (thread_data_pool_.pop() != nullptr) {
     }
     reader_.reset();
-- 
2.43.0


From 69d1d1093d6fcb1b38fd1425ec9e32a8aed30970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 26/40] fix: a failed disk insert is reported and gives its
 slot back

---
 include/index/graph/diskann/diskann_index.hpp | 66 +++++++++++++------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index ca7470b..fc17f0e 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -850,8 +850,13 @@ class DiskANNIndex {
       std::lock_guard<std::mutex> slot_lock(slot_mutex_);
       slot = allocate_update_slot_unlocked(label);
     }
-    encode_pq_slot(query, slot);
-    write_inserted_node(slot, query, pruned);
+    try {
+      encode_pq_slot(query, slot);
+      write_inserted_node(slot, query, pruned);
+    } catch (...) {
+      abandon_slot(slot);
+      throw;
+    }
     publish_slots(&slot, &slot + 1);
     reconnect_inserted_neighbors(pruned, slot);
     if (pruned.empty()) {
@@ -1503,7 +1508,6 @@ class DiskANNIndex {
     update_ctx_.forget_slot(slot);
     max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
     set_label(slot, label);
-    ++live_count_;
     ops_since_last_insert_ = 0;
     return slot;
   }
@@ -1786,21 +1790,26 @@ class DiskANNIndex {
         std::lock_guard<std::mutex> slot_lock(slot_mutex_);
         ids[i] = allocate_update_slot_unlocked(labels[i]);
       }
-      encode_pq_slot(vec, ids[i]);
-      st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
-      if (page_io_->reactor_enabled()) {
-        // ONE wave warms every page this insert will RMW: the slot's own page
-        // (written below) plus all selected neighbors' pages (their reconnects
-        // read-modify-write them right after). One suspension instead of a
-        // wave per reconnect — the per-edge waves were the dominant queue load.
-        std::vector<uint32_t> warm;
-        warm.reserve(selected.size() + 1);
-        warm.push_back(ids[i]);
-        warm.insert(warm.end(), selected.begin(), selected.end());
-        co_await page_io_->prefetch_pages(warm.data(), warm.size(), pool);
+      try {
+        encode_pq_slot(vec, ids[i]);
+        st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
+        if (page_io_->reactor_enabled()) {
+          // ONE wave warms every page this insert will RMW: the slot's own page
+          // (written below) plus all selected neighbors' pages (their reconnects
+          // read-modify-write them right after). One suspension instead of a
+          // wave per reconnect — the per-edge waves were the dominant queue load.
+          std::vector<uint32_t> warm;
+          warm.reserve(selected.size() + 1);
+          warm.push_back(ids[i]);
+          warm.insert(warm.end(), selected.begin(), selected.end());
+          co_await page_io_->prefetch_pages(warm.data(), warm.size(), pool);
+        }
+        st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
+        write_inserted_node(ids[i], vec, selected);
+      } catch (...) {
+        abandon_slot(ids[i]);
+        throw;
       }
-      st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
-      write_inserted_node(ids[i], vec, selected);
       publish_slots(&ids[i], &ids[i] + 1);
       for (const uint32_t n : selected) {
         staged.add(n, ids[i]);
@@ -1811,7 +1820,7 @@ class DiskANNIndex {
       for (const uint32_t n : selected) {
         reconnects.emplace_back(reconnect_one(n));
       }
-      co_await coro::when_all(std::move(reconnects));
+      co_await await_all(std::move(reconnects));
       st_reconnect_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
@@ -1824,7 +1833,7 @@ class DiskANNIndex {
         for (uint32_t i = off; i < end; ++i) {
           tasks.emplace_back(insert_one(i));
         }
-        co_await coro::when_all(std::move(tasks));
+        co_await await_all(std::move(tasks));
       };
       coro::sync_wait(run());
       for (uint32_t i = off; i < end; ++i) {
@@ -1843,10 +1852,27 @@ class DiskANNIndex {
     std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
     for (const uint32_t *it = begin; it != end; ++it) {
       slot_alloc_.publish(*it);
+      ++live_count_;
       label_to_slot_[labels_[*it]] = *it;
     }
   }
 
+  /// Give back a slot whose insert failed before it was published.
+  void abandon_slot(uint32_t slot) {
+    std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
+    std::lock_guard<std::mutex> slot_lock(slot_mutex_);
+    slot_alloc_.free(slot);
+  }
+
+  /// when_all() keeps each task's exception in its result: await the tasks and
+  /// rethrow the first failure.
+  static coro::task<> await_all(std::vector<coro::task<>> tasks) {
+    auto done = co_await coro::when_all(std::move(tasks));
+    for (auto &d : done) {
+      d.return_value();
+    }
+  }
+
   std::vector<alaya::vamana::Neighbor> score_candidates(uint32_t node_id,
                                                         const std::vector<uint32_t> &cand) {
     if (has_pq_) {
@@ -2124,7 +2150,7 @@ class DiskANNIndex {
       for (const uint32_t node_id : neighbors) {
         tasks.emplace_back(reconnect_one(node_id));
       }
-      co_await coro::when_all(std::move(tasks));
+      co_await await_all(std::move(tasks));
     };
     try {
       coro::sync_wait(run());
-- 
2.43.0


From 5b117f6b2bf80dc196927a2757b6dde5adba3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 27/40] fix: a disk search overtaken by slot reuse does not
 report one vector's label with another's distance

---
 include/index/graph/diskann/diskann_index.hpp | 286 ++++++++++--------
 1 file changed, 164 insertions(+), 122 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index fc17f0e..f13d23f 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -440,68 +440,14 @@ class DiskANNIndex {
       throw std::invalid_argument("DiskANNIndex::search: null output buffers");
     }
 
-    const auto ts0 = std::chrono::steady_clock::now();
-    const SearchSnapshot snapshot = make_search_snapshot();
-    const bool use_pq = params.use_pq && has_pq_;
-    std::shared_lock<std::shared_mutex> pq_lock;
-    if (use_pq) {
-      pq_lock = std::shared_lock<std::shared_mutex>(pq_mutex_);
-    }
-
-    ThreadData *td = acquire();
-    uint32_t count = 0;
-    std::vector<std::pair<uint32_t, float>> results;
-    try {
-      td->resize_slot_capacity(snapshot.max_slot_id);
-      if (stats != nullptr) {
-        stats->setup_us +=
-            static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::microseconds>(
-                                      std::chrono::steady_clock::now() - ts0)
-                                      .count());
+    for (uint32_t tries = 1;; ++tries) {
+      bool overtaken = false;
+      const uint32_t count =
+          search_once(query, top_k, out_labels, out_distances, params, stats, overtaken);
+      if (!overtaken || tries == kMaxSearchTries) {
+        return count;
       }
-      SearchContext ctx;
-      ctx.reader = reader_.get();
-      ctx.geom = &geom_;
-      ctx.cache = &cache_;
-      ctx.pq = use_pq ? &pq_ : nullptr;
-      ctx.medoid = medoid_;
-      ctx.num_points = snapshot.max_slot_id;
-      if (snapshot.has_tombstone) {
-        ctx.tombstone = &snapshot.tombstone;
-      }
-      ctx.page_io = search_page_io();
-
-      SearchParams sp;
-      sp.search_list_size = params.search_list_size;
-      sp.beam_width = beam_width_;
-      sp.use_pq = use_pq;
-      sp.rerank = params.rerank;
-      sp.rerank_count = params.rerank_count;
-      sp.deterministic = params.deterministic;
-
-      results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
-      count = static_cast<uint32_t>(results.size());
-    } catch (...) {
-      release(td);
-      throw;
     }
-    release(td);
-
-    {
-      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-      for (uint32_t i = 0; i < count; ++i) {
-        const uint32_t id = results[i].first;
-        out_labels[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-        out_distances[i] = results[i].second;
-      }
-    }
-
-    // Pad unused slots with sentinels so callers can detect short result rows.
-    for (uint32_t i = count; i < top_k; ++i) {
-      out_labels[i] = kNoLabel;
-      out_distances[i] = std::numeric_limits<float>::max();
-    }
-    return count;
   }
 
   // ------------------------------------------------------------ batch search
@@ -685,69 +631,62 @@ class DiskANNIndex {
         }
         try {
           const auto t0 = std::chrono::steady_clock::now();
-          const SearchSnapshot snapshot = make_search_snapshot();
-          td->resize_slot_capacity(snapshot.max_slot_id);
-          SearchContext ctx;
-          ctx.reader = reader_.get();
-          ctx.geom = &geom_;
-          ctx.cache = &cache_;
-          ctx.pq = use_pq ? &pq_ : nullptr;
-          ctx.medoid = medoid_;
-          ctx.num_points = snapshot.max_slot_id;
-          if (snapshot.has_tombstone) {
-            ctx.tombstone = &snapshot.tombstone;
-          }
-          ctx.page_io = search_page_io();
-
-          SearchParams sp;
-          sp.search_list_size = params.search_list_size;
-          sp.beam_width = beam_width_;
-          sp.use_pq = use_pq;
-          sp.rerank = false;
-          sp.deterministic = params.deterministic;
-
-          SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
-          const float *query = queries + static_cast<uint64_t>(qi) * dim_;
-          // No pq_mutex_ across the coroutine (a shared_mutex may not be
-          // released on another thread) — safe by the dark-slot protocol, see
-          // run_update_search_async.
-          std::vector<std::pair<uint32_t, float>> results;
-          if (use_pq) {
-            results = co_await pq_beam_search_async(ctx,
-                                                    query,
-                                                    ask,
-                                                    sp,
-                                                    *td,
-                                                    stats,
-                                                    *update_reactor_,
-                                                    pool,
-                                                    fd);
-          } else {
-            results = co_await disk_greedy_search_async(ctx,
-                                                        query,
-                                                        ask,
-                                                        sp,
-                                                        *td,
-                                                        stats,
-                                                        *update_reactor_,
-                                                        pool,
-                                                        fd);
-          }
-
-          uint64_t *labels_row = out_labels + static_cast<uint64_t>(qi) * top_k;
-          float *dist_row = out_distances + static_cast<uint64_t>(qi) * top_k;
-          const uint32_t count = std::min<uint32_t>(static_cast<uint32_t>(results.size()), top_k);
-          {
-            std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-            for (uint32_t i = 0; i < count; ++i) {
-              const uint32_t id = results[i].first;
-              labels_row[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-              dist_row[i] = results[i].second;
+          bool overtaken = true;
+          for (uint32_t tries = 1; overtaken && tries <= kMaxSearchTries; ++tries) {
+            const SearchSnapshot snapshot = make_search_snapshot();
+            td->resize_slot_capacity(snapshot.max_slot_id);
+            SearchContext ctx;
+            ctx.reader = reader_.get();
+            ctx.geom = &geom_;
+            ctx.cache = &cache_;
+            ctx.pq = use_pq ? &pq_ : nullptr;
+            ctx.medoid = medoid_;
+            ctx.num_points = snapshot.max_slot_id;
+            if (snapshot.has_tombstone) {
+              ctx.tombstone = &snapshot.tombstone;
             }
-          }
-          for (uint32_t i = count; i < top_k; ++i) {
-            labels_row[i] = kNoLabel;
-            dist_row[i] = std::numeric_limits<float>::max();
+            ctx.page_io = search_page_io();
+
+            SearchParams sp;
+            sp.search_list_size = params.search_list_size;
+            sp.beam_width = beam_width_;
+            sp.use_pq = use_pq;
+            sp.rerank = false;
+            sp.deterministic = params.deterministic;
+
+            SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
+            const float *query = queries + static_cast<uint64_t>(qi) * dim_;
+            // No pq_mutex_ across the coroutine (a shared_mutex may not be
+            // released on another thread) — safe by the dark-slot protocol, see
+            // run_update_search_async.
+            std::vector<std::pair<uint32_t, float>> results;
+            if (use_pq) {
+              results = co_await pq_beam_search_async(ctx,
+                                                      query,
+                                                      ask,
+                                                      sp,
+                                                      *td,
+                                                      stats,
+                                                      *update_reactor_,
+                                                      pool,
+                                                      fd);
+            } else {
+              results = co_await disk_greedy_search_async(ctx,
+                                                          query,
+                                                          ask,
+                                                          sp,
+                                                          *td,
+                                                          stats,
+                                                          *update_reactor_,
+                                                          pool,
+                                                          fd);
+            }
+            write_row(snapshot,
+                      results,
+                      top_k,
+                      out_labels + static_cast<uint64_t>(qi) * top_k,
+                      out_distances + static_cast<uint64_t>(qi) * top_k,
+                      overtaken);
           }
           if (per_query_us != nullptr) {
             per_query_us[qi] =
@@ -1099,6 +1038,7 @@ class DiskANNIndex {
 
   struct SearchSnapshot {
     uint64_t max_slot_id = 0;
+    uint64_t alloc_epoch = 0;
     TombstoneSnapshot tombstone;
     bool has_tombstone = false;
   };
@@ -1111,6 +1051,7 @@ class DiskANNIndex {
     SearchSnapshot snapshot;
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
     snapshot.max_slot_id = max_slot_id_;
+    snapshot.alloc_epoch = alloc_epoch_;
     // All tombstone mutators run under the exclusive side of update_mutex_
     // (verified in the A3 audit), so count() is stable under our shared lock:
     // zero set bits means the snapshot would be all-live — skip the copy. The
@@ -1123,6 +1064,100 @@ class DiskANNIndex {
     return snapshot;
   }
 
+  /// Tries of a search whose results were overtaken by slot reuse.
+  static constexpr uint32_t kMaxSearchTries = 8;
+
+  /// Write one result row. An entry whose slot was handed out again after the
+  /// search took its snapshot is left out: the distance may belong to the
+  /// removed vector and the label to the new one. Returns the number written;
+  /// @p overtaken tells that entries are missing from the row for this reason.
+  uint32_t write_row(const SearchSnapshot &snapshot,
+                     const std::vector<std::pair<uint32_t, float>> &results,
+                     uint32_t top_k,
+                     uint64_t *out_labels,
+                     float *out_distances,
+                     bool &overtaken) const {
+    uint32_t count = 0;
+    overtaken = false;
+    {
+      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
+      for (const auto &[id, distance] : results) {
+        if (count == top_k) {
+          break;
+        }
+        if (id < slot_epoch_.size() && slot_epoch_[id] > snapshot.alloc_epoch) {
+          overtaken = true;
+          continue;
+        }
+        out_labels[count] = id < labels_.size() ? labels_[id] : kNoLabel;
+        out_distances[count] = distance;
+        ++count;
+      }
+    }
+    overtaken = overtaken && count < top_k;
+    // Pad unused slots with sentinels so callers can detect short result rows.
+    for (uint32_t i = count; i < top_k; ++i) {
+      out_labels[i] = kNoLabel;
+      out_distances[i] = std::numeric_limits<float>::max();
+    }
+    return count;
+  }
+
+  uint32_t search_once(const float *query,
+                       uint32_t top_k,
+                       uint64_t *out_labels,
+                       float *out_distances,
+                       const DiskANNSearchParams &params,
+                       SearchStats *stats,
+                       bool &overtaken) const {
+    const auto ts0 = std::chrono::steady_clock::now();
+    const SearchSnapshot snapshot = make_search_snapshot();
+    const bool use_pq = params.use_pq && has_pq_;
+    std::shared_lock<std::shared_mutex> pq_lock;
+    if (use_pq) {
+      pq_lock = std::shared_lock<std::shared_mutex>(pq_mutex_);
+    }
+
+    ThreadData *td = acquire();
+    std::vector<std::pair<uint32_t, float>> results;
+    try {
+      td->resize_slot_capacity(snapshot.max_slot_id);
+      if (stats != nullptr) {
+        stats->setup_us +=
+            static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::microseconds>(
+                                      std::chrono::steady_clock::now() - ts0)
+                                      .count());
+      }
+      SearchContext ctx;
+      ctx.reader = reader_.get();
+      ctx.geom = &geom_;
+      ctx.cache = &cache_;
+      ctx.pq = use_pq ? &pq_ : nullptr;
+      ctx.medoid = medoid_;
+      ctx.num_points = snapshot.max_slot_id;
+      if (snapshot.has_tombstone) {
+        ctx.tombstone = &snapshot.tombstone;
+      }
+      ctx.page_io = search_page_io();
+
+      SearchParams sp;
+      sp.search_list_size = params.search_list_size;
+      sp.beam_width = beam_width_;
+      sp.use_pq = use_pq;
+      sp.rerank = params.rerank;
+      sp.rerank_count = params.rerank_count;
+      sp.deterministic = params.deterministic;
+
+      results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
+    } catch (...) {
+      release(td);
+      throw;
+    }
+    release(td);
+
+    return write_row(snapshot, results, top_k, out_labels, out_distances, overtaken);
+  }
+
   // ---- in-place update internals (update APIs are serialized; metadata writes
   //      take update_mutex_ only for the narrow mutation/snapshot windows) ----
 
@@ -1508,6 +1543,10 @@ class DiskANNIndex {
     update_ctx_.forget_slot(slot);
     max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
     set_label(slot, label);
+    if (slot >= slot_epoch_.size()) {
+      slot_epoch_.resize(static_cast<size_t>(slot) + 1, 0);
+    }
+    slot_epoch_[slot] = ++alloc_epoch_;
     ops_since_last_insert_ = 0;
     return slot;
   }
@@ -2298,6 +2337,7 @@ class DiskANNIndex {
     update_reactor_.reset();  // after page_io_: it holds a raw pointer to the reactor
     update_ctx_.clear();
     label_to_slot_.clear();
+    slot_epoch_.clear();
     updatable_ = false;
     loaded_ = false;
   }
@@ -2420,6 +2460,8 @@ class DiskANNIndex {
 
   // in-memory artifacts
   std::vector<uint64_t> labels_;
+  std::vector<uint64_t> slot_epoch_;  ///< alloc_epoch_ of each slot's latest allocation.
+  uint64_t alloc_epoch_ = 0;
   std::unordered_map<uint64_t, uint32_t> label_to_slot_;  ///< Live external label to slot.
   NodeCache cache_;
   PQTable pq_;
-- 
2.43.0


From 1f450053bfbd9297a0280a958811dcd1a6474765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 28/40] fix: reconnecting neighbors reads removed nodes' edges
 under the update lock

---
 include/index/graph/diskann/diskann_index.hpp | 55 +++++--------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index f13d23f..a0bb0f8 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2037,14 +2037,16 @@ class DiskANNIndex {
     update_node_impl_from_snapshot(node_id, nd, extra_edges);
   }
 
-  void update_node_impl_from_snapshot(uint32_t node_id,
-                                      const DiskPageIO::NodeData &nd,
-                                      const std::vector<uint32_t> &extra_edges) {
+  std::vector<uint32_t> reconnect_candidates(uint32_t node_id,
+                                             const DiskPageIO::NodeData &nd,
+                                             const std::vector<uint32_t> &extra_edges) {
     // Yi's co_update candidate order: staged/extra edges first, then live old
     // neighbors, then at most kTwoHopBypassPerDeleted live two-hop candidates
     // per deleted neighbor. Order-preserving with dedup (Yi skips the dedup
     // but the fast path keeps the pool verbatim, so duplicates would waste
-    // degree slots).
+    // degree slots). The lock covers removed_node_nbrs_: the insert of another
+    // coroutine forgets the entry of the slot it reuses.
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
     std::vector<uint32_t> cand;
     cand.reserve(extra_edges.size() + nd.nbrs.size());
     std::unordered_set<uint32_t> seen;
@@ -2080,7 +2082,13 @@ class DiskANNIndex {
         }
       }
     }
-    prune_and_write(node_id, nd.nbrs, cand);
+    return cand;
+  }
+
+  void update_node_impl_from_snapshot(uint32_t node_id,
+                                      const DiskPageIO::NodeData &nd,
+                                      const std::vector<uint32_t> &extra_edges) {
+    prune_and_write(node_id, nd.nbrs, reconnect_candidates(node_id, nd, extra_edges));
   }
 
   void update_node_impl_locked(uint32_t node_id, const std::vector<uint32_t> &extra_edges) {
@@ -2102,42 +2110,7 @@ class DiskANNIndex {
       co_return;
     }
     const DiskPageIO::NodeData nd = co_await page_io_->read_node_async(node_id, pool);
-    // Mirror update_node_impl_from_snapshot's candidate derivation.
-    std::vector<uint32_t> cand;
-    cand.reserve(extra_edges.size() + nd.nbrs.size() + 1);
-    std::unordered_set<uint32_t> seen;
-    const auto push = [&](uint32_t v) {
-      if (v != node_id && !slot_alloc_.is_deleted(v) && seen.insert(v).second) {
-        cand.push_back(v);
-      }
-    };
-    for (const uint32_t e : extra_edges) {
-      push(e);
-    }
-    const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
-    for (const uint32_t nbr : nd.nbrs) {
-      if (nbr == node_id) {
-        continue;
-      }
-      if (!slot_alloc_.is_deleted(nbr)) {
-        push(nbr);
-        continue;
-      }
-      const auto it = removed_node_nbrs.find(nbr);
-      if (it == removed_node_nbrs.end()) {
-        continue;
-      }
-      uint32_t pulled = 0;
-      for (const uint32_t o : it->second) {
-        if (o == node_id || slot_alloc_.is_deleted(o)) {
-          continue;
-        }
-        push(o);
-        if (++pulled == kTwoHopBypassPerDeleted) {
-          break;
-        }
-      }
-    }
+    std::vector<uint32_t> cand = reconnect_candidates(node_id, nd, extra_edges);
     if (cand.size() <= max_degree_) {
       co_return;  // fast path keeps the pool verbatim — no distance reads at all
     }
-- 
2.43.0


From c1878c2854badf8ba4ecf426420bd7a40061c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 29/40] fix: PQ codes are not read while a concurrent insert
 grows them

---
 include/index/graph/diskann/beam_search.hpp   |  3 +++
 .../index/graph/diskann/beam_search_async.hpp | 20 +++++++++++++------
 include/index/graph/diskann/diskann_index.hpp | 12 +++++------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index 75bb755..82623bd 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -50,6 +50,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <deque>
+#include <shared_mutex>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -85,6 +86,8 @@ struct SearchContext {
   const DiskLayoutGeometry *geom = nullptr;
   const NodeCache *cache = nullptr;
   const PQTable *pq = nullptr;  ///< nullptr => index has no PQ
+  /// Guards *pq against growth, for searches whose caller cannot hold it (may be null).
+  std::shared_mutex *pq_mutex = nullptr;
   uint32_t medoid = 0;
   uint64_t num_points = 0;
 
diff --git a/include/index/graph/diskann/beam_search_async.hpp b/include/index/graph/diskann/beam_search_async.hpp
index 1f057df..9e251f8 100644
--- a/include/index/graph/diskann/beam_search_async.hpp
+++ b/include/index/graph/diskann/beam_search_async.hpp
@@ -251,11 +251,10 @@ inline auto disk_greedy_search_async(const SearchContext &ctx,
 /// byte-identical to the deterministic one when nothing is cached).
 ///
 /// PQ-lock note: callers do NOT hold pq_mutex_ across this coroutine (a
-/// shared_mutex may not be released on a different thread than took it).
-/// That is safe by protocol: concurrent encode_pq_slot() only writes codes of
-/// slots that are still dark (allocated, not yet published), and the search's
-/// tombstone snapshot — taken before the search — masks every such slot, so
-/// pq_distance is never called on an entry being written.
+/// shared_mutex may not be released on a different thread than took it); the
+/// search takes ctx.pq_mutex itself around each look at the codes. The tombstone
+/// snapshot masks slots whose code is being written, but a concurrent
+/// encode_pq_slot() may also move the whole code array while growing it.
 inline auto pq_beam_search_async(const SearchContext &ctx,
                                  const float *query,
                                  uint32_t top_k,
@@ -281,11 +280,19 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
   auto &retset = td.retset;
   auto &visited = td.visited_bits;
 
+  // Taken only between suspensions (see the PQ-lock note).
+  const auto lock_pq = [&ctx]() {
+    return ctx.pq_mutex != nullptr ? std::shared_lock<std::shared_mutex>(*ctx.pq_mutex)
+                                   : std::shared_lock<std::shared_mutex>();
+  };
   pq.preprocess_query(query, td.pq_table.data(), td.pq_qres.data());
   const float *pq_table = td.pq_table.data();
 
   visited.set(ctx.medoid);
-  retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  {
+    const auto pq_lock = lock_pq();
+    retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  }
 
   const uint64_t beam = std::max<uint64_t>(1, params.beam_width);
   td.ensure_wave_scratch(beam * page_size);
@@ -297,6 +304,7 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
       stats->read_order.push_back(id);
       stats->n_nodes_processed++;
     }
+    const auto pq_lock = lock_pq();
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index a0bb0f8..f4be586 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -640,6 +640,7 @@ class DiskANNIndex {
             ctx.geom = &geom_;
             ctx.cache = &cache_;
             ctx.pq = use_pq ? &pq_ : nullptr;
+            ctx.pq_mutex = &pq_mutex_;
             ctx.medoid = medoid_;
             ctx.num_points = snapshot.max_slot_id;
             if (snapshot.has_tombstone) {
@@ -656,9 +657,6 @@ class DiskANNIndex {
 
             SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
             const float *query = queries + static_cast<uint64_t>(qi) * dim_;
-            // No pq_mutex_ across the coroutine (a shared_mutex may not be
-            // released on another thread) — safe by the dark-slot protocol, see
-            // run_update_search_async.
             std::vector<std::pair<uint32_t, float>> results;
             if (use_pq) {
               results = co_await pq_beam_search_async(ctx,
@@ -1296,6 +1294,7 @@ class DiskANNIndex {
         ctx.geom = &geom_;
         ctx.cache = &cache_;
         ctx.pq = has_pq_ ? &pq_ : nullptr;
+        ctx.pq_mutex = &pq_mutex_;
         ctx.medoid = medoid_;
         ctx.num_points = snapshot.max_slot_id;
         ctx.tombstone = &snapshot.tombstone;
@@ -1305,10 +1304,6 @@ class DiskANNIndex {
         sp.beam_width = beam_width_;
         sp.use_pq = has_pq_;
         sp.rerank = false;
-        // No pq_mutex_ here (a shared_mutex cannot be released on a different
-        // thread than locked it): safe because concurrent encode_pq_slot only
-        // writes codes of still-dark slots, all masked by snapshot.tombstone —
-        // see the note on pq_beam_search_async.
         if (has_pq_) {
           results = co_await pq_beam_search_async(ctx,
                                                   query,
@@ -1448,6 +1443,7 @@ class DiskANNIndex {
 
   std::vector<uint32_t> select_insert_neighbors_pq(const float *query,
                                                    std::vector<std::pair<uint32_t, float>> cand) {
+    std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     std::vector<uint8_t> query_code(pq_n_chunks_);
     pq_.encode_to_code(query, query_code.data());
     if (update_insert_prune_) {
@@ -1930,6 +1926,7 @@ class DiskANNIndex {
 
   std::vector<alaya::vamana::Neighbor> score_candidates_pq(uint32_t node_id,
                                                            const std::vector<uint32_t> &cand) {
+    std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
     for (const uint32_t c : cand) {
@@ -1966,6 +1963,7 @@ class DiskANNIndex {
       return new_nbrs;
     }
     if (has_pq_) {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       auto dist_fn = [this](uint32_t a, uint32_t b) -> float {
         return pq_.pq_symmetric_distance(a, b);
       };
-- 
2.43.0


From 4c07ca24e9f604a08d770a70b3a06c9674431d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 30/40] fix: every thread waiting for the pool's tasks is woken
 when they are done

---
 include/utils/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..c25a392 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -47,7 +47,7 @@ class ThreadPool {
           {
             std::lock_guard<std::mutex> lock(this->queue_mutex_);
             tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
+            condition_tasks_completed_.notify_all();
           }
         }
       });
@@ -108,7 +108,7 @@ class ThreadPool {
     std::unique_lock<std::mutex> lock(queue_mutex_);
     // Wait until the number of completed tasks matches the total number of tasks
     condition_tasks_completed_.wait(lock, [this, task_num]() -> bool {
-      return tasks_completed_.load() == task_num;
+      return tasks_completed_.load() >= task_num;
     });
   }
 
-- 
2.43.0


From a0c7e0c9c275cdba48ae0ce0c0d6b2189109cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 31/40] fix: coroutines scheduled after begin() are not lost by
 workers that have already gone

---
 include/executor/worker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..375563d 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -108,7 +108,8 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Before join(), more tasks may still be scheduled.
+          if (!active_ && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
@@ -170,7 +171,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic<bool> active_{true};  ///< Flag indicating whether the worker is active.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From cb5e8135a0f71db621059005dcfacf8f3d4ecffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 32/40] fix: an awaited operation does not queue its coroutine
 a second time

---
 include/executor/scheduler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..984a6e9 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -62,15 +62,15 @@ class Scheduler {
      * @brief Suspends the current coroutine and schedules it to be resumed later by a worker
      * thread.
      *
-     * This function stores the awaiting coroutine and hands control back to the scheduler. The
-     * coroutine will be resumed by the worker thread once the task is ready to continue.
+     * The worker that runs the coroutine keeps its handle and resumes it on its next round. It must
+     * not be put in the task queue as well, where another worker would resume it a second time.
      *
      * @param awaiting_coroutine The coroutine that is waiting to be resumed.
      * @return Always returns true to indicate that the coroutine is suspended.
      */
     template <typename Promise>
     auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+      awaiting_coroutine_ = awaiting_coroutine;
       return true;
     }
 
-- 
2.43.0


From 5dbfb72a3f1cd54e710b63e4eee2741121f8d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 33/40] fix: keep RaBitQ fast-scan sums within 16 bits at high
 dimensions

The lookup tables used 255 levels whatever the dimension, but the entries of
one code are added up in uint16: from about 1030 dimensions on sums could wrap,
and at 2048 ordinary data did, which made the distance estimates meaningless.
---
 include/utils/rabitq_utils/lut.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/utils/rabitq_utils/lut.hpp b/include/utils/rabitq_utils/lut.hpp
index 0fe4daf..f1910dd 100644
--- a/include/utils/rabitq_utils/lut.hpp
+++ b/include/utils/rabitq_utils/lut.hpp
@@ -16,9 +16,11 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <vector>
 
 #include "./defines.hpp"
@@ -104,7 +106,11 @@ class Lut {
     T vr_lut_f;  // max val of lut_float
     data_range(lut_float.data(), table_length_, vl_lut_f, vr_lut_f);
 
-    delta_ = (vr_lut_f - vl_lut_f) / ((1 << kNumBits) - 1);
+    // the nth_segments of one code are added up in 16 bits, so that many dimensions leave fewer levels
+    const size_t num_levels =
+        std::min<size_t>((1 << kNumBits) - 1,
+                         std::numeric_limits<uint16_t>::max() / std::max<size_t>(padded_dim / 4, 1));
+    delta_ = (vr_lut_f - vl_lut_f) / static_cast<T>(num_levels);
     // Here, 'the inner product (float) of every 4 dimensions from <x_b, P^(-1)·qr>' is quantized
     // into a knumBits-bit integer nth_segment. And it can be recovered to the nearest quantization
     // boundary using: vl_lut_f + nth_segment * delta
-- 
2.43.0


From 8bdf0189d8834273a1881dd536cb847ff372ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 34/40] fix: keep LASER query codes within QG_BQUERY bits

The rounding bias turned the greatest component into 64; four of these in one
group of a lookup table are 256, which wrapped to 0 in its byte.
---
 include/index/graph/laser/utils/scalar_quantize.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/laser/utils/scalar_quantize.hpp b/include/index/graph/laser/utils/scalar_quantize.hpp
index bdb75ba..57f525f 100644
--- a/include/index/graph/laser/utils/scalar_quantize.hpp
+++ b/include/index/graph/laser/utils/scalar_quantize.hpp
@@ -13,10 +13,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 
+#include "index/graph/laser/common.hpp"
 #include "simd/laser_dispatch.hpp"
 #include "utils/platform.hpp"
 
@@ -42,6 +44,7 @@ void quantize(T *ALAYA_RESTRICT result,
               float lo,
               float width,
               int32_t &sum_q) {
+  constexpr long kMaxCode = (1L << QG_BQUERY) - 1;  // NOLINT
   float one_over_width = 1.0F / width;
   int32_t sum = 0;
   T cur;
@@ -57,7 +60,10 @@ void quantize(T *ALAYA_RESTRICT result,
     // for +0.34 % Recall@10. See:
     //   results/gist1m/dsqg/recall_qps_fix_comparison.png
     // Re-test before assuming this trade-off survives a kernel rewrite.
-    cur = static_cast<T>(std::lround(((vec[i] - lo) * one_over_width) + 0.5));
+    //
+    // The bias must not carry the greatest value past QG_BQUERY bits, though:
+    // four codes are added up in one byte of the lookup table.
+    cur = static_cast<T>(std::min(std::lround(((vec[i] - lo) * one_over_width) + 0.5), kMaxCode));
     result[i] = cur;
     sum += cur;
   }
-- 
2.43.0


From 2ca7527b02edb08cb7f3961991ce473562147a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 35/40] fix: give LASER neighbors equal to their node finite
 factors

A duplicate of the node has a residual of length zero, the factors became
0/0 and the estimated distance NaN, which breaks the order of the search pool.
---
 include/index/graph/laser/quantization/rabitq.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/laser/quantization/rabitq.hpp b/include/index/graph/laser/quantization/rabitq.hpp
index 93caa06..33923c9 100644
--- a/include/index/graph/laser/quantization/rabitq.hpp
+++ b/include/index/graph/laser/quantization/rabitq.hpp
@@ -115,6 +115,10 @@ static inline void rabitq_factors(const RowMatrix<float> &rotated_data_residual,
     double cur_x = x_rotated_norm(j, 0);  // current dist 2 centroid
     double cur_x0 = fac_x0(j, 0);         // current <o, o_bar>
     double cur_x1 = fac_x1(j, 0);         // current <c, o_bar>
+    if (cur_x == 0) {                     // the neighbor is the centroid: its distance is exact
+      triple_x[j] = factor_dq[j] = factor_vq[j] = 0;
+      continue;
+    }
     long double x_x0 = static_cast<long double>(cur_x) / cur_x0;
 
     triple_x[j] = static_cast<float>((cur_x * cur_x) + (2 * x_x0 * cur_x1));
-- 
2.43.0


From 5815f0af9935bdf8d25e5c506709e65aae97b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 36/40] fix: read LASER fast-scan sums as unsigned

They are sums of unsigned bytes and pass 2^15 at about 2048 dimensions; they
were sign-extended, so the larger ones came out negative.
---
 include/simd/laser_dispatch.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/simd/laser_dispatch.hpp b/include/simd/laser_dispatch.hpp
index 7cf2bca..ca8b798 100644
--- a/include/simd/laser_dispatch.hpp
+++ b/include/simd/laser_dispatch.hpp
@@ -145,7 +145,7 @@ inline void convert_accum_to_float_generic(size_t count,
                                            int32_t sumq,
                                            float *ALAYA_RESTRICT result_float) {
   for (size_t i = 0; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
@@ -367,19 +367,17 @@ inline void convert_accum_to_float_avx512(size_t count,
                                           const uint16_t *ALAYA_RESTRICT result,
                                           int32_t sumq,
                                           float *ALAYA_RESTRICT result_float) {
-  // FastScan accumulators are stored as uint16 but carry int16 bit patterns
-  // (the _mm*_sub_epi16 in accumulate_impl_* can produce negatives). The SIMD
-  // path uses _mm*_cvtepi16_epi32 to sign-extend; the scalar tail mirrors this
-  // via static_cast<int16_t> -- changing it to int32_t would zero-extend and
-  // diverge from the SIMD output.
+  // FastScan accumulators are sums of unsigned bytes, taken modulo 2^16 (the
+  // _mm*_sub_epi16 in accumulate_impl_* leaves the true sum): they pass 2^15
+  // at about 2048 dimensions, so they are zero-extended here and in the tails.
   const __m512i qq = _mm512_set1_epi32(sumq);
   size_t i = 0;
   const size_t simd_count = count - (count % 32);
   for (; i < simd_count; i += 32) {
     __m256i i16a = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(&result[i]));
     __m256i i16b = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(&result[i + 16]));
-    __m512i i32a = _mm512_cvtepi16_epi32(i16a);
-    __m512i i32b = _mm512_cvtepi16_epi32(i16b);
+    __m512i i32a = _mm512_cvtepu16_epi32(i16a);
+    __m512i i32b = _mm512_cvtepu16_epi32(i16b);
 
     i32a = _mm512_sub_epi32(_mm512_slli_epi32(i32a, 1), qq);
     i32b = _mm512_sub_epi32(_mm512_slli_epi32(i32b, 1), qq);
@@ -387,7 +385,7 @@ inline void convert_accum_to_float_avx512(size_t count,
     _mm512_storeu_ps(&result_float[i + 16], _mm512_cvtepi32_ps(i32b));
   }
   for (; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
@@ -401,12 +399,12 @@ inline void convert_accum_to_float_avx2(size_t count,
   const size_t simd_count = count - (count % 8);
   for (; i < simd_count; i += 8) {
     __m128i i16 = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&result[i]));
-    __m256i i32 = _mm256_cvtepi16_epi32(i16);
+    __m256i i32 = _mm256_cvtepu16_epi32(i16);
     i32 = _mm256_sub_epi32(_mm256_slli_epi32(i32, 1), qq);
     _mm256_storeu_ps(&result_float[i], _mm256_cvtepi32_ps(i32));
   }
   for (; i < count; ++i) {
-    result_float[i] = static_cast<float>((static_cast<int16_t>(result[i]) << 1) - sumq);
+    result_float[i] = static_cast<float>((static_cast<int32_t>(result[i]) << 1) - sumq);
   }
 }
 
-- 
2.43.0


From 5d46ffa0122ecb0ceb4810178f89efd2104140c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:08 +0000
Subject: [PATCH 37/40] fix: an indexed filter strictly beyond an infinity
 matches nothing

---
 include/utils/metadata_filter_matcher.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index 4872a34..b48767c 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -211,6 +211,9 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
+          if (value == std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
           return storage_
               ->get_ids_by_double_range(cond.field,
                                         std::nextafter(value,
@@ -242,6 +245,9 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
+          if (value == -std::numeric_limits<double>::infinity()) {
+            return std::vector<IDType>{};
+          }
           return storage_
               ->get_ids_by_double_range(cond.field,
                                         -std::numeric_limits<double>::infinity(),
-- 
2.43.0


From 66b3873294de050d7effe5d0a5a244c7deb44f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 38/40] fix: partitioned Vamana build skips centers without
 points

---
 include/index/graph/vamana/build_dispatch.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..0192e0e 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -351,8 +351,15 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
                                                        shard_prefix);
   LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> shard_graphs(num_parts);
+  // Duplicate-heavy data can leave a center without points: such a shard has no graph to merge.
+  std::vector<std::filesystem::path> shard_graphs;
+  std::vector<std::filesystem::path> idmaps;
+  shard_graphs.reserve(num_parts);
+  idmaps.reserve(num_parts);
   for (size_t s = 0; s < num_parts; ++s) {
+    if (assign.counts[s] == 0) {
+      continue;
+    }
     alaya::Timer shard_timer;
     LOG_INFO("building shard {}/{}: {} points", s + 1, num_parts, assign.counts[s]);
     std::vector<float> shard_data;
@@ -380,7 +387,8 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     const std::filesystem::path graph_path =
         work_dir / (std::string("s_subshard-") + std::to_string(s) + "_mem.index");
     alaya::vamana::save_graph(b.graph(), graph_path, shard_R, b.medoid());
-    shard_graphs[s] = graph_path;
+    shard_graphs.push_back(graph_path);
+    idmaps.emplace_back(assign.idmap_paths[s]);
     LOG_INFO("shard {}/{} built + saved in {}s -> {}",
              s + 1,
              num_parts,
@@ -392,11 +400,6 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
   const uint32_t global_medoid = alaya::vamana::compute_medoid_streaming(data_path);
   LOG_INFO("global medoid = {} (streaming pass {}s)", global_medoid, medoid_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> idmaps;
-  idmaps.reserve(num_parts);
-  for (const auto &p : assign.idmap_paths) {
-    idmaps.emplace_back(p);
-  }
   alaya::Timer merge_timer;
   alaya::vamana::merge_shards(shard_graphs, idmaps, out_path_str, args.R, global_medoid, args.seed);
   LOG_INFO("merge done in {}s", merge_timer.elapsed_s());
-- 
2.43.0


From 0ccd132b8cacb3fc143552b0d6e1b2c96160bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 39/40] fix: Vamana link keeps back edges when the beam held
 only the start

---
 include/index/graph/vamana/vamana_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/vamana_builder.hpp b/include/index/graph/vamana/vamana_builder.hpp
index 3490a50..b0b411f 100644
--- a/include/index/graph/vamana/vamana_builder.hpp
+++ b/include/index/graph/vamana/vamana_builder.hpp
@@ -457,7 +457,8 @@ class VamanaBuilder {
       std::vector<uint32_t> pruned_list;
       search_for_point_and_prune(node, params_.L, pruned_list, s, alpha);
 
-      {
+      // A beam of one holds nothing but the start when the start itself is linked: keep its back edges.
+      if (!pruned_list.empty()) {
         std::lock_guard<std::mutex> guard(locks_[node]);
         graph_[node] = pruned_list;
       }
-- 
2.43.0


From 62bae8b25d079bcbb3c747e9777bad743e098f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:20 +0000
Subject: [PATCH 40/40] fix: loading a graph without overlay drops the overlay
 held before

---
 include/index/graph/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..3f2cbce 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -222,6 +222,8 @@ struct Graph {
     if (reader.peek() != EOF) {
       overlay_graph_ = std::make_unique<OverlayGraph<NodeIDType>>(max_nodes_, max_nbrs_);
       overlay_graph_->load(reader);
+    } else {
+      overlay_graph_.reset();
     }
     LOG_INFO("Graph Loading done\n");
   }
-- 
2.43.0


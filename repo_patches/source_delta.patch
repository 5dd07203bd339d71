From 0b4b247301d2fde0122ec133cd776c5c42091747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 01/66] fix: visited filter reported never-seen keys that alias
 its empty marker

---
 include/svs/index/vamana/filter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/svs/index/vamana/filter.h b/include/svs/index/vamana/filter.h
index c947072..6e50c63 100644
--- a/include/svs/index/vamana/filter.h
+++ b/include/svs/index/vamana/filter.h
@@ -79,7 +79,13 @@ template <size_t N> class VisitedFilter<uint32_t, N> {
     constexpr static size_t hash(integer_type key) { return key & hash_mask; }
 
     /// @brief Return ``true`` if the stored value original cam from the provided key.
+    ///
+    /// Keys whose stored value coincides with the sentinel cannot be distinguished from an
+    /// empty slot and are never reported as present.
     constexpr static bool check(integer_type key, value_type value) {
+        if (value == sentinel) {
+            return false;
+        }
         if constexpr (N >= 16) {
             // Make sure the upper-bits match.
             return (key >> 16) == value;
-- 
2.43.0


From ee9c6279891252a6531c88f6cfd781127309f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 02/66] fix: shrinking a search buffer by configuration kept a
 size beyond its capacity

---
 include/svs/index/vamana/search_buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..68a3eea 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -185,6 +185,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
         search_window_size_ = config.get_search_window_size();
         capacity_ = config.get_total_capacity();
         candidates_.resize(capacity_ + 1);
+        size_ = std::min(size_, capacity_);
     }
 
     ///
-- 
2.43.0


From 076c601a5765845321d578ffecb0700c16b1ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 03/66] fix: inserting into an empty search buffer read before
 its storage

---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 68a3eea..6c0089f 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -297,7 +297,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From 33093d464584864fe601de9c07a2475145f4c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 04/66] fix: dynamic search buffer lost or looped over more
 than 65535 candidates

---
 include/svs/index/vamana/dynamic_search_buffer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..02c5cf1 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,11 +75,14 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    //
+    // N.B.: The number of candidates held is *not* bounded by `valid_capacity_` because
+    // skipped candidates are retained as well. The counters below must not be narrow.
+    uint32_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    uint32_t roi_end_ = 0;
     // number of valid neighbors.
-    uint16_t valid_ = 0;
+    uint32_t valid_ = 0;
     // A buffer of candidates.
     // Unlike the static buffer, this container *does* dynamically change size and does not
     // reserve one-past-the-end for copying neighbors.
@@ -426,7 +429,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint32_t>(i));
         return i;
     }
 
-- 
2.43.0


From 6bc7623863e248c5e87119e956765e79900eb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 05/66] fix: a second shutdown request to a worker terminated
 the program

---
 include/svs/lib/threads/thread.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thread.h b/include/svs/lib/threads/thread.h
index f240678..a9457d2 100644
--- a/include/svs/lib/threads/thread.h
+++ b/include/svs/lib/threads/thread.h
@@ -891,7 +891,13 @@ template <typename T = telemetry::NoTelemetry> class ThreadImpl {
     }
 
     // Thread shutdown
-    void request_shutdown() { control_->shutdown(false); }
+    void request_shutdown() {
+        // An earlier request may still be pending. Only the controlling side can enter this
+        // state, so there is nothing left to request.
+        if (control_->get_state() != ThreadState::RequestShutdown) {
+            control_->shutdown(false);
+        }
+    }
     void wait_for_shutdown() {
         if (worker_.joinable()) {
             worker_.join();
-- 
2.43.0


From 556dbae2689cc4a38b809c75928338467b7c860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 06/66] fix: a worker pool requested with zero threads created
 threads without end

---
 include/svs/lib/threads/threadpool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..e54f0a4 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -134,8 +134,8 @@ template <typename Builder> class NativeThreadPoolBase {
     template <typename... Args>
     explicit NativeThreadPoolBase(uint64_t num_threads = 1, Args&&... args)
         : builder_{std::forward<Args>(args)...} {
-        for (size_t tid = 0; tid < num_threads - 1; ++tid) {
-            threads_.push_back(builder_.build(tid + 1));
+        for (size_t tid = 1; tid < num_threads; ++tid) {
+            threads_.push_back(builder_.build(tid));
         }
     }
 
-- 
2.43.0


From ea6a5338f18222be968af7fdffb6097e5f13fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 07/66] fix: pools broke on job exceptions other than
 std::exception and dropped empty messages

---
 include/svs/lib/threads/threadpool.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index e54f0a4..0caef24 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -17,6 +17,7 @@
 #include <concepts>
 #include <cstdint>
 #include <mutex>
+#include <optional>
 #include <sstream>
 #include <vector>
 
@@ -162,7 +163,9 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) { manage_exception_during_run("unknown exception"); }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -176,11 +179,13 @@ template <typename Builder> class NativeThreadPoolBase {
     }
 
   private:
-    void manage_exception_during_run(const std::string& thread_0_message = {}) {
+    void manage_exception_during_run(
+        const std::optional<std::string>& thread_0_message = std::nullopt
+    ) {
         auto message = std::string{};
         auto inserter = std::back_inserter(message);
-        if (!thread_0_message.empty()) {
-            fmt::format_to(inserter, "Thread 0: {}\n", thread_0_message);
+        if (thread_0_message) {
+            fmt::format_to(inserter, "Thread 0: {}\n", *thread_0_message);
         }
 
         // Manage all other exceptions thrown, restarting crashed threads.
@@ -192,6 +197,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From 1da0204584a29c3f795a403cee2b59bd8c8eeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 08/66] fix: copy assignment of a shared value did not return

---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 1752884136dd9cbe044662770269cd56030db427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 09/66] fix: dynamic partitions with an enormous grain size
 visited the range twice

---
 include/svs/lib/threads/thunks.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thunks.h b/include/svs/lib/threads/thunks.h
index f3b94a5..a5467b6 100644
--- a/include/svs/lib/threads/thunks.h
+++ b/include/svs/lib/threads/thunks.h
@@ -101,8 +101,9 @@ template <typename F, typename I> struct Thunk<F, StaticPartition<I>> {
 template <typename F, typename I> struct Thunk<F, DynamicPartition<I>> {
     static auto wrap(ThreadCount SVS_UNUSED(nthreads), F& f, DynamicPartition<I> space) {
         return [&f, space, count = std::atomic<uint64_t>(0)](uint64_t tid) mutable {
-            size_t grainsize = space.grainsize;
             size_t iterator_size = space.size();
+            // A larger grain size makes no difference but may overflow below.
+            size_t grainsize = std::min(space.grainsize, iterator_size);
             for (;;) {
                 uint64_t i = count.fetch_add(1, std::memory_order_relaxed);
                 auto start = grainsize * i;
-- 
2.43.0


From b8cc4cd105ee6511b43f997a469e9d7e7f9cc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 10/66] fix: an empty range starting at zero claimed to contain
 every index

---
 include/svs/lib/threads/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/types.h b/include/svs/lib/threads/types.h
index a743558..171d7cc 100644
--- a/include/svs/lib/threads/types.h
+++ b/include/svs/lib/threads/types.h
@@ -260,7 +260,7 @@ class UnitRange {
     ///
     /// Return `true` if the value `i` is in `[front(), back()]`. Otherwise, return `false`.
     ///
-    bool contains(const T& i) const { return front() <= i && i <= back(); }
+    bool contains(const T& i) const { return start_ <= i && i < stop_; }
 
     ///
     /// Return a unit range over the valid indices of the current range.
-- 
2.43.0


From 869a370cdaf27cfb196cad21a81f329c9f492f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 11/66] fix: an empty identifier map could be saved but not
 loaded

---
 include/svs/core/translation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..9a78a79 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -357,6 +357,10 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        // An empty translator has an empty file, which cannot be opened for reading.
+        if (num_points == 0) {
+            return translator;
+        }
         auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
-- 
2.43.0


From 7cf6ceb641321fc02b413ea9665a4f1972f661e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 12/66] fix: pruning an empty candidate pool left the previous
 node's neighbours in the output

---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From b4a9dde8ce92a62e08a353df82eb76b7bd7108ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 13/66] fix: searches returned left-over data when fewer
 neighbours than requested exist

---
 include/svs/index/vamana/dynamic_index.h | 6 +++++-
 include/svs/index/vamana/extensions.h    | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..3b3686f 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -369,7 +369,7 @@ class MutableVamanaIndex {
     ///     reasons.
     ///
     /// (2) All entries in `ids` should have valid translations. Otherwise, this function's
-    ///     behavior is undefined.
+    ///     behavior is undefined. Entries marked as invalid are left as they are.
     ///
     template <class Dims, class Base>
         requires(std::tuple_size_v<Dims> == 2)
@@ -381,6 +381,10 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        // Surplus entries hold no result.
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..19e47d7 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -513,14 +513,21 @@ void svs_invoke(
 ) {
     // Fallback implementation
     size_t num_neighbors = result.n_neighbors();
+    constexpr auto invalid =
+        type_traits::sentinel_v<Neighbor<I>, typename SearchBuffer::compare_type>;
     for (auto i : thread_indices) {
         // Perform search - results will be queued in the search buffer.
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // If fewer candidates than requested were found, mark the surplus as invalid.
+        size_t num_found = std::min<size_t>(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_found; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        for (size_t j = num_found; j < num_neighbors; ++j) {
+            result.set(invalid, i, j);
+        }
     }
 }
 
-- 
2.43.0


From b4f4db90d03beb5a2cafa6f6202666dc15363dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 14/66] fix: compacting the dynamic index before consolidation
 lost its soft-deleted entries

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 3b3686f..7dff2df 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -666,7 +666,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 5b1c40b6d29e1ea13103a6019e77891743d4e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 15/66] fix: dynamic index built from parts read its moved-from
 graph and left settings uninitialized

---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 7dff2df..434d7ec 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -165,7 +165,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{construction_window_size_}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From 1f5211bdf9c7b485fa4ff1c472096de995ce9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 16/66] fix: refused or empty additions damaged the dynamic
 index

---
 include/svs/index/vamana/dynamic_index.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 434d7ec..7bb5530 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -552,6 +552,19 @@ class MutableVamanaIndex {
             );
         }
 
+        // Make sure a point can be stored before anything is modified.
+        const size_t point_dims = points.dimensions();
+        if (point_dims != dimensions()) {
+            throw ANNEXCEPTION(
+                "Points have {} dimensions but the index has {}!", point_dims, dimensions()
+            );
+        }
+
+        // Nothing to do.
+        if (num_points == 0) {
+            return {};
+        }
+
         // Gather all empty slots.
         std::vector<size_t> slots{};
         slots.reserve(num_points);
-- 
2.43.0


From 98b2a06262361a87bd453fce0b5c2ed65e36c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 17/66] fix: removing all points left the dynamic index with an
 invalid entry point

---
 include/svs/index/vamana/dynamic_index.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 7bb5530..ec3e8d6 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -412,6 +412,12 @@ class MutableVamanaIndex {
         return [&, prefetch_parameters](
                    const auto& query, auto& accessor, auto& distance, auto& buffer
                ) {
+            // Without an entry point, there is nothing to find.
+            if (!has_entry_point()) {
+                buffer.clear();
+                return;
+            }
+
             // Perform the greedy search using the provided resources.
             greedy_search(
                 graph_,
@@ -607,6 +613,11 @@ class MutableVamanaIndex {
         copy_points(points, slots);
         clear_lists(slots);
 
+        // If the last point has been removed, start over from one of the new points.
+        if (!has_entry_point()) {
+            entry_point_[0] = lib::narrow<Idx>(slots.front());
+        }
+
         // Patch in the new neighbors.
         auto parameters = VamanaBuildParameters{
             alpha_,
@@ -667,6 +678,12 @@ class MutableVamanaIndex {
 
     bool is_deleted(size_t i) const { return status_[i] != SlotMetadata::Valid; }
 
+    // The entry point is lost when all points of the index have been removed.
+    bool has_entry_point() const {
+        return entry_point() < status_.size() &&
+               status_[entry_point()] != SlotMetadata::Empty;
+    }
+
     Idx entry_point() const {
         assert(entry_point_.size() == 1);
         return entry_point_[0];
@@ -789,8 +806,10 @@ class MutableVamanaIndex {
         status_.resize(max_index);
 
         // Update entry points.
+        // An entry point without an entry remains invalid.
         for (auto& ep : entry_point_) {
-            ep = old_to_new_id_map.at(ep);
+            auto itr = old_to_new_id_map.find(ep);
+            ep = itr != old_to_new_id_map.end() ? itr->second : max_index;
         }
     }
 
@@ -838,7 +857,7 @@ class MutableVamanaIndex {
         // If so - we need to pick a new one.
         assert(entry_point_.size() == 1);
         auto entry_point = entry_point_[0];
-        if (status_.at(entry_point) == SlotMetadata::Deleted) {
+        if (has_entry_point() && is_deleted(entry_point) && size() != 0) {
             auto logger = svs::logging::get();
             svs::logging::debug(logger, "Replacing entry point.");
             auto new_entry_point =
-- 
2.43.0


From aaba6d4c3d690cfc9495c602c51ea69eef7f0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 18/66] fix: exhaustive search on the dynamic index did not
 compile

---
 include/svs/index/vamana/dynamic_index.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index ec3e8d6..15b2f87 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -483,14 +483,21 @@ class MutableVamanaIndex {
     /// Perform an exhaustive search on the current state of the index.
     /// Useful to understand how well the graph search is doing after index mutation.
     ///
-    template <typename QueryType, typename I>
+    template <typename QueryType>
     void exhaustive_search(
         const data::ConstSimpleDataView<QueryType>& queries,
         size_t num_neighbors,
-        QueryResultView<I> result
+        QueryResultView<size_t> result
     ) {
-        auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
-        temp_index.search(queries, num_neighbors, result, [&](size_t i) {
+        if (result.n_neighbors() != num_neighbors) {
+            throw ANNEXCEPTION(
+                "Result buffer holds {} neighbors when {} were requested!",
+                result.n_neighbors(),
+                num_neighbors
+            );
+        }
+        auto temp_index = flat::temporary_flat_index(data_, distance_, threadpool_);
+        temp_index.search(result, queries, {}, [&](size_t i) {
             return getindex(status_, i) == SlotMetadata::Valid;
         });
 
-- 
2.43.0


From c3d7410a6783446b57fcffade3101637f49d1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 19/66] fix: do not read adjacency lists other workers append
 to while adding reverse edges

---
 include/svs/index/vamana/vamana_build.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/vamana_build.h b/include/svs/index/vamana/vamana_build.h
index b53c690..1cb4567 100644
--- a/include/svs/index/vamana/vamana_build.h
+++ b/include/svs/index/vamana/vamana_build.h
@@ -451,8 +451,16 @@ class VamanaBuilder {
         auto range = threads::StaticPartition{indices};
         backedge_buffer_.reset();
         threads::run(threadpool_, range, [&](const auto& is, uint64_t SVS_UNUSED(tid)) {
+            // Other threads may concurrently append to the adjacency list being traversed,
+            // so take a snapshot of it under its lock.
+            std::vector<Idx> neighbors{};
             for (auto node_id : is) {
-                for (auto other_id : graph_.get_node(node_id)) {
+                {
+                    std::lock_guard lock{vertex_locks_[node_id]};
+                    const auto& adjacency_list = graph_.get_node(node_id);
+                    neighbors.assign(adjacency_list.begin(), adjacency_list.end());
+                }
+                for (auto other_id : neighbors) {
                     std::lock_guard lock{vertex_locks_[other_id]};
                     if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {
                         graph_.add_edge(other_id, node_id);
-- 
2.43.0


From c7dfb7d1751c73a2f5446038ad2b0035d7d11817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:29 +0000
Subject: [PATCH 20/66] fix: the cosine similarity of a zero vector is 0
 instead of NaN

---
 include/svs/core/distance/cosine.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/svs/core/distance/cosine.h b/include/svs/core/distance/cosine.h
index 44904ac..7f2c7a7 100644
--- a/include/svs/core/distance/cosine.h
+++ b/include/svs/core/distance/cosine.h
@@ -141,6 +141,16 @@ float compute(DistanceCosineSimilarity distance, std::span<Ea, Da> a, std::span<
     }
 }
 
+namespace detail {
+// Combine the inner product and the norms of both arguments.
+// A zero vector has no direction: it is not similar to anything (rather than NaN, which
+// has no place in the order of candidates).
+inline float cosine_from_parts(float inner_product, float a_norm, float b_norm) {
+    const float norms = a_norm * b_norm;
+    return norms == 0 ? 0.0f : inner_product / norms;
+}
+} // namespace detail
+
 /////
 ///// Generic Implementation
 /////
@@ -159,7 +169,7 @@ float generic_cosine_similarity(
         accum += bi_float * bi_float;
         result += static_cast<float>(a[i]) * bi_float;
     }
-    return result / (a_norm * std::sqrt(accum));
+    return detail::cosine_from_parts(result, a_norm, std::sqrt(accum));
 };
 
 template <size_t N, typename Ea, typename Eb> struct CosineSimilarityImpl {
@@ -242,7 +252,9 @@ template <size_t N> struct CosineSimilarityImpl<N, int8_t, int8_t> {
         }
 
         float b_norm = std::sqrt(static_cast<float>(_mm512_reduce_add_epi32(bnorm_accum)));
-        return lib::narrow_cast<float>(_mm512_reduce_add_epi32(sum)) / (a_norm * b_norm);
+        return detail::cosine_from_parts(
+            lib::narrow_cast<float>(_mm512_reduce_add_epi32(sum)), a_norm, b_norm
+        );
     }
 };
 
@@ -267,7 +279,9 @@ template <size_t N> struct CosineSimilarityImpl<N, uint8_t, uint8_t> {
             sum = _mm512_dpwssd_epi32(sum, va, vb);
         }
         float b_norm = std::sqrt(static_cast<float>(_mm512_reduce_add_epi32(bnorm_accum)));
-        return lib::narrow_cast<float>(_mm512_reduce_add_epi32(sum)) / (a_norm * b_norm);
+        return detail::cosine_from_parts(
+            lib::narrow_cast<float>(_mm512_reduce_add_epi32(sum)), a_norm, b_norm
+        );
     }
 };
 
@@ -278,7 +292,7 @@ template <size_t N> struct CosineSimilarityImpl<N, float, float> {
     SVS_NOINLINE static float
     compute(const float* a, const float* b, float a_norm, lib::MaybeStatic<N> length) {
         auto [sum, norm] = simd::generic_simd_op(CosineFloatOp<16>(), a, b, length);
-        return sum / (std::sqrt(norm) * a_norm);
+        return detail::cosine_from_parts(sum, a_norm, std::sqrt(norm));
     }
 };
 
@@ -286,7 +300,7 @@ template <size_t N> struct CosineSimilarityImpl<N, float, uint8_t> {
     SVS_NOINLINE static float
     compute(const float* a, const uint8_t* b, float a_norm, lib::MaybeStatic<N> length) {
         auto [sum, norm] = simd::generic_simd_op(CosineFloatOp<16>(), a, b, length);
-        return sum / (std::sqrt(norm) * a_norm);
+        return detail::cosine_from_parts(sum, a_norm, std::sqrt(norm));
     };
 };
 
@@ -294,7 +308,7 @@ template <size_t N> struct CosineSimilarityImpl<N, float, int8_t> {
     SVS_NOINLINE static float
     compute(const float* a, const int8_t* b, float a_norm, lib::MaybeStatic<N> length) {
         auto [sum, norm] = simd::generic_simd_op(CosineFloatOp<16>(), a, b, length);
-        return sum / (std::sqrt(norm) * a_norm);
+        return detail::cosine_from_parts(sum, a_norm, std::sqrt(norm));
     };
 };
 
@@ -302,7 +316,7 @@ template <size_t N> struct CosineSimilarityImpl<N, float, Float16> {
     SVS_NOINLINE static float
     compute(const float* a, const Float16* b, float a_norm, lib::MaybeStatic<N> length) {
         auto [sum, norm] = simd::generic_simd_op(CosineFloatOp<16>(), a, b, length);
-        return sum / (std::sqrt(norm) * a_norm);
+        return detail::cosine_from_parts(sum, a_norm, std::sqrt(norm));
     }
 };
 #endif
-- 
2.43.0


From 08f4ad9839e04c66ed3bec0fff1e264bdaf4430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 21/66] fix: return memory with the size and alignment it was
 requested with

---
 include/svs/lib/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index 57c7348..c03a0d3 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -56,7 +56,7 @@ template <typename T> struct Allocator {
     }
 
     constexpr void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count);
+        ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
     }
 
     // Intercept zero-argument construction to do default initialization.
-- 
2.43.0


From 3e9939688bbf4da89093cd8652c2d6d7a8104ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 22/66] fix: the hugepage allocator accepts requests for zero
 elements

---
 include/svs/core/allocator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..3e455d5 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -33,6 +33,7 @@
 
 #include "tsl/robin_map.h"
 
+#include <algorithm>
 #include <array>
 #include <fcntl.h>
 #include <filesystem>
@@ -208,9 +209,9 @@ template <typename T> class HugepageAllocator {
     }
 
     [[nodiscard]] T* allocate(size_t n) {
-        return static_cast<T*>(
-            detail::GenericHugepageAllocator().allocate(sizeof(T) * n, force_)
-        );
+        // An allocation of zero elements must still yield a pointer that can be deallocated.
+        size_t bytes = std::max<size_t>(sizeof(T) * n, 1);
+        return static_cast<T*>(detail::GenericHugepageAllocator().allocate(bytes, force_));
     }
 
     void deallocate(void* ptr, size_t SVS_UNUSED(n)) {
-- 
2.43.0


From dee57cd808aeccecde8c98a95549f228c23b2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 23/66] fix: comparing graphs did not compile and ignored the
 length of adjacency lists

---
 include/svs/concepts/graph.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/concepts/graph.h b/include/svs/concepts/graph.h
index a139ce3..222e0b2 100644
--- a/include/svs/concepts/graph.h
+++ b/include/svs/concepts/graph.h
@@ -35,6 +35,7 @@
 /// @defgroup graph_concept_public Graph Concept Helpers.
 ///
 
+#include <algorithm>
 #include <cassert>
 #include <concepts>
 #include <cstddef>
@@ -190,14 +191,14 @@ concept MemoryGraph = requires(T& g, const T& const_g) {
 ///
 template <ImmutableMemoryGraph Graph1, ImmutableMemoryGraph Graph2>
 bool graphs_equal(const Graph1& x, const Graph2& y) {
-    if (x.num_nodes() != y.num_nodes()) {
+    if (x.n_nodes() != y.n_nodes()) {
         return false;
     }
 
-    for (size_t i = 0, imax = x.num_nodes(); i < imax; ++i) {
+    for (size_t i = 0, imax = x.n_nodes(); i < imax; ++i) {
         const auto& xa = x.get_node(i);
         const auto& ya = y.get_node(i);
-        if (!std::equal(xa.begin(), xa.end(), ya.begin())) {
+        if (!std::equal(xa.begin(), xa.end(), ya.begin(), ya.end())) {
             return false;
         }
     }
-- 
2.43.0


From 2df7ed4a9d4593aebaa927b6e2c328052dff8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 24/66] fix: software conversion between single and half
 precision was wrong for denormals, ties, overflow and special values

---
 include/svs/lib/float16.h | 50 +++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/include/svs/lib/float16.h b/include/svs/lib/float16.h
index 31bfd9a..6947c45 100644
--- a/include/svs/lib/float16.h
+++ b/include/svs/lib/float16.h
@@ -43,28 +43,42 @@ inline float bitcast_uint32_to_float(const uint32_t x) {
     return f;
 }
 
-// reference:
-// https://stackoverflow.com/questions/1659440/32-bit-to-16-bit-floating-point-conversion
 inline float float16_to_float_untyped_slow(const uint16_t x) {
-    // without norm/denorm (it makes code slow)
-    const uint32_t e = (x & 0x7C00) >> 10; // exponent
-    const uint32_t m = (x & 0x03FF) << 13; // mantissa
-    return bitcast_uint32_to_float(
-        (x & 0x8000) << 16 | static_cast<uint32_t>(e != 0) * ((e + 112) << 23 | m)
-    );
+    const uint32_t s = static_cast<uint32_t>(x & 0x8000) << 16; // sign
+    const uint32_t e = (x & 0x7C00) >> 10;                      // exponent
+    const uint32_t m = x & 0x03FF;                              // mantissa
+    if (e == 0) {
+        // Zeros and denormals: An exact multiple of the smallest denormal.
+        return bitcast_uint32_to_float(
+            s | bitcast_float_to_uint32(static_cast<float>(m) * 0x1p-24F)
+        );
+    }
+    // Infinities and NaNs keep the maximum exponent.
+    const uint32_t e32 = (e == 31) ? 255 : e + 112;
+    return bitcast_uint32_to_float(s | e32 << 23 | m << 13);
 }
 
 inline uint16_t float_to_float16_untyped_slow(const float x) {
-    // round-to-nearest-even: add last bit after truncated mantissa
-    const uint32_t b = bitcast_float_to_uint32(x) + 0x00001000;
-    const uint32_t e = (b & 0x7F800000) >> 23; // exponent
-    const uint32_t m = b & 0x007FFFFF;         // mantissa
-    return (b & 0x80000000) >> 16 |
-           static_cast<uint32_t>(e > 112) * ((((e - 112) << 10) & 0x7C00) | m >> 13) |
-           static_cast<uint32_t>((e < 113) && (e > 101)) *
-               ((((0x007FF000 + m) >> (125 - e)) + 1) >> 1) |
-           static_cast<uint32_t>(e > 143) *
-               0x7FFF; // sign : normalized : denormalized : saturate
+    const uint32_t b = bitcast_float_to_uint32(x);
+    const uint16_t s = (b & 0x80000000) >> 16; // sign
+    const uint32_t a = b & 0x7FFFFFFF;         // magnitude
+    if (a > 0x7F800000) {
+        // NaNs stay NaNs.
+        return s | 0x7E00 | ((a >> 13) & 0x03FF);
+    }
+    if (a >= 0x47800000) {
+        // Infinities and everything too large for a half.
+        return s | 0x7C00;
+    }
+    if (a < 0x38800000) {
+        // Zeros and denormals: The spacing of single precision numbers next to `0.5` is
+        // that of half precision denormals. Let the addition do the rounding.
+        const float shifted = bitcast_uint32_to_float(a) + 0.5F;
+        return s | (bitcast_float_to_uint32(shifted) - 0x3F000000);
+    }
+    // Rebias and round to nearest, ties to even. May carry into the exponent.
+    const uint32_t r = a - (112U << 23) + 0x0FFF + ((a >> 13) & 1);
+    return s | (r >> 13);
 }
 
 // If the processor is new enough, we can use hardware intrinsics to perform the conversion
-- 
2.43.0


From e97858ae1599cc5f0bf71ea50dc19301d7542487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 25/66] fix: narrowing at the upper end of unsigned types was
 accepted with AVX-512 conversions

---
 include/svs/lib/narrow.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/svs/lib/narrow.h b/include/svs/lib/narrow.h
index e0b81e0..0d9fa31 100644
--- a/include/svs/lib/narrow.h
+++ b/include/svs/lib/narrow.h
@@ -38,6 +38,8 @@
 
 #include <exception> // for std::exception
 #include <iostream>
+#include <limits>
+#include <type_traits>
 
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/type_traits.h"
@@ -55,6 +57,18 @@ template <typename T, typename U> constexpr T narrow_cast(U&& u) noexcept {
 }
 
 namespace detail {
+// Return whether the integral part of a floating point number is representable in `Int`.
+//
+// Conversion of out-of-range values is undefined and saturates on some architectures,
+// which can defeat the check whether a round trip reproduces the original value.
+template <typename Int, typename Float> constexpr bool in_integer_range(Float x) {
+    // Both limits are powers of two (or zero) and thus representable.
+    using limits = std::numeric_limits<Int>;
+    constexpr Float lower = static_cast<Float>(limits::min());
+    constexpr Float upper = 2 * static_cast<Float>(limits::max() / 2 + 1);
+    return x >= lower && x < upper;
+}
+
 // Use the `SVS_CLANG_NOINLINE` attribute to avoid inlining this function if building
 // with clang in a non-debug context.
 //
@@ -70,7 +84,18 @@ template <class T, class U>
 SVS_CLANG_NOINLINE constexpr T narrow_impl(U u) noexcept(false) {
     static_assert(!std::is_same_v<T, std::remove_cv_t<U>>);
     constexpr bool is_different_signedness = (svs::is_signed_v<T> != svs::is_signed_v<U>);
+    if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>) {
+        if (!in_integer_range<T>(u)) {
+            throw narrowing_error{};
+        }
+    }
+
     const T t = narrow_cast<T>(u);
+    if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U>) {
+        if (!in_integer_range<U>(t)) {
+            throw narrowing_error{};
+        }
+    }
 
     if (static_cast<U>(t) != u || (is_different_signedness && ((t < T{}) != (u < U{})))) {
         throw narrowing_error{};
-- 
2.43.0


From cb3ff30f5274f5d26607d50c6fa36d5c5d57aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 26/66] fix: recall compared identifiers after truncating them
 to the narrower type

---
 include/svs/lib/misc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/misc.h b/include/svs/lib/misc.h
index a1787c3..1ff796c 100644
--- a/include/svs/lib/misc.h
+++ b/include/svs/lib/misc.h
@@ -12,6 +12,7 @@
 #pragma once
 
 #include <bit>
+#include <iterator>
 #include <memory>
 #include <span>
 #include <tuple>
@@ -184,8 +185,12 @@ template <typename InputIterator1, typename InputIterator2>
 size_t count_intersect(
     InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2
 ) {
-    const auto set1 = std::unordered_set(first1, last1);
-    const auto set2 = std::unordered_set(first2, last2);
+    // Compare values in a type that can represent both.
+    using value_type = std::common_type_t<
+        typename std::iterator_traits<InputIterator1>::value_type,
+        typename std::iterator_traits<InputIterator2>::value_type>;
+    const auto set1 = std::unordered_set<value_type>(first1, last1);
+    const auto set2 = std::unordered_set<value_type>(first2, last2);
     return std::count_if(set1.begin(), set1.end(), [&](const auto& x) {
         return set2.find(x) != set2.end();
     });
-- 
2.43.0


From 5f3591015a2d124b9613dcee275c21d6fbbb157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 27/66] fix: versions with trailing characters were accepted

---
 include/svs/lib/version.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/version.h b/include/svs/lib/version.h
index 5da723f..e233648 100644
--- a/include/svs/lib/version.h
+++ b/include/svs/lib/version.h
@@ -52,7 +52,7 @@ namespace svs::lib {
 template <std::integral T> [[nodiscard]] T parse_int(std::string_view view) {
     auto value = T{0};
     auto result = std::from_chars(view.begin(), view.end(), value);
-    if (result.ec != std::errc()) {
+    if (result.ec != std::errc() || result.ptr != view.end()) {
         throw ANNEXCEPTION("Something went wrong with number parsing!");
     }
     return value;
-- 
2.43.0


From 3b860203b897f99abfa24d0d4311c978676d207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 28/66] fix: generated unique identifiers had only 32 random
 bits

---
 include/svs/lib/uuid.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/svs/lib/uuid.h b/include/svs/lib/uuid.h
index ff9a10a..fdce118 100644
--- a/include/svs/lib/uuid.h
+++ b/include/svs/lib/uuid.h
@@ -101,12 +101,14 @@ class UUID {
     /// See https://en.wikipedia.org/wiki/Universally_unique_identifier for details.
     ///
     UUID() {
+        // Draw every bit from the random device: a generator seeded with a single 32-bit
+        // number could only ever generate 2^32 different UUIDs.
         std::random_device rd;
-        std::mt19937 gen(rd());
-        std::uniform_int_distribution<> distribution(0, 256);
-        // The formatted string is always 36 characters long.
-        for (size_t i = 0; i < num_bytes; i++) {
-            uuid_[i] = distribution(gen);
+        for (size_t i = 0; i < num_bytes; i += sizeof(uint32_t)) {
+            uint32_t bits = rd();
+            for (size_t j = 0; j < sizeof(uint32_t); ++j) {
+                uuid_[i + j] = static_cast<uint8_t>(bits >> (8 * j));
+            }
         }
 
         // Special positions
-- 
2.43.0


From f02ed50d6226f51072370ce78bb3319dbea5f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 29/66] fix: saved strings with leading line breaks or triple
 quotes could not be loaded back

---
 include/svs/lib/saveload/save.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index ada8024..4b5b67c 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -311,7 +311,14 @@ void save_node_to_file(
         {{config_version_key, version.str()}, {config_object_key, SVS_FWD(node)}}
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
-    file << top_table << "\n";
+    // Do not use multi-line strings: their printed form drops leading line breaks and cannot
+    // contain every sequence of quotes.
+    file << toml::toml_formatter(
+                top_table,
+                toml::toml_formatter::default_flags &
+                    ~toml::format_flags::allow_multi_line_strings
+            )
+         << "\n";
 }
 } // namespace detail
 
-- 
2.43.0


From e898535c56dab0067c827b377fb07824ece79c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 30/66] fix: reading a number too large for its floating-point
 type gave infinity

---
 include/svs/lib/saveload/bootstrap.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..db5dcdd 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -23,6 +23,7 @@
 #include "svs/lib/uuid.h"
 
 // stl
+#include <cmath>
 #include <concepts>
 #include <vector>
 
@@ -59,7 +60,14 @@ template <std::floating_point F> struct Saver<F> {
 
 template <std::floating_point F> struct Loader<F> {
     using toml_type = toml::value<double>;
-    static F load(const toml_type& v) { return lib::narrow_cast<F>(v.get()); }
+    static F load(const toml_type& v) {
+        auto x = lib::narrow_cast<F>(v.get());
+        // Rounding is expected, but a finite number must not silently become infinite.
+        if (std::isinf(x) && !std::isinf(v.get())) {
+            throw ANNEXCEPTION("Value {} is out of range for its type!", v.get());
+        }
+        return x;
+    }
 };
 
 // String-like
-- 
2.43.0


From 5c379e4f40e0c2c797a34f5a33d1f6b6521d8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 31/66] fix: an empty binary blob could be saved but not loaded

---
 include/svs/lib/saveload/bootstrap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index db5dcdd..a0069eb 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -319,7 +319,8 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // The file of an empty blob is empty and cannot be opened for reading.
+        if (num_elements > 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From 3e663f4662b707dfec9222954aae450f9a3d43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 32/66] fix: truncated files were read silently, yielding stale
 or zero data

---
 include/svs/core/io/native.h |  3 ++-
 include/svs/lib/readwrite.h  | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..19fdd0f 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -691,7 +691,8 @@ inline std::optional<lib::UUID> get_uuid(const std::filesystem::path& path) {
 inline std::optional<std::filesystem::path>
 find_uuid(const std::filesystem::path& dir, const lib::UUID& uuid) {
     for (const auto& entry : std::filesystem::directory_iterator(dir)) {
-        if (!entry.is_regular_file()) {
+        // Files too small to contain a magic number cannot be the requested one.
+        if (!entry.is_regular_file() || entry.file_size() < sizeof(uint64_t)) {
             continue;
         }
 
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..d9d5ef6 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include "svs/lib/exception.h"
+
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -18,6 +20,19 @@
 namespace svs {
 namespace lib {
 
+namespace detail {
+// Read exactly `bytes` bytes from the stream or throw if the stream ends too early.
+template <typename Stream> void read_exactly(Stream& stream, void* dst, size_t bytes) {
+    using char_type = typename Stream::char_type;
+    stream.read(static_cast<char_type*>(dst), bytes);
+    if (static_cast<size_t>(stream.gcount()) != bytes) {
+        throw ANNEXCEPTION(
+            "Expected to read {} bytes but only {} are left!", bytes, stream.gcount()
+        );
+    }
+}
+} // namespace detail
+
 /////
 ///// Reading Binary Objects
 /////
@@ -26,8 +41,7 @@ namespace lib {
 template <typename Stream, typename T> struct BinaryReader {
     static void call(Stream& stream, T& x) {
         static_assert(std::is_trivially_copyable_v<T>);
-        using char_type = typename Stream::char_type;
-        stream.read(reinterpret_cast<char_type*>(&x), sizeof(T));
+        detail::read_exactly(stream, &x, sizeof(T));
     }
 };
 
@@ -35,8 +49,7 @@ template <typename Stream, typename T, typename Alloc>
 struct BinaryReader<Stream, std::vector<T, Alloc>> {
     static void call(Stream& stream, std::vector<T, Alloc>& x) {
         static_assert(std::is_trivially_copyable_v<T>);
-        using char_type = typename Stream::char_type;
-        stream.read(reinterpret_cast<char_type*>(x.data()), sizeof(T) * x.size());
+        detail::read_exactly(stream, x.data(), sizeof(T) * x.size());
     }
 };
 
-- 
2.43.0


From 9c66f8ae4021962f9f3e51dcb26aa480a0c59e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 33/66] fix: native files whose size contradicts their header
 were read

---
 include/svs/core/io/native.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 19fdd0f..02575d6 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -19,6 +19,7 @@
 #include "svs/lib/version.h"
 
 // Support the the SVS "native" format.
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -130,6 +131,34 @@ inline std::pair<size_t, size_t> get_dims(const std::filesystem::path& path) {
 }
 } // namespace detail
 
+namespace detail {
+/// @brief Throw if the size of the file differs from what its header describes.
+template <typename T, typename Header>
+void check_filesize(
+    const std::filesystem::path& path, size_t num_vectors, size_t dimensions_per_vector
+) {
+    size_t filesize = std::filesystem::file_size(path);
+    size_t datasize = filesize - std::min(filesize, sizeof(Header));
+    size_t bytes_per_vector = sizeof(T) * dimensions_per_vector;
+    bool match = (num_vectors == 0 || dimensions_per_vector == 0)
+                     ? datasize == 0
+                     : (dimensions_per_vector <= datasize / sizeof(T) &&
+                        datasize % bytes_per_vector == 0 &&
+                        datasize / bytes_per_vector == num_vectors);
+    if (!match) {
+        throw ANNEXCEPTION(
+            "File {} with {} bytes of data does not contain {} vectors with {} elements "
+            "of size {}!",
+            path,
+            datasize,
+            num_vectors,
+            dimensions_per_vector,
+            sizeof(T)
+        );
+    }
+}
+} // namespace detail
+
 ///
 /// @brief Smart pointer for memory mapping files that only contain a header plus data.
 ///
@@ -279,6 +308,7 @@ class NativeFile {
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
         auto dims = detail::get_dims<Header>(stream);
+        detail::check_filesize<T, Header>(path_, dims.first, dims.second);
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
@@ -438,6 +468,7 @@ class NativeFile {
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
         auto dims = detail::get_dims<Header>(stream);
+        detail::check_filesize<T, Header>(path_, dims.first, dims.second);
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
-- 
2.43.0


From eb37403f2ea9c94dcdd696d7926be9cbc2f98815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 34/66] fix: reading a binary file without elements divided by
 zero

---
 include/svs/core/io/binary.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..799bd8e 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,10 +51,13 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
-    size_t remainder = filesize_minus_header % n_vec_elements;
-    size_t deduced_elsize = filesize_minus_header / n_vec_elements;
+    // Files without any elements must consist of the header only.
+    bool empty = n_vec_elements == 0;
+    size_t remainder = empty ? filesize_minus_header : filesize_minus_header % n_vec_elements;
+    size_t deduced_elsize = empty ? elsize_hint : filesize_minus_header / n_vec_elements;
 
-    bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
+    bool elsize_match =
+        elsize_hint == 0 ? (empty || deduced_elsize != 0) : elsize_hint == deduced_elsize;
 
     if (remainder != 0 || !elsize_match) {
         throw ANNEXCEPTION(
-- 
2.43.0


From 184d44a5c90331f59815ffcee678224768a93607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 35/66] fix: vecs files with few or inconsistent vectors were
 refused or misread

---
 include/svs/core/io/vecs.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..29291da 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -55,8 +55,11 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     // and then, confirm that we get the same dimension for a few more vectors.
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
         size_t offset = sizeof(length_t) + elsize * dims;
-        if (is_last_vec(offset)) {
-            return offset == filesize ? elsize : 0;
+        if (filesize % offset != 0) {
+            continue;
+        }
+        if (offset == filesize) {
+            return elsize;
         }
 
         if (dims == next_dims(offset)) {
@@ -165,7 +168,16 @@ template <typename T> class VecsReader {
         auto value_reader = lib::ValueReader<length_t>();
         auto vector_reader = lib::VectorReader<T>(ndims());
         return lib::heterogeneous_iterator(
-            [](auto&& /*unused*/, auto&& span) { return span; },
+            [](length_t length, auto&& span) {
+                if (length != span.size()) {
+                    throw ANNEXCEPTION(
+                        "Vecs file contains vectors of lengths {} and {}!",
+                        span.size(),
+                        length
+                    );
+                }
+                return span;
+            },
             stream_,
             vectors_to_read(),
             value_reader,
-- 
2.43.0


From ded28af6a378ab8576e913c262eecb4b41b788fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 36/66] fix: the number of vectors in a vecs file was guessed
 although the element type is known

---
 include/svs/core/data/io.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..5486409 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -138,8 +138,16 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
 template <typename File, typename WriteAccessor, lib::LazyInvocable<size_t, size_t> F>
 lib::lazy_result_t<F, size_t, size_t>
 load_impl(const File& file, WriteAccessor& accessor, const F& lazy) {
-    auto [vectors_to_read, ndims] = file.get_dims();
-    auto data = lazy(vectors_to_read, ndims);
+    using Data = lib::lazy_result_t<F, size_t, size_t>;
+    // Some file types need the element size to find out the number of vectors reliably.
+    auto dims = [&]() {
+        if constexpr (requires { file.get_dims(size_t{}); }) {
+            return file.get_dims(sizeof(typename Data::element_type));
+        } else {
+            return file.get_dims();
+        }
+    }();
+    auto data = lazy(dims.first, dims.second);
     populate(data, accessor, file);
     return data;
 }
-- 
2.43.0


From d1bd39afa49e2c8c6c49b583e104eed9f988d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 37/66] fix: writing vecs and binary files through their file
 classes did not compile

---
 include/svs/core/data/io.h   | 3 ++-
 include/svs/core/io/binary.h | 2 +-
 include/svs/core/io/vecs.h   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 5486409..50de2e6 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -124,7 +124,8 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer =
+        file.template writer<typename Dataset::element_type>(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 799bd8e..7c7180a 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -192,7 +192,7 @@ class BinaryFile {
     ///
     template <typename T>
     BinaryWriter<T> writer(size_t n_vectors, size_t dimensions) const {
-        return BinaryWriter<T>(path_, n_vectors, dimensions);
+        return BinaryWriter<T>(path_.string(), n_vectors, dimensions);
     }
 
     ///
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 29291da..bbba6ca 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -257,7 +257,7 @@ class VecsFile {
     /// @param dimensions The number of dimensions in each vector being written.
     ///
     template <typename T> VecsWriter<T> writer(size_t dimensions) const {
-        return VecsWriter<T>(path_, dimensions);
+        return VecsWriter<T>(path_.string(), dimensions);
     }
 
     ///
-- 
2.43.0


From 28bba7f67dbab2f8f399dc4bd45c352bec1ed1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 38/66] fix: the stored shape of a dataset was ignored when
 loading it

---
 include/svs/core/data/simple.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..fe70c98 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -106,6 +106,21 @@ class GenericSerializer {
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
+
+        // Make sure the file agrees with its description.
+        auto expected_size = lib::load_at<size_t>(table, "num_vectors");
+        auto expected_dims = lib::load_at<size_t>(table, "dims");
+        auto [size, dims] = io::NativeFile(binaryfile.value()).get_dims();
+        if (size != expected_size || dims != expected_dims) {
+            throw ANNEXCEPTION(
+                "Expected {} vectors with {} dimensions in {}. Instead, got {} with {}!",
+                expected_size,
+                expected_dims,
+                binaryfile.value(),
+                size,
+                dims
+            );
+        }
         return io::load_dataset(binaryfile.value(), lazy);
     }
 };
-- 
2.43.0


From 3ef50f4b874eb944594e03ac3bffbe9044c13023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 39/66] fix: the stored shape of a graph was ignored and
 renamed graph files could not be loaded

---
 include/svs/core/graph/graph.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index d663224..5740530 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -305,7 +305,26 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return lazy(data_type::load(binaryfile.value(), std::forward<Args>(args)...));
+        // Make sure the file agrees with its description.
+        auto expected_nodes = lib::load_at<size_t>(table, "num_vertices");
+        auto expected_degree = lib::load_at<size_t>(table, "max_degree");
+        return lazy(io::load_dataset(
+            binaryfile.value(),
+            lib::Lazy([&](size_t num_nodes, size_t dims) {
+                if (num_nodes != expected_nodes || dims != expected_degree + 1) {
+                    throw ANNEXCEPTION(
+                        "Expected {} nodes with a maximum degree of {} in {}. Instead, got "
+                        "{} adjacency lists with {} entries!",
+                        expected_nodes,
+                        expected_degree,
+                        binaryfile.value(),
+                        num_nodes,
+                        dims
+                    );
+                }
+                return data_type(num_nodes, dims, args...);
+            })
+        ));
     }
 
   protected:
-- 
2.43.0


From de6e9b605e3df1a332575118aafc9f125b9f516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 40/66] fix: a binary blob whose file disagrees with its
 description was loaded

---
 include/svs/lib/saveload/bootstrap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index a0069eb..b5b0b18 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -318,6 +318,18 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
         auto filename =
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
+        // Make sure the file agrees with its description.
+        size_t filesize = std::filesystem::file_size(filename);
+        if (filesize % sizeof(T) != 0 || filesize / sizeof(T) != num_elements) {
+            throw ANNEXCEPTION(
+                "File {} has {} bytes instead of {} elements of size {}.",
+                filename,
+                filesize,
+                num_elements,
+                sizeof(T)
+            );
+        }
+
         auto loader = BinaryBlobLoader(num_elements, allocator);
         // The file of an empty blob is empty and cannot be opened for reading.
         if (num_elements > 0) {
-- 
2.43.0


From 155cbe3c8eeacc10e7cca73943d71f9adfcbdad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 41/66] fix: an identifier map whose file disagrees with its
 description was loaded

---
 include/svs/core/translation.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 9a78a79..f5cfad0 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -357,11 +357,22 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        auto resolved = table.resolve_at("filename");
+        constexpr size_t bytes_per_point =
+            sizeof(external_id_type) + sizeof(internal_id_type);
+        size_t filesize = std::filesystem::file_size(resolved);
+        if (filesize % bytes_per_point != 0 || filesize / bytes_per_point != num_points) {
+            throw ANNEXCEPTION(
+                "File {} has {} bytes instead of {} translations.",
+                resolved,
+                filesize,
+                num_points
+            );
+        }
         // An empty translator has an empty file, which cannot be opened for reading.
         if (num_points == 0) {
             return translator;
         }
-        auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
-- 
2.43.0


From 0d0009d68ad53de6b8bbdf7388d2505d5ec174f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 42/66] fix: indexes were assembled from parts that do not
 belong together

---
 include/svs/index/vamana/dynamic_index.h |  6 ++++++
 include/svs/index/vamana/index.h         | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 15b2f87..aa529d3 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -1233,6 +1233,12 @@ auto auto_dynamic_assemble(
         config_path, debug_load_from_static, datasize
     );
 
+    if (parameters.entry_point >= datasize && datasize != 0) {
+        throw ANNEXCEPTION(
+            "Entry point {} is not one of {} nodes!", parameters.entry_point, datasize
+        );
+    }
+
     // Make sure that the translator covers all the IDs in the graph and data.
     auto translator_size = translator.size();
     if (translator_size != datasize) {
diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 4ef1850..665c8bc 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -853,12 +853,25 @@ auto auto_assemble(
     auto data = svs::detail::dispatch_load(std::move(data_proto), threadpool);
     auto graph = svs::detail::dispatch_load(std::move(graph_loader), threadpool);
 
+    // Make sure that the parts belong together.
+    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
+    auto datasize = data.size();
+    auto graphsize = graph.n_nodes();
+    if (datasize != graphsize) {
+        throw ANNEXCEPTION(
+            "Reloaded data has {} nodes while the graph has {} nodes!", datasize, graphsize
+        );
+    }
+    if (config.entry_point >= datasize && datasize != 0) {
+        throw ANNEXCEPTION(
+            "Entry point {} is not one of {} nodes!", config.entry_point, datasize
+        );
+    }
+
     // Extract the index type of the provided graph.
     using I = typename decltype(graph)::index_type;
     auto index = VamanaIndex{
         std::move(graph), std::move(data), I{}, std::move(distance), std::move(threadpool)};
-
-    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
     index.apply(config);
     return index;
 }
-- 
2.43.0


From 253e79e2ce59800d5ab2f1c841710246c1e1b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 43/66] fix: clusterings whose file holds more clusters than
 described were loaded in part

---
 include/svs/index/inverted/clustering.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..7fa00bc 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -608,8 +608,8 @@ template <std::integral I> class Clustering {
             if (actual_filesize != expected_filesize) {
                 throw ANNEXCEPTION(
                     "Expected cluster file size to be {}. Instead, it is {}!",
-                    actual_filesize,
-                    expected_filesize
+                    expected_filesize,
+                    actual_filesize
                 );
             }
 
@@ -617,6 +617,13 @@ template <std::integral I> class Clustering {
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
             }
+
+            // Make sure that all clusters in the file have been loaded.
+            if (static_cast<size_t>(io.tellg()) != actual_filesize) {
+                throw ANNEXCEPTION(
+                    "Cluster file {} contains more than {} clusters!", file, num_clusters
+                );
+            }
         }
         return clustering;
     }
-- 
2.43.0


From 0a69172dd43438bc3d153ec13a13d07b3097893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 44/66] fix: inverted indexes were assembled with clusterings
 that refer to vectors outside the dataset

---
 include/svs/index/inverted/memory_based.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..539948b 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -567,6 +567,23 @@ auto assemble_from_clustering(
     auto clustering = lib::load_from_disk<Clustering<uint32_t>>(clustering_path);
     auto ids = clustering.sorted_centroids();
 
+    // Make sure that the clustering belongs to the dataset.
+    auto check_id = [&](size_t id) {
+        if (id >= original.size()) {
+            throw ANNEXCEPTION(
+                "Clustering contains id {} but the dataset only has {} entries!",
+                id,
+                original.size()
+            );
+        }
+    };
+    for (const auto& [centroid, cluster] : clustering) {
+        check_id(centroid);
+        for (const auto& neighbor : cluster) {
+            check_id(neighbor.id());
+        }
+    }
+
     // Create the prinary dataset from the original.
     auto index = index::vamana::auto_assemble(
         index_config,
-- 
2.43.0


From 03f0e7ae0300b41831f6a1f45511a3a3e4dcef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 45/66] fix: an empty clustering could be saved but not loaded

---
 include/svs/index/inverted/clustering.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 7fa00bc..9f2d038 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -613,6 +613,11 @@ template <std::integral I> class Clustering {
                 );
             }
 
+            // An empty file cannot be opened - and there is nothing to read.
+            if (num_clusters == 0 && actual_filesize == 0) {
+                return clustering;
+            }
+
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
-- 
2.43.0


From d498ebdbe5a3309a7771c91ff7c84ce891648f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 46/66] fix: the schema of a static index was accepted for the
 state of a dynamic one

---
 include/svs/index/vamana/dynamic_index.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index aa529d3..515bb5e 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -1163,6 +1163,11 @@ struct VamanaStateLoader {
                 IDTranslator::Identity(assume_datasize)};
         }
 
+        // The schema of a static index is only acceptable when asked for.
+        if (table.schema() == VamanaIndexParameters::serialization_schema) {
+            throw ANNEXCEPTION("Trying to load the state of a dynamic index from {}!", table.schema());
+        }
+
         return VamanaStateLoader{
             SVS_LOAD_MEMBER_AT_(table, parameters),
             svs::lib::load_at<IDTranslator>(table, "translation"),
-- 
2.43.0


From ef94cf0f63148b7abe2288e1837a9086b855b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 47/66] fix: blocked datasets broke on vectors longer than a
 block, on zero dimensions and on mismatching fixed dimensions

---
 include/svs/core/data/simple.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index fe70c98..c060271 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -27,6 +27,7 @@
 #include "svs/lib/uuid.h"
 
 // stdlib
+#include <algorithm>
 #include <span>
 #include <type_traits>
 
@@ -606,13 +607,18 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
 
     ///// Constructors
     SimpleData(size_t n_elements, size_t n_dimensions, const Blocked<Alloc>& alloc)
-        : blocksize_{lib::prevpow2(
-              alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
-          )}
+        // A block holds at least one vector, however long (or short) the vectors are.
+        : blocksize_{lib::prevpow2(std::max<size_t>(
+              alloc.parameters().blocksize_bytes.value() /
+                  std::max<size_t>(sizeof(T) * n_dimensions, 1),
+              1
+          ))}
         , blocks_{}
         , dimensions_{n_dimensions}
         , size_{n_elements}
         , allocator_{alloc} {
+        // Make sure that fixed dimensions match, even without any block.
+        static_cast<void>(lib::forward_extent<Extent>(n_dimensions));
         size_t elements_per_block = blocksize_.value();
         size_t num_blocks = lib::div_round_up(n_elements, elements_per_block);
         blocks_.reserve(num_blocks);
-- 
2.43.0


From cc518a5db99d9222dadbe8f2f915fe096c0336fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 48/66] fix: descriptions cut inside a final number were loaded
 with the shortened number

---
 include/svs/lib/saveload/load.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/saveload/load.h b/include/svs/lib/saveload/load.h
index c672764..8488c5d 100644
--- a/include/svs/lib/saveload/load.h
+++ b/include/svs/lib/saveload/load.h
@@ -11,6 +11,9 @@
 
 #pragma once
 
+// svs
+#include "svs/lib/file.h"
+
 // saveload
 #include "svs/lib/saveload/core.h"
 
@@ -815,8 +818,21 @@ check_global_version(lib::Version version, const std::filesystem::path& source)
     }
 }
 
+// Saved files are terminated by a line break. If it is missing, then the file was cut short:
+// Any number at its end may have lost digits.
+inline toml::table parse_saved_file(const std::filesystem::path& fullpath) {
+    {
+        auto stream = svs::lib::open_read(fullpath);
+        stream.seekg(-1, std::ios_base::end);
+        if (stream.get() != '\n') {
+            throw ANNEXCEPTION("File {} is incomplete!", fullpath);
+        }
+    }
+    return toml::parse_file(fullpath.c_str());
+}
+
 inline SerializedObject begin_deserialization(const std::filesystem::path& fullpath) {
-    auto table = toml::parse_file(fullpath.c_str());
+    auto table = parse_saved_file(fullpath);
     auto version = get_version(table, config_version_key);
     svs::lib::detail::check_global_version(version, fullpath);
     return SerializedObject{
@@ -836,7 +852,7 @@ inline SerializedObject begin_deserialization(const std::filesystem::path& path)
 
 inline ContextFreeSerializedObject
 begin_context_free_deserialization(const std::filesystem::path& fullpath) {
-    auto table = toml::parse_file(fullpath.c_str());
+    auto table = detail::parse_saved_file(fullpath);
     auto version = get_version(table, config_version_key);
     svs::lib::detail::check_global_version(version, fullpath);
     return ContextFreeSerializedObject{std::move(table)};
-- 
2.43.0


From 373802dc5512526fcac756e4c36c1d022e36d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 49/66] fix: inverted indexes rejected or lost vectors whose
 best inner product is not positive

---
 include/svs/index/inverted/common.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..b6173f3 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -29,15 +29,16 @@ namespace svs::index::inverted {
 // With the Inner Product distance, we try to maximize.
 // When `bound = nearest / (1 + epsilon)`, a higher epsilon makes the interval of
 // accepted distances larger.
+//
+// Inner products can be negative (or zero). In this case, dividing would yield a bound that
+// is *better* than the nearest distance, so multiplication is used instead.
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2) {
     return nearest * (1 + epsilon);
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    return nearest > 0 ? nearest / (1 + epsilon) : nearest * (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
-- 
2.43.0


From b1c2f62cefd004401456e4b3c81244912cec01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 50/66] fix: searches of an inverted index ignored the primary
 parameters they were given

---
 include/svs/index/inverted/memory_based.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 539948b..99f9fe1 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,8 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch =
+                    index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From 36783292f835e9efedb82b825334b3d9e07641b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 51/66] fix: inverted indexes returned left-over data and
 skipped clusters at the cut-off distance

---
 include/svs/index/inverted/memory_based.h | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 99f9fe1..9361349 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -395,6 +395,21 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 auto buffer = threads::shallow_copy(scratch.buffer);
                 buffer.change_maxsize(num_neighbors);
 
+                // Store results.
+                // If fewer neighbors than requested were found, mark the surplus as invalid.
+                using buffer_type = std::remove_cvref_t<decltype(buffer)>;
+                constexpr auto invalid =
+                    type_traits::sentinel_v<Neighbor<Idx>, typename buffer_type::compare_type>;
+                auto store_results = [&](const buffer_type& found, size_t i) {
+                    size_t num_found = std::min<size_t>(num_neighbors, found.size());
+                    for (size_t j = 0; j < num_found; ++j) {
+                        results.set(found[j], i, j);
+                    }
+                    for (size_t j = num_found; j < num_neighbors; ++j) {
+                        results.set(invalid, i, j);
+                    }
+                };
+
                 for (auto i : is) {
                     buffer.clear();
                     auto&& query = queries.get_datum(i);
@@ -405,6 +420,10 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     // Cluster Search
                     auto& scratch_buffer = scratch.buffer;
+                    if (scratch_buffer.size() == 0) {
+                        store_results(buffer, i);
+                        continue;
+                    }
                     auto cutoff_distance = inverted::bound_with<double>(
                         scratch_buffer[0].distance(),
                         search_parameters.refinement_epsilon_,
@@ -413,7 +432,9 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        // Candidates on the cut-off (like the nearest if it has distance zero)
+                        // are still searched.
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
@@ -437,10 +458,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                         );
                     }
 
-                    // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
-                        results.set(buffer[j], i, j);
-                    }
+                    store_results(buffer, i);
                 }
             }
         );
-- 
2.43.0


From a7e9738739c1adaccf3087a6273385570ef9de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 52/66] fix: inverted indexes reported to be empty

---
 include/svs/index/inverted/memory_based.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 9361349..34b33c7 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -100,6 +100,9 @@ template <data::MemoryDataset Data, std::integral I> class SparseClusteredDatase
         : data_{std::move(data)}
         , ids_{std::move(ids)} {}
 
+    // The number of distinct dataset elements stored in the clusters.
+    size_t num_leaves() const { return data_.size(); }
+
     template <typename Callback>
     void on_leaves(Callback&& f, size_t cluster, size_t prefetch_offset) const {
         auto& ids = ids_[cluster];
@@ -256,6 +259,15 @@ template <data::MemoryDataset Data, std::integral I> class DenseClusteredDataset
         });
     }
 
+    // The number of distinct dataset elements stored in the clusters.
+    size_t num_leaves() const {
+        auto ids = tsl::robin_set<I>();
+        for (const auto& cluster : clusters_) {
+            ids.insert(cluster.ids_.begin(), cluster.ids_.end());
+        }
+        return ids.size();
+    }
+
     template <typename Callback> void on_leaves(Callback&& f, size_t cluster) const {
         clusters_.at(cluster).on_leaves(SVS_FWD(f));
     }
@@ -354,10 +366,8 @@ template <typename Index, typename Cluster> class InvertedIndex {
         threadpool_.resize(std::max<size_t>(num_threads, 1));
     }
 
-    size_t size() const {
-        // TODO: Fix
-        return 0;
-    }
+    /// @brief Return the number of dataset elements: centroids and leaves.
+    size_t size() const { return index_local_to_global_.size() + cluster_.num_leaves(); }
     size_t dimensions() const { return index_.dimensions(); }
 
     ///// Search Parameter Setting
-- 
2.43.0


From 78368a8a4c513495d70f6fb273d8595d150db321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 53/66] fix: inverted indexes searched the wrong clusters for
 centroids that were not sorted

---
 include/svs/index/inverted/memory_based.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 34b33c7..b69e8ea 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -19,8 +19,13 @@
 #include "svs/index/inverted/memory_build_params.h"
 #include "svs/index/inverted/memory_search_params.h"
 
+// third-party
+#include "tsl/robin_set.h"
+
 // stl
+#include <algorithm>
 #include <concepts>
+#include <vector>
 
 namespace svs::index::inverted {
 
@@ -554,6 +559,10 @@ auto auto_build(
     auto centroids =
         centroid_picker(data, parameters.clustering_parameters_, threadpool.size());
 
+    // Clusters are ordered by the IDs of their centroids, so the primary index must be too.
+    std::sort(centroids.begin(), centroids.end());
+    centroids.erase(std::unique(centroids.begin(), centroids.end()), centroids.end());
+
     // Build Primary Index.
     auto index = build_primary_index(
         data,
-- 
2.43.0


From ad14d7e6e98b072552fc2a52b4255b2be0d45469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 54/66] fix: calibration failed or missed its recall target
 when the capacity limit is small

---
 include/svs/index/vamana/calibrate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index b4f9e32..31981e8 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -196,6 +196,12 @@ VamanaSearchParameters optimize_split_buffer(
     auto sp = current;
     while (sws > 1) {
         --sws;
+        // Splitting is not possible if the capacity would exceed the maximum to try.
+        auto capacity_lower_bound = std::max<size_t>(sws, num_neighbors);
+        if (capacity_lower_bound > search_window_capacity_upper) {
+            continue;
+        }
+
         // First, try using the largest search window capacity.
         // If that fails, then we shouldn't see any better progress by further decreasing
         // the search window size and we can terminate now.
@@ -212,7 +218,6 @@ VamanaSearchParameters optimize_split_buffer(
         // recall.
         // Then time that configuration.
         // If it's faster than what we've found so far, then update the current best.
-        auto capacity_lower_bound = std::max<size_t>(sws, num_neighbors);
         auto range =
             threads::UnitRange<size_t>(capacity_lower_bound, search_window_capacity_upper);
         auto best_capacity = *std::lower_bound(
-- 
2.43.0


From 77b7b01994bcc0402adc65cec08d94b2b2a28f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 55/66] fix: calibration replaced the fastest prefetch
 lookahead by slower ones

---
 include/svs/index/vamana/calibrate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index 31981e8..8f38b2c 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -402,6 +402,7 @@ VamanaSearchParameters tune_prefetch(
             sp.prefetch_lookahead_ = max_lookahead;
             auto search_time = get_search_time(calibration_parameters, do_search, sp);
             if (search_time < min_search_time) {
+                min_search_time = search_time;
                 search_parameters.prefetch_lookahead_ = sp.prefetch_lookahead_;
                 search_parameters.prefetch_step_ = sp.prefetch_step_;
             }
-- 
2.43.0


From 3e61bafa755e6035bab1b9f4baa3527bbfb0a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 56/66] fix: k-means read beyond the dataset or never ended
 when picking centroids

---
 include/svs/core/kmeans.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..58c63ed 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -23,6 +23,7 @@
 #include "svs/lib/timing.h"
 #include "svs/lib/type_traits.h"
 
+#include <algorithm>
 #include <random>
 
 namespace svs {
@@ -147,11 +148,24 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot pick {} centroids from a dataset with {} elements!",
+            num_clusters,
+            data.size()
+        );
+    }
+    if (parameters.minibatch_size == 0) {
+        throw ANNEXCEPTION("The minibatch size must not be zero!");
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    // N.B.: uniform_int_distribution is inclusive.
+    auto distribution = std::uniform_int_distribution<size_t>(
+        0, std::max<size_t>(data.size(), 1) - 1
+    );
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From 550db7c35cb26762e7361d921bf9161f813ccd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 57/66] fix: no entry point was found for datasets with very
 large coordinates

---
 include/svs/core/medioid.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 279aa29..7bbab4a 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -297,9 +297,11 @@ size_t find_medioid(
 
     // Find the closest element to the medioid that satisfies the predicate.
     // Thread local nearest neighbors.
-    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(
-        type_traits::sentinel_v<Neighbor<size_t>, std::less<>>, threadpool.size()
-    );
+    //
+    // Note: Distances can be too large for any comparison to succeed. In this case, the
+    // first element that satisfies the predicate is used.
+    constexpr auto none = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(none, threadpool.size());
 
     threads::run(
         threadpool,
@@ -321,7 +323,7 @@ size_t find_medioid(
                     distance += diff * diff;
                 }
 
-                if (distance < best.distance()) {
+                if (best.id() == none.id() || distance < best.distance()) {
                     best = {i, lib::narrow_cast<float>(distance)};
                 }
             }
@@ -329,9 +331,12 @@ size_t find_medioid(
     );
 
     // Return the minimum index.
-    auto global_min = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    auto global_min = none;
     closest_neighbors.visit([&](const auto& neighbor) {
-        if (neighbor < global_min) {
+        if (neighbor.id() == none.id()) {
+            return;
+        }
+        if (global_min.id() == none.id() || neighbor < global_min) {
             global_min = neighbor;
         }
     });
-- 
2.43.0


From 986e31a7e36f3b03a88916f4abbf647367f5edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 58/66] fix: pairwise summation with a threshold of zero never
 ended

---
 include/svs/core/medioid.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 7bbab4a..61a489e 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -18,6 +18,7 @@
 #include "svs/lib/threads.h"
 
 // stl
+#include <algorithm>
 #include <tuple>
 #include <vector>
 
@@ -183,7 +184,7 @@ Op op_pairwise(
 ) {
     // Haven't reached the bottom of recursion.
     // Divide the current range in half and recurse.
-    if (indices.size() > parameters.linear_threshold) {
+    if (indices.size() > std::max<size_t>(parameters.linear_threshold, 1)) {
         size_t start = indices.start();
         size_t stop = indices.stop();
         size_t mid = (start + stop) / 2;
-- 
2.43.0


From 9b1f9b50d6c9df8b9467f87b59fe7bf8a8a49ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 59/66] fix: selecting more centroids than vectors never ended

---
 include/svs/index/inverted/clustering.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 9f2d038..f4f0216 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -155,7 +155,13 @@ std::vector<I, lib::Allocator<I>> randomly_select_centroids(
     // const ClusteringParameters& params,
     lib::Type<I> SVS_UNUSED(integer_type) = {}
 ) {
-    assert(num_centroids <= data_size);
+    if (num_centroids > data_size) {
+        throw ANNEXCEPTION(
+            "Cannot select {} centroids from a dataset with {} elements!",
+            num_centroids,
+            data_size
+        );
+    }
     auto rng = std::mt19937_64(seed);
     // N.B.: uniform_int_distribution is inclusive.
     auto distribution = std::uniform_int_distribution<I>(0, lib::narrow<I>(data_size - 1));
-- 
2.43.0


From a697f60b4de08625cd6d4350874bfb19b8ed250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 60/66] fix: aligned memory was returned with the wrong size

AlignedAllocator::deallocate passed the number of elements where the number of
bytes that were allocated is required.
---
 include/svs/lib/threads/threadlocal.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 5572769..83aab7d 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -72,12 +72,18 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
 
     // Methods
     value_type* allocate(size_t count) {
-        size_t bytes = alignment * lib::div_round_up(sizeof(T) * count, alignment);
-        return static_cast<value_type*>(::operator new(bytes, std::align_val_t{alignment}));
+        return static_cast<value_type*>(
+            ::operator new(allocation_bytes(count), std::align_val_t{alignment})
+        );
     }
 
     void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count, std::align_val_t{alignment});
+        ::operator delete(ptr, allocation_bytes(count), std::align_val_t{alignment});
+    }
+
+  private:
+    static constexpr size_t allocation_bytes(size_t count) {
+        return alignment * lib::div_round_up(sizeof(T) * count, alignment);
     }
 };
 
-- 
2.43.0


From 9ad3ea55f1fa666d43526f15efc1be2f529f3501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 61/66] fix: a hugepage mapping was lost when it could not be
 recorded

---
 include/svs/core/allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index 3e455d5..36d2766 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -130,9 +130,13 @@ class GenericHugepageAllocator {
 
     template <typename... Args> [[nodiscard]] void* allocate(size_t bytes, Args&&... args) {
         auto [ptr, sz] = hugepage_mmap(bytes, SVS_FWD(args)...);
-        {
+        try {
             std::lock_guard lock{mutex_};
             ptr_to_size_.insert({ptr, sz});
+        } catch (...) {
+            // Without an entry in the table, the mapping can never be released.
+            static_cast<void>(hugepage_unmap(ptr, sz));
+            throw;
         }
         return ptr;
     }
-- 
2.43.0


From 75ba3dbce061284cf5c99f84b779858d86736ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 62/66] fix: allocations beyond the address space wrapped
 around to small ones

The size in bytes was computed without regard to overflow.
---
 include/svs/core/allocator.h          | 5 +++++
 include/svs/lib/memory.h              | 4 ++++
 include/svs/lib/threads/threadlocal.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index 36d2766..806acc7 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -37,8 +37,10 @@
 #include <array>
 #include <fcntl.h>
 #include <filesystem>
+#include <limits>
 #include <linux/mman.h>
 #include <memory>
+#include <new>
 #include <optional>
 #include <string>
 #include <sys/mman.h>
@@ -213,6 +215,9 @@ template <typename T> class HugepageAllocator {
     }
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > std::numeric_limits<size_t>::max() / sizeof(T)) {
+            throw std::bad_array_new_length();
+        }
         // An allocation of zero elements must still yield a pointer that can be deallocated.
         size_t bytes = std::max<size_t>(sizeof(T) * n, 1);
         return static_cast<T*>(detail::GenericHugepageAllocator().allocate(bytes, force_));
diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index c03a0d3..b238200 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -20,6 +20,7 @@
 #include "svs/lib/misc.h"
 
 // stl
+#include <limits>
 #include <memory>
 #include <new>
 #include <optional>
@@ -50,6 +51,9 @@ template <typename T> struct Allocator {
 
     // Allocation and Deallocation.
     [[nodiscard]] constexpr value_type* allocate(std::size_t n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+            throw std::bad_array_new_length();
+        }
         return static_cast<value_type*>(
             ::operator new(n * sizeof(T), std::align_val_t(alignof(T)))
         );
diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 83aab7d..3932067 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -19,6 +19,7 @@
 #include <concepts>
 #include <cstddef>
 #include <iostream>
+#include <limits>
 #include <new>
 #include <vector>
 
@@ -72,6 +73,9 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
 
     // Methods
     value_type* allocate(size_t count) {
+        if (count > (std::numeric_limits<size_t>::max() - alignment) / sizeof(T)) {
+            throw std::bad_array_new_length();
+        }
         return static_cast<value_type*>(
             ::operator new(allocation_bytes(count), std::align_val_t{alignment})
         );
-- 
2.43.0


From a6492a75bf9bbfcd45a6971ed594b1f1bfcc526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 63/66] fix: mapping zero bytes of a new file left the file
 behind, and open

---
 include/svs/core/allocator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index 806acc7..de2c79d 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -437,6 +437,9 @@ class MemoryMapper {
 
     // Allocation
     MMapPtr<void> mmap(const std::filesystem::path& filename, lib::Bytes bytes) const {
+        if (bytes.value() == 0) {
+            throw ANNEXCEPTION("Cannot memory map zero bytes of file {}!", filename);
+        }
         bool exists = std::filesystem::exists(filename);
 
         // Check policy against the filesystem state.
-- 
2.43.0


From 64391f1e568f7d964d440c806fa2223b975e3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 64/66] fix: the type-erased dynamic index truncated alpha to a
 whole number

---
 include/svs/orchestrators/dynamic_vamana.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/orchestrators/dynamic_vamana.h b/include/svs/orchestrators/dynamic_vamana.h
index daba2a5..f69d625 100644
--- a/include/svs/orchestrators/dynamic_vamana.h
+++ b/include/svs/orchestrators/dynamic_vamana.h
@@ -156,7 +156,7 @@ class DynamicVamana : public manager::IndexManager<DynamicVamanaInterface> {
 
     // Accessors
     float get_alpha() const { return impl_->get_alpha(); }
-    void set_alpha(size_t alpha) { impl_->set_alpha(alpha); }
+    void set_alpha(float alpha) { impl_->set_alpha(alpha); }
     size_t get_construction_window_size() const {
         return impl_->get_construction_window_size();
     }
-- 
2.43.0


From 75345d087bc16647e1c597cc919230271a869d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 65/66] fix: unpacking compressed vectors read past the end of
 their storage

Groups of eight elements were read four or eight bytes at a time whatever
their width, so the last groups of a vector whose length is a multiple of
sixteen were read beyond its storage: out of bounds for the last vector
of a compressed dataset.
---
 include/svs/quantization/lvq/compressed.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/svs/quantization/lvq/compressed.h b/include/svs/quantization/lvq/compressed.h
index 87113f0..b701c21 100644
--- a/include/svs/quantization/lvq/compressed.h
+++ b/include/svs/quantization/lvq/compressed.h
@@ -575,6 +575,18 @@ T extract(const CompressedVector<Sign, Bits, Extent>& v, size_t i) {
     return v.template extract<T>(i);
 }
 
+///
+/// Extract the ``Bits`` bytes beginning at byte ``i`` that hold a group of eight elements.
+/// Does not read past the group: it may be the last one in the underlying storage.
+///
+template <typename T, typename Sign, size_t Bits, size_t Extent>
+T extract_group(const CompressedVector<Sign, Bits, Extent>& v, size_t i) {
+    static_assert(Bits <= sizeof(T));
+    T x{0};
+    std::memcpy(&x, v.data() + i, Bits);
+    return x;
+}
+
 template <typename T, typename Sign, size_t Bits, size_t Extent>
 T extract_predicated(
     const CompressedVector<Sign, Bits, Extent>& v, size_t i, eve::ignore_none_ /*unused*/
@@ -676,9 +688,9 @@ SVS_FORCE_INLINE wide_<int32_t, 16> unpack_as(
         // After broad-casting and shifting, the conversion to 32-bit integers is guarenteed
         // lossless, so we can horizontally concatenate the registers to get a full 16
         // -element bundle.
-        auto lo = wide_<int64_t, 8>{extract<int64_t>(x, Bits * 2 * i)} >> helper.first;
+        auto lo = wide_<int64_t, 8>{extract_group<int64_t>(x, Bits * 2 * i)} >> helper.first;
         auto hi =
-            wide_<int64_t, 8>{extract<int64_t>(x, Bits * (2 * i + 1))} >> helper.first;
+            wide_<int64_t, 8>{extract_group<int64_t>(x, Bits * (2 * i + 1))} >> helper.first;
 
         auto combined = wide_<int32_t, 16>(
             eve::convert(lo, eve::as<int32_t>()), eve::convert(hi, eve::as<int32_t>())
@@ -689,8 +701,8 @@ SVS_FORCE_INLINE wide_<int32_t, 16> unpack_as(
         // Once we're at 4-bits or lower, we can use the same strategy, except this time
         // The initial load can be done using 32-bit integers to avoid the intermediate
         // conversion from 64-bit to 32-bit.
-        auto lo = wide_<int32_t, 8>{extract<int32_t>(x, Bits * 2 * i)};
-        auto hi = wide_<int32_t, 8>{extract<int32_t>(x, Bits * (2 * i + 1))};
+        auto lo = wide_<int32_t, 8>{extract_group<int32_t>(x, Bits * 2 * i)};
+        auto hi = wide_<int32_t, 8>{extract_group<int32_t>(x, Bits * (2 * i + 1))};
 
         auto combined = wide_<int32_t, 16>{lo, hi};
         return ((combined >> helper.first) & helper.second) + Encoding<Sign, Bits>::min();
-- 
2.43.0


From ddb0e268912fea0d2526b35f3b0fd7709fb996b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 66/66] fix: deleting a repeated identifier corrupted the
 dynamic index

---
 include/svs/index/vamana/dynamic_index.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 515bb5e..0f188a1 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -671,6 +671,9 @@ class MutableVamanaIndex {
     ///
     template <typename T> void delete_entries(const T& ids) {
         translator_.check_external_exist(ids.begin(), ids.end());
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("External IDs contain repeat elements!");
+        }
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
         }
-- 
2.43.0


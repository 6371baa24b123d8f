From dc3417e715379ffa092ed4951175aa761806f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 01/32] fix: lost wake-up in the table-based atomic_wait

The notifier cleared the shared 'waiters' flag with an exchange. A notifier
that had already published its new version could consume the flag of a waiter
that started waiting afterwards, so that this waiter went to sleep with
waiters == 0 and every later notification was skipped; only the two second
futex timeout rescued it. Count the waiters instead, as the direct variant
already does, and order the version bump after the change of the value.
---
 include/parlay/internal/atomic_wait.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/parlay/internal/atomic_wait.h b/include/parlay/internal/atomic_wait.h
index 35d8a0a..7a23036 100644
--- a/include/parlay/internal/atomic_wait.h
+++ b/include/parlay/internal/atomic_wait.h
@@ -258,9 +258,9 @@ The strategy is chosen this way, by platform:
         void __cxx_atomic_notify_all(_Tp const* ptr) {
     #if defined(__TABLE)
             auto * const c = __contention(ptr);
-            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELEASE);
             __atomic_thread_fence(__ATOMIC_SEQ_CST);
-            if (0 != __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED))
+            if (0 != __atomic_load_n(&c->waiters, __ATOMIC_RELAXED))
                 __do_direct_wake(&c->version, true);
     #endif
         }
@@ -272,17 +272,18 @@ The strategy is chosen this way, by platform:
         void __cxx_atomic_try_wait_slow(_Tp const* ptr, _Tp const val, int order) {
     #if defined(__TABLE)
             auto * const c = __contention(ptr);
-            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&c->waiters, 1, __ATOMIC_RELAXED);
             __atomic_thread_fence(__ATOMIC_SEQ_CST);
-            auto const version = __atomic_load_n(&c->version, __ATOMIC_RELAXED);
-            if (__builtin_expect(val != __atomic_load_n(ptr, order), 1))
-                return;
+            auto const version = __atomic_load_n(&c->version, __ATOMIC_ACQUIRE);
+            if (__builtin_expect(val == __atomic_load_n(ptr, order), 1)) {
         #ifdef __FUTEX_TIMED
-            constexpr timespec timeout = { 2, 0 }; // Hedge on rare 'int version' aliasing.
-            __do_direct_wait(&c->version, version, &timeout);
+                constexpr timespec timeout = { 2, 0 }; // Hedge on rare 'int version' aliasing.
+                __do_direct_wait(&c->version, version, &timeout);
         #else
-            __do_direct_wait(&c->version, version, nullptr);
+                __do_direct_wait(&c->version, version, nullptr);
         #endif
+            }
+            __atomic_fetch_sub(&c->waiters, 1, __ATOMIC_RELAXED);
     #else
         __cxx_atomic_try_wait_slow_fallback(ptr, val, order);
     #endif // __TABLE
-- 
2.43.0


From ad095bde00eeec6056ef3b55a17cef86434b48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 02/32] fix: stepping back from ThreadSpecific::end() into a
 chunk nobody accessed yet

---
 include/parlay/thread_specific.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/parlay/thread_specific.h b/include/parlay/thread_specific.h
index 0215b12..7385264 100644
--- a/include/parlay/thread_specific.h
+++ b/include/parlay/thread_specific.h
@@ -390,11 +390,13 @@ class ThreadSpecific {
 
   [[nodiscard]] iterator end() {
     internal::ThreadListChunkData data{num_thread_ids()};
+    ensure_end_chunk_exists(data);
     return iterator{data.chunk_id, data.chunk_position, this};
   }
 
   [[nodiscard]] const_iterator end() const {
     internal::ThreadListChunkData data{num_thread_ids()};
+    ensure_end_chunk_exists(data);
     return const_iterator{data.chunk_id, data.chunk_position, this};
   }
 
@@ -438,6 +440,13 @@ class ThreadSpecific {
     return *(chunks[chunk_id].load(std::memory_order_relaxed)[chunk_position]);
   }
 
+  // An end iterator that points into the middle of a chunk can be stepped back to the
+  // earlier elements of that chunk, even if no thread has accessed any of them yet.
+  void ensure_end_chunk_exists(const internal::ThreadListChunkData& data) const {
+    if (data.chunk_position > 0 && chunks[data.chunk_id].load(std::memory_order_acquire) == nullptr) PARLAY_UNLIKELY
+      ensure_chunk_exists(data.chunk_id);
+  }
+
   void ensure_chunk_exists(std::size_t chunk_id) const {
     std::lock_guard<std::mutex> lock(growing_mutex);
     if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {
-- 
2.43.0


From 85a264fd32c43d146b962e41315b437e3aa4d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 03/32] fix: count large pool allocations and frees by the same
 size

p_malloc counted size plus padding while p_free, which only knows the power of
two above it, subtracted that, and clear() subtracted the bucket size: the memory
reported in use went negative or stayed high after everything had been freed.
---
 include/parlay/internal/pool_allocator.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..126778c 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -58,11 +58,22 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The number of bytes that a large block requested with size n counts for in the
+  // statistics. Must be the same when the block is returned with its size rounded up
+  // to a power of two, which is all that p_free knows, and when it is cleared.
+  size_t accounted_size(size_t n) const {
+    if (n > max_size) return size_t{1} << log2_up(n);
+    size_t bucket = num_small;
+    while (n > sizes[bucket]) bucket++;
+    return sizes[bucket];
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
+    size_t accounted = accounted_size(n);
+    large_used += accounted;
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
@@ -79,15 +90,16 @@ struct pool_allocator {
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += accounted;
     return a;
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
+    size_t accounted = accounted_size(n);
+    large_used -= accounted;
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= accounted;
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
-- 
2.43.0


From d7ed7f707bb7e6e0be85a9408319510301733266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 04/32] fix: allocator<T>::allocate(0) is aligned for
 over-aligned T

An empty allocation got a 16-byte block, which is not aligned for types whose
alignment is larger (the assertion after it failed).
---
 include/parlay/alloc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/parlay/alloc.h b/include/parlay/alloc.h
index 7d91981..5e19aab 100644
--- a/include/parlay/alloc.h
+++ b/include/parlay/alloc.h
@@ -163,8 +163,9 @@ struct allocator {
       return static_cast<T*>(p_malloc(n * sizeof(T), alignof(T)));
     }
     else {
-      // Should be suitably aligned for alignments up to pool_allocator::max_alignment
-      void* buffer = internal::get_default_allocator().allocate(n * sizeof(T));
+      // Should be suitably aligned for alignments up to pool_allocator::max_alignment,
+      // since blocks are aligned to their size. This needs at least one element's worth.
+      void* buffer = internal::get_default_allocator().allocate((std::max)(n, size_t{1}) * sizeof(T));
       assert(reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
       return static_cast<T*>(buffer);
     }
@@ -175,7 +176,7 @@ struct allocator {
       p_free(static_cast<void*>(ptr));
     }
     else {
-      internal::get_default_allocator().deallocate(static_cast<void*>(ptr), n * sizeof(T));
+      internal::get_default_allocator().deallocate(static_cast<void*>(ptr), (std::max)(n, size_t{1}) * sizeof(T));
     }
   }
 
-- 
2.43.0


From cf12c515b516741694f1b1b618482d3b351da4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 05/32] fix: hashtable::count() and get_index() use a monoid
 that compiles

They used the old-style addm, which reduce and scan no longer accept, so that
any use of them was a compile error.
---
 include/parlay/hash_table.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..85fc5ac 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -8,6 +8,7 @@
 #include <iostream>
 
 #include "delayed_sequence.h"
+#include "monoid.h"
 #include "parallel.h"
 #include "sequence.h"
 #include "slice.h"
@@ -226,7 +227,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +261,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0


From c5216fdc1db7f7afd8bc9c51476e563d43016d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 06/32] fix: kth_smallest used != instead of the comparison to
 set aside copies of the pivot

Elements that differ but are equivalent under the comparison (always the case
for kth_smallest, which compares iterators) made the recursion shrink by one
element per level (stack overflow on large inputs of equal keys), and an
operator!= that is coarser than the comparison gave wrong answers.
---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..58cab93 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1286,7 +1286,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From fffda41499515e6cb499d93ae8b2b3d391befb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 07/32] fix: integer_sort aborted on the largest 64-bit key
 (max key + 1 wraps to 0)

---
 include/parlay/internal/integer_sort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..c2926b0 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <string>
 #include <tuple>
+#include <limits>
 #include <type_traits>
 #include <utility>
 
@@ -330,7 +331,9 @@ sequence<size_t> integer_sort_(slice<InIterator, InIterator> In,
   if (bits == 0) {
     auto get_key = [&](size_t i) { return static_cast<size_t>(g(In[i])); };
     auto keys = delayed_seq<size_t>(In.size(), get_key);
-    bits = log2_up(internal::reduce(make_slice(keys), maximum<size_t>()) + 1);
+    auto max_key = internal::reduce(make_slice(keys), maximum<size_t>());
+    // max_key + 1 would overflow for the largest possible key
+    bits = (max_key == (std::numeric_limits<size_t>::max)()) ? std::numeric_limits<size_t>::digits : log2_up(max_key + 1);
   }
   return integer_sort_r<inplace_tag, assignment_tag>(
     In, Out, Tmp, g, bits, num_buckets);
-- 
2.43.0


From f925aee6cc19773fbcd493ef26f1cebed904f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 08/32] fix: counting_sort_by_keys did not compile for ranges
 of lvalue pairs

---
 include/parlay/primitives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 58cab93..c406c71 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -488,8 +488,8 @@ template<typename Range>
 [[nodiscard]] auto counting_sort_by_keys(Range&& in, size_t num_buckets) {
   static_assert(is_random_access_range_v<Range>);
   static_assert(is_pair_v<range_reference_type_t<Range>>);
-  static_assert(std::is_integral_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
-  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
+  static_assert(std::is_integral_v<std::decay_t<std::tuple_element_t<0, std::decay_t<range_reference_type_t<Range>>>>>);
+  static_assert(std::is_unsigned_v<std::decay_t<std::tuple_element_t<0, std::decay_t<range_reference_type_t<Range>>>>>);
   auto values = delayed::values_view(in);
   return internal::count_sort(make_slice(values), delayed::keys_view(in), num_buckets);
 }
-- 
2.43.0


From 07353cdd48b0300cfaa0d9fa3b1bc2cc68219080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 09/32] fix: group_by_key_ordered must not ignore the given
 order for small unsigned keys

---
 include/parlay/internal/group_by.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..41c8eae 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -61,7 +61,10 @@ auto group_by_key_ordered(Range&& S, Comp&& less) {
 
   sequence<KV> sorted;
   auto comp = internal::compare_pairs_by_key(less);
-  if constexpr(std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
+  // an integer sort is only possible if the keys are ordered by their natural order
+  using Less = std::decay_t<Comp>;
+  if constexpr((std::is_same_v<Less, std::less<>> || std::is_same_v<Less, std::less<K>>) &&
+               std::is_integral_v<K> && std::is_unsigned_v<K> && sizeof(KV) <= 16) {
     sorted = internal::integer_sort(make_slice(S), internal::get_key);
   } else {
     sorted = internal::sample_sort(make_slice(S), comp, true);
-- 
2.43.0


From 54f67520906bfadb7de87e3abec38618f3f379c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 10/32] fix: histogram_by_index, reduce_by_index and
 remove_duplicate_integers divided by zero on empty input

---
 include/parlay/internal/collect_reduce.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..0355958 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -50,6 +50,9 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   using result_type = decltype(helper.init());
   size_t n = A.size();
 
+  // the block sizes below are not defined for an empty input
+  if (n == 0) return seq_collect_reduce(A, helper, num_buckets);
+
   size_t num_threads = num_workers();
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
   size_t block_size = ((n - 1) / num_blocks_) + 1;
-- 
2.43.0


From 2bfe37db159f022ba871b0973dd74610a8f59165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 11/32] fix: group_by_index truncated positions to the type of
 num_buckets

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 41c8eae..e388983 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -334,7 +334,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From d9d5f4b7f0fc0b1c157cc421394b97d42405d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 12/32] fix: remove_duplicate_integers returned absent integers
 for long inputs with few buckets

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index e388983..610006a 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -280,7 +280,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From e79a57c372a05b2249faffc38e2af43803c38d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 13/32] fix: delayed scan_inclusive of one block read past the
 end of its block sums

---
 include/parlay/internal/delayed/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..c570962 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,8 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      // One block, plus the sum that the end iterator begins with
+      block_sums = sequence<T>(n_blocks + 1, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From 57867781748fb83ee0ebfbd4544479bcd6461739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 14/32] fix: delayed flatten read past its block offsets when
 the last input blocks begin no output block

---
 include/parlay/internal/delayed/flatten.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..78850a7 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -201,6 +201,9 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
+        // Nothing to do if every output block begins before this input block
+        if (out_block_id == out_block_offsets.size()) return;
+
         size_t outer_idx = out_block_offsets[out_block_id];
         if (outer_idx < block_end) {
           auto outer_it = begin_block(base_view(), i);
-- 
2.43.0


From 1e6e0809398081b0c43af556e86e76dab2955ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 15/32] fix: copyable_function_wrapper destroyed its function
 on self-assignment

---
 include/parlay/utilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/utilities.h b/include/parlay/utilities.h
index 319d1b4..e9eee16 100644
--- a/include/parlay/utilities.h
+++ b/include/parlay/utilities.h
@@ -303,7 +303,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_copy_assignable_v<F>) {
       f = other.f;
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(other.f);
     }
@@ -315,7 +315,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_move_assignable_v<F>) {
       f = std::move(other.f);
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(std::move(other.f));
     }
-- 
2.43.0


From 1cac32a2a176c304ca9b5311e2bd30174373597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 16/32] fix: delayed filter and flatten views kept dangling
 iterators when moved, and assigning them swapped the referenced ranges

---
 include/parlay/internal/delayed/common.h  | 49 ++++++++++++++++++++---
 include/parlay/internal/delayed/filter.h  |  6 +--
 include/parlay/internal/delayed/flatten.h |  6 +--
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index fef4623..dcc1e17 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <utility>
 #include <type_traits>
 
@@ -140,19 +141,53 @@ using view_storage_type = std::conditional_t<std::is_lvalue_reference_v<T>,
                             std::reference_wrapper<std::remove_reference_t<T>>,
                                                    std::remove_reference_t<T>>;
 
-template<typename UnderlyingView>
+// Views that keep iterators into the view that they transform need those iterators to
+// remain valid when they are moved. A reference remains valid anyway, but a view that is
+// stored as a value member would leave its iterators behind (e.g., if it is itself a delayed
+// view, or a small-size optimized sequence), so it is stored at an address of its own.
+template<typename T>
+struct stable_address_view {
+  explicit stable_address_view(T&& v) : view(std::make_unique<T>(std::move(v))) { }
+  stable_address_view(const stable_address_view& other) : view(std::make_unique<T>(*(other.view))) { }
+  stable_address_view(stable_address_view&&) noexcept = default;
+  stable_address_view& operator=(stable_address_view other) noexcept { view.swap(other.view); return *this; }
+  ~stable_address_view() = default;
+
+  operator T&() { return *view; }               // NOLINT: Intentionally implicit
+  operator const T&() const { return *view; }   // NOLINT: Intentionally implicit
+
+ private:
+  std::unique_ptr<T> view;
+};
+
+// Same as view_storage_type, but moving the view does not invalidate iterators into it
+template<typename T>
+using stable_view_storage_type = std::conditional_t<std::is_lvalue_reference_v<T>,
+                                   view_storage_type<T>,
+                                   stable_address_view<std::remove_reference_t<T>>>;
+
+template<typename UnderlyingView, bool StableIterators>
 struct block_iterable_view_base_data {
   explicit block_iterable_view_base_data(UnderlyingView&& v) : view_m(static_cast<UnderlyingView&&>(v)) { }
 
   UnderlyingView& base_view() { return view_m; }
   const UnderlyingView& base_view() const { return view_m; }
 
+  // Swap the underlying views themselves. If they are references, swaps what
+  // the views refer to, but never the contents of the referenced ranges
+  void swap_base_view(block_iterable_view_base_data& other) {
+    using std::swap;
+    swap(view_m, other.view_m);
+  }
+
  private:
-  view_storage_type<UnderlyingView> view_m;
+  std::conditional_t<StableIterators,
+    stable_view_storage_type<UnderlyingView>,
+    view_storage_type<UnderlyingView>> view_m;
 };
 
 template<>
-struct block_iterable_view_base_data<void> { };
+struct block_iterable_view_base_data<void, false> { };
 
 // This base class helps to implement block-iterable delayed views.
 //
@@ -183,8 +218,10 @@ struct block_iterable_view_base_data<void> { };
 // Template arguments:
 //  UnderlyingView: the type of the underlying view that is being transformed
 //  Parent: the type of the parent view class (CRTP)
-template<typename UnderlyingView, typename Parent>
-struct block_iterable_view_base : public block_iterable_view_base_data<UnderlyingView> {
+//  StableIterators: true if iterators into the underlying view must
+//                   remain valid when the parent view is moved
+template<typename UnderlyingView, typename Parent, bool StableIterators = false>
+struct block_iterable_view_base : public block_iterable_view_base_data<UnderlyingView, StableIterators> {
  public:
 
   // Returns an interator pointing to the end of block i
@@ -213,7 +250,7 @@ struct block_iterable_view_base : public block_iterable_view_base_data<Underlyin
 
   template<typename UV>
   explicit block_iterable_view_base(UV&& v, int)
-    : block_iterable_view_base_data<UnderlyingView>(std::forward<UV>(v)) { }
+    : block_iterable_view_base_data<UnderlyingView, StableIterators>(std::forward<UV>(v)) { }
 
  private:
   Parent* parent() { return static_cast<Parent*>(this); }
diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..b5079bd 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -22,10 +22,10 @@ namespace delayed {
 
 template<typename UnderlyingView, typename UnaryPredicate>
 struct block_delayed_filter_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>, true> {
 
  private:
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_filter_t<UnderlyingView, UnaryPredicate>, true>;
   using base::base_view;
 
   static_assert(is_block_iterable_range_v<UnderlyingView>);
@@ -55,7 +55,7 @@ struct block_delayed_filter_t :
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_base_view(second);
     swap(first.result, second.result);
     swap(first.p, second.p);
   }
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 78850a7..f3062c0 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -28,14 +28,14 @@ namespace delayed {
 
 template<typename UnderlyingView>
 struct block_delayed_flatten_t :
-    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>> {
+    public block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>, true> {
 
  private:
   static_assert(is_block_iterable_range_v<UnderlyingView>);
   static_assert(is_forward_range_v<range_reference_type_t<UnderlyingView>>);
   static_assert(std::is_reference_v<range_reference_type_t<UnderlyingView>>);
 
-  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>>;
+  using base = block_iterable_view_base<UnderlyingView, block_delayed_flatten_t<UnderlyingView>, true>;
   using base::base_view;
 
   using outer_iterator_type = range_iterator_type_t<UnderlyingView>;
@@ -65,7 +65,7 @@ struct block_delayed_flatten_t :
 
   friend void swap(block_delayed_flatten_t& first, block_delayed_flatten_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    first.swap_base_view(second);
     swap(first.n_blocks, second.n_blocks);
     swap(first.n_elements, second.n_elements);
     swap(first.outer_starts, second.outer_starts);
-- 
2.43.0


From ed60d49280bbadd6519e88a6db20a3ba5f01ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 17/32] fix: delayed flatten of temporaries referred to the
 copied or moved-from view

---
 include/parlay/internal/delayed/flatten.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index f3062c0..82134b1 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -240,14 +240,14 @@ struct block_delayed_flatten_t :
 // algorithms because they keeps references into the ranges, which will dangle.
 //
 // This version of flatten therefore just eagerly copies the sequence and
-// then wraps it around the reference version of flatten.
+// then hands it over to the reference version of flatten.
 template<typename UnderlyingView>
 struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>> {
  private:
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -258,7 +258,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
@@ -276,7 +276,6 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
   flattener_type result;
 };
 
-- 
2.43.0


From af7b451e9ee233b5cf01e113397e875ea4089148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 18/32] fix: adjacent_find of an empty range read outside the
 range

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index c406c71..4229a1a 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From 385ed9a797f43a3dd45b1f897c1c534ebc30d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 19/32] fix: find_end with a pattern longer than the range read
 outside the range

---
 include/parlay/primitives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 4229a1a..cb0f11f 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -703,6 +703,9 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
   if (n2 == 0) return std::end(r1);
 
+  // A pattern that is longer than the range does not occur in it
+  if (n2 > n1) return std::end(r1);
+
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
     for (j = 0; j < n2; j++)
-- 
2.43.0


From b52304629800197fa19b10bcad869fd85a97b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 20/32] fix: find_first_of passed the arguments of its
 predicate in the wrong order

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index cb0f11f..c6352aa 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -614,7 +614,7 @@ auto find_first_of(R1&& r1, R2&& r2, BinaryPredicate&& p) {
   static_assert(is_random_access_range_v<R2>);
   static_assert(std::is_invocable_r_v<bool, BinaryPredicate, range_reference_type_t<R1>, range_reference_type_t<R2>>);
   return std::begin(r1) + internal::find_if_index(parlay::size(r1), [&, it = std::begin(r1)] (size_t i) {
-    return find_if(r2, [&, it](auto&& x) { return p(std::forward<decltype(x)>(x), it[i]); }) != std::end(r2);
+    return find_if(r2, [&, it](auto&& x) { return p(it[i], std::forward<decltype(x)>(x)); }) != std::end(r2);
   });
 }
 
-- 
2.43.0


From 77b6a55d3a252701ef2912cb6e09f9c8520308d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 21/32] fix: operator< of sequences of at most 1000 elements
 required and used equality

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index c6352aa..b2a3567 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -774,7 +774,7 @@ inline bool operator<(const sequence<T,Alloc,EnableSSO> &a, const sequence<T,All
   auto sa = a.begin();
   auto sb = b.begin();
   auto ea = sa + (std::min)(a.size(),b.size());
-  while (sa < ea && *sa == *sb) {sa++; sb++;}
+  while (sa < ea && !(*sa < *sb) && !(*sb < *sa)) {sa++; sb++;}
   return sa == ea ? (a.size() < b.size()) : *sa < *sb;
 }
 
-- 
2.43.0


From fa2452b0a3be3d96e7a951cb6be502b621fddac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 22/32] fix: sequence push_back, emplace, insert, append and
 resize misread an argument that refers into the sequence

---
 include/parlay/sequence.h | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..562bb35 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -232,6 +232,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (p == end()) {
       return emplace_back(std::forward<Args>(args)...);
     } else {
+      // args might refer to elements of this sequence,
+      // so they must be used before those are moved
+      value_type v(std::forward<Args>(args)...);
+
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
@@ -242,7 +246,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -250,6 +254,15 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
+    if constexpr (std::is_move_constructible_v<value_type>) {
+      if (size() == capacity()) {
+        // args might refer to elements of this sequence, so they
+        // must be used before the current buffer is released
+        value_type v(std::forward<Args>(args)...);
+        storage.ensure_capacity(size() + 1);
+        return emplace_back(std::move(v));
+      }
+    }
     storage.ensure_capacity(size() + 1);
     storage.initialize(end(), std::forward<Args>(args)...);
     storage.set_size(size() + 1);
@@ -373,12 +386,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
     } else {
-      storage.ensure_capacity(new_size);
-      assert(storage.capacity() >= new_size);
-      auto buffer = storage.data();
-      parallel_for(
-          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
-          copy_granularity(new_size - current));
+      append_n(new_size - current, v);
     }
     storage.set_size(new_size);
   }
@@ -588,7 +596,13 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (capacity() < size() + n) {
+      // t might be an element of this sequence, so it must
+      // be copied before the current buffer is released
+      value_type v(t);
+      storage.ensure_capacity(size() + n);
+      return append_n(n, v);
+    }
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -630,6 +644,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator insert_n(iterator p, size_t n, const value_type& v) {
+    // v might be an element of this sequence, so
+    // it must be copied before those are moved
+    value_type value(v);
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
@@ -640,7 +658,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     // append since we ensured that there was sufficient capacity already,
     // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    auto it = append_n(n, value);
     append(std::move(the_tail));
     return it;
   }
-- 
2.43.0


From b765707d235eec5aa56e4e50b7ccbb0d03a28e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 23/32] fix: sequence insert of no copies at the front returned
 an iterator into a released buffer

---
 include/parlay/sequence.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 562bb35..0b8e47e 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -654,13 +654,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
+    // Note that an iterator obtained now would not remain valid if n = 0, since
+    // appending to an empty sequence might replace the buffer of this sequence
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, value);
+    append_n(n, value);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;
   }
 
   template<typename Iterator_>
-- 
2.43.0


From 07a11599f074d846c4025fa142b249ca10ce1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 24/32] fix: comparing sequences of elements larger than 8192
 bytes never ended

---
 include/parlay/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 0b8e47e..7666f62 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -679,7 +679,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = 1 + (1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From da2ec5765d3f50cf32e7f2d926225a7d25ab7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 25/32] fix: relocating trivially relocatable objects larger
 than 8192 bytes divided by zero

---
 include/parlay/relocation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..f2da385 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,7 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    constexpr size_t chunk_size = (std::max)(size_t{1}, 1024 * sizeof(size_t) / sizeof(T));
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
-- 
2.43.0


From 39f764b8e568aef2609bcb63a8fab04e066e817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 26/32] fix: relocating into a range of another type
 constructed objects of the source type

---
 include/parlay/relocation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index f2da385..e55d082 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -67,7 +67,7 @@ inline void relocate_or_move_and_destroy(T& source, U& dest) {
   }
   else {
     PARLAY_ASSERT_UNINITIALIZED(dest);
-    ::new (voidify(dest)) T(std::move(source));
+    ::new (voidify(dest)) U(std::move(source));
     std::destroy_at(std::addressof(source));
     PARLAY_ASSERT_UNINITIALIZED(source);
   }
-- 
2.43.0


From fcb78d05b73ef0855c2c49a5c712b9b794b48b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 27/32] fix: growing a sequence whose allocator defines
 construct did not compile

---
 include/parlay/internal/sequence_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1f85a47..bec8dac 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -567,8 +567,8 @@ struct alignas(uint64_t) sequence_base {
         }
         else {
           parallel_for(0, n, [&](size_t i){
-            std::allocator_traits<T_allocator_type>::construct(alloc, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
-            std::allocator_traits<T_allocator_type>::destroy(alloc, std::addressof(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::construct(get_T_allocator(), std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::destroy(get_T_allocator(), std::addressof(current_buffer[i]));
           });
         }
 
-- 
2.43.0


From 0745a6b3eb92ba2cce0e438fe6174a53ecc647d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 28/32] fix: chars_from_file of an interval that ends before it
 starts asked for a negative length

---
 include/parlay/io.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 82443d1..f9e42a9 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -41,6 +41,7 @@ inline chars chars_from_file(const std::string& filename,
   start = (std::min)(start,length);
   if (end == 0) end = length;
   else end = (std::min)(end,length);
+  end = (std::max)(start,end);
   std::streamsize n = end - start;
   file.seekg (start, std::ios::beg);
   auto chars = chars::uninitialized(static_cast<size_t>(n) + null_terminate);
-- 
2.43.0


From b308a62e41072aa26fc01cfdd51566a46f631551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 29/32] fix: mapping an empty file failed

---
 include/parlay/internal/posix/file_map_impl_posix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/posix/file_map_impl_posix.h b/include/parlay/internal/posix/file_map_impl_posix.h
index a6c15e5..26c030c 100644
--- a/include/parlay/internal/posix/file_map_impl_posix.h
+++ b/include/parlay/internal/posix/file_map_impl_posix.h
@@ -47,8 +47,12 @@ class file_map {
       assert(fstat_res != -1);
       assert(S_ISREG(sb.st_mode));
     
-      char *p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
-      assert(p != MAP_FAILED);
+      // A mapping can not have length zero, so an empty file is not mapped
+      char *p = nullptr;
+      if (sb.st_size > 0) {
+        p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
+        assert(p != MAP_FAILED);
+      }
       [[maybe_unused]] int close_p = ::close(fd);
       assert(close_p != -1);
       
-- 
2.43.0


From c7950217f65683329061476346de198250cc4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 30/32] fix: blocked_for with huge block sizes, parallel_for
 over [SIZE_MAX, 0)

---
 include/parlay/internal/scheduler_plugins/omp.h | 2 +-
 include/parlay/parallel.h                       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/scheduler_plugins/omp.h b/include/parlay/internal/scheduler_plugins/omp.h
index 21a58d1..5b48815 100644
--- a/include/parlay/internal/scheduler_plugins/omp.h
+++ b/include/parlay/internal/scheduler_plugins/omp.h
@@ -33,7 +33,7 @@ template <typename F>
 inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool) {
   static_assert(std::is_invocable_v<F&, size_t>);
 
-  if (end == start + 1) {
+  if (start < end && end - start == 1) {
     f(start);
   }
   else if ((end - start) <= static_cast<size_t>(granularity)) {
diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..fee4031 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -66,10 +66,10 @@ inline void blocked_for(size_t start, size_t end, size_t block_size, F&& f, bool
   static_assert(std::is_invocable_v<F&, size_t, size_t, size_t>);
   assert(block_size > 0);
   if (start < end) {
-    size_t n_blocks = (end - start + block_size - 1) / block_size;
+    size_t n_blocks = (end - start - 1) / block_size + 1;
     parallel_for(0, n_blocks, [&](size_t i) {
       size_t s = start + i * block_size;
-      size_t e = (std::min)(s + block_size, end);
+      size_t e = s + (std::min)(block_size, end - s);
       f(i, s, e);
     }, 0, conservative);
   }
@@ -192,7 +192,7 @@ template <typename F>
 inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool conservative) {
   static_assert(std::is_invocable_v<F&, size_t>);
 
-  if (start + 1 == end) {
+  if (start < end && end - start == 1) {
     f(start);
   }
   else if ((end - start) <= static_cast<size_t>(granularity)) {
-- 
2.43.0


From 9d58f3b3a34eb1c60a68af183538aa0639559250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 31/32] fix: forks nested deeper than a worker's queue run in
 sequence instead of aborting

---
 include/parlay/internal/work_stealing_deque.h |  6 ++++++
 include/parlay/scheduler.h                    | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/parlay/internal/work_stealing_deque.h b/include/parlay/internal/work_stealing_deque.h
index 9282c6c..14099b6 100644
--- a/include/parlay/internal/work_stealing_deque.h
+++ b/include/parlay/internal/work_stealing_deque.h
@@ -45,6 +45,12 @@ struct Deque {
 
   Deque() : bot(0), age(age_t{0, 0}) {}
 
+  // Returns true if there is no room for another job at the
+  // bottom of the queue. Only the owning thread can use this.
+  bool full() const {
+    return bot.load(std::memory_order_relaxed) + 1 >= q_size;
+  }
+
   // Adds a new job to the bottom of the queue. Only the owning
   // thread can push new items. This must not be called by any
   // other thread.
diff --git a/include/parlay/scheduler.h b/include/parlay/scheduler.h
index 11cbd59..55d19b6 100644
--- a/include/parlay/scheduler.h
+++ b/include/parlay/scheduler.h
@@ -128,6 +128,11 @@ struct scheduler {
     worker_info = std::move(parent_worker_info);
   }
 
+  // Returns true if there is room for another job on the local stack.
+  bool can_spawn() {
+    return !deques[worker_id()].full();
+  }
+
   // Push onto local stack.
   void spawn(Job* job) {
     int id = worker_id();
@@ -336,6 +341,12 @@ class fork_join_scheduler {
   // Fork two thunks and wait until they both finish.
   template <typename L, typename R>
   static void pardo(scheduler_t& scheduler, L&& left, R&& right, bool conservative = false) {
+    // Forks that are nested too deeply to be queued run in sequence
+    if (!scheduler.can_spawn()) {
+      std::forward<L>(left)();
+      std::forward<R>(right)();
+      return;
+    }
     auto execute_right = [&]() { std::forward<R>(right)(); };
     auto right_job = make_job(right);
     scheduler.spawn(&right_job);
-- 
2.43.0


From 5fed73630f50b8eebf0a473b9cfa19e235d74866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 32/32] fix: align the buffers of sequences of over-aligned
 types

---
 include/parlay/internal/sequence_base.h | 30 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index bec8dac..c8cd38b 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -281,14 +281,26 @@ struct alignas(uint64_t) sequence_base {
 
         static header* create(size_t capacity, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
-          std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
-          return new (bytes) header(capacity);
+          if constexpr (alignof(header) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            unit_allocator_type unit_alloc(a);
+            aligned_unit* units = std::allocator_traits<unit_allocator_type>::allocate(unit_alloc, num_units(buffer_size));
+            return new (static_cast<void*>(units)) header(capacity);
+          } else {
+            std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
+            return new (bytes) header(capacity);
+          }
         }
 
         static void destroy(header* p, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);
-          std::byte* bytes = reinterpret_cast<std::byte*>(p);
-          std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          if constexpr (alignof(header) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            unit_allocator_type unit_alloc(a);
+            aligned_unit* units = reinterpret_cast<aligned_unit*>(p);
+            std::allocator_traits<unit_allocator_type>::deallocate(unit_alloc, units, num_units(buffer_size));
+          } else {
+            std::byte* bytes = reinterpret_cast<std::byte*>(p);
+            std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          }
         }
 
         explicit header(size_t _capacity) : capacity(_capacity) {}
@@ -298,6 +310,16 @@ struct alignas(uint64_t) sequence_base {
         const value_type* get_data() const { return reinterpret_cast<const value_type*>(std::addressof(data)); }
       };
 
+      // An allocator of bytes does not have to align its memory for an over-aligned
+      // value_type, so the buffers of such types are allocated in aligned units
+      struct alignas(header) aligned_unit {
+        std::byte bytes[alignof(header)];
+      };
+
+      using unit_allocator_type = typename std::allocator_traits<raw_allocator_type>::template rebind_alloc<aligned_unit>;
+
+      static constexpr size_t num_units(size_t bytes) { return (bytes + sizeof(aligned_unit) - 1) / sizeof(aligned_unit); }
+
       // Construct a capacitated buffer with the capacity to hold the given
       // number of objects of type value_type, using the given allocator
       capacitated_buffer(size_t capacity, raw_allocator_type& a) : buffer(header::create(capacity, a)) {
-- 
2.43.0


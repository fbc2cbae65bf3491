From f19777979be1b53233195704e0d3edcaa584d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 01/17] fix: agree on the reserved tick when measuring elapsed
 Cycles32 time

A Cycles32 updated at tick 0 (which recurs at every 32-bit wrap) records 1,
but AsDuration() did not map the current tick the same way, so during that
tick the elapsed time came out as 2^32 - 1 ticks instead of 0.
---
 tcmalloc/internal/clock.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tcmalloc/internal/clock.h b/tcmalloc/internal/clock.h
index bf3dffb..9127a55 100644
--- a/tcmalloc/internal/clock.h
+++ b/tcmalloc/internal/clock.h
@@ -61,9 +61,7 @@ class Cycles32 {
 
   // Updates the timestamp using clock.now() >> kShift.
   void Update(Clock clock = Clock{}) {
-    uint32_t now_32 = static_cast<uint32_t>(clock.now() >> kShift);
-    if (now_32 == 0) now_32 = 1;  // Reserve 0 as the uninitialized sentinel.
-    val_.store(now_32, std::memory_order_relaxed);
+    val_.store(ToTicks(clock.now()), std::memory_order_relaxed);
   }
 
   // Resets the timestamp to 0 (uninitialized sentinel).
@@ -79,7 +77,7 @@ class Cycles32 {
   absl::Duration AsDuration(Clock::Snapshot snap) const {
     const uint32_t last = val_.load(std::memory_order_relaxed);
     if (last == 0) return absl::InfiniteDuration();
-    const uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    const uint32_t now_32 = ToTicks(snap.now);
     // Unsigned 32-bit modular subtraction across wraparound is safe.
     const uint32_t elapsed_ticks = now_32 - last;
     const double elapsed_cycles =
@@ -101,6 +99,14 @@ class Cycles32 {
   uint32_t raw() const { return val_.load(std::memory_order_relaxed); }
 
  private:
+  // Converts a clock reading to ticks.  0 is reserved as the uninitialized
+  // sentinel; recording and measuring must agree on that, or the time elapsed
+  // since a timestamp taken at tick 0 would come out as a whole epoch.
+  static uint32_t ToTicks(int64_t now) {
+    const uint32_t ticks = static_cast<uint32_t>(now >> kShift);
+    return ticks == 0 ? 1 : ticks;
+  }
+
   static bool TimeAfterOrEqual(uint32_t a, uint32_t b) {
     return static_cast<int32_t>(a - b) >= 0;
   }
-- 
2.43.0


From a9015ef2b9a7f72f70e14a1f1befb7bfceee6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 02/17] fix: fail pvalloc requests whose page rounding
 overflows

pvalloc(SIZE_MAX) rounded the request up to zero and returned a block of
the smallest size instead of reporting that memory is exhausted.
---
 tcmalloc/tcmalloc.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..30e9471 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1859,6 +1859,10 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalPvalloc(
   if (size == 0) {     // pvalloc(0) should allocate one page, according to
     size = page_size;  // http://man.free4web.biz/man3/libmpatrol.3.html
   }
+  if (ABSL_PREDICT_FALSE(size > std::numeric_limits<size_t>::max() -
+                                    (page_size - 1))) {
+    return MallocPolicy::handle_oom(size);
+  }
   size = (size + page_size - 1) & ~(page_size - 1);
   return fast_alloc(size, MallocPolicy().AlignAs(page_size));
 }
@@ -2175,6 +2179,10 @@ ABSL_CACHELINE_ALIGNED void* operator new[](size_t size, std::align_val_t align,
     if (size == 0) {                                                           \
       size = page_size;                                                        \
     }                                                                          \
+    if (ABSL_PREDICT_FALSE(size > std::numeric_limits<size_t>::max() -         \
+                                      (page_size - 1))) {                      \
+      return MallocPolicy::handle_oom(size);                                   \
+    }                                                                          \
     size = (size + page_size - 1) & ~(page_size - 1);                          \
     return fast_alloc(                                                         \
         size,                                                                  \
-- 
2.43.0


From e0af48eece5f8c33de34470d9125f619bd06ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 03/17] fix: refuse alignments above a huge page instead of
 aborting

Requests such as aligned_alloc(4 << 20, n) crashed the process in a TC_CHECK;
report them as failed allocations.
---
 tcmalloc/huge_page_aware_allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/huge_page_aware_allocator.h b/tcmalloc/huge_page_aware_allocator.h
index 3954ac8..59d63eb 100644
--- a/tcmalloc/huge_page_aware_allocator.h
+++ b/tcmalloc/huge_page_aware_allocator.h
@@ -776,7 +776,9 @@ inline Span* HugePageAwareAllocator<Forwarder>::NewAligned(
   }
 
   // we can do better than this, but...
-  TC_CHECK_LE(align, kPagesPerHugePage);
+  if (ABSL_PREDICT_FALSE(align > kPagesPerHugePage)) {
+    return nullptr;
+  }
   bool from_released;
   FinalizeType f;
   {
-- 
2.43.0


From bccf7a682d66759e0714d0e26c78b25e62d11d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 04/17] fix: nallocx reports a page for an empty over-aligned
 request

---
 tcmalloc/tcmalloc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 30e9471..1dfd3b3 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -388,7 +388,8 @@ static ABSL_ATTRIBUTE_NOINLINE size_t nallocx_slow(size_t size, int flags) {
     TC_ASSERT_NE(size_class, 0);
     return tc_globals.sizemap().class_to_size(size_class);
   } else {
-    return BytesToLengthCeil(size).in_bytes();
+    // Even an empty request occupies a page here (see do_malloc_pages).
+    return std::max(BytesToLengthCeil(size), Length(1)).in_bytes();
   }
 }
 
-- 
2.43.0


From 2953164f50df2f4e93beaa5bbb7f40796ac8f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 05/17] fix: do not abort a release when the madvise probe
 cannot map memory

---
 tcmalloc/internal/system_allocator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/system_allocator.cc b/tcmalloc/internal/system_allocator.cc
index 2270c9c..daefd2e 100644
--- a/tcmalloc/internal/system_allocator.cc
+++ b/tcmalloc/internal/system_allocator.cc
@@ -105,7 +105,11 @@ int MadvDontNeedAdviceAvailable() {
     const size_t page_size = GetPageSize();
     void* ptr =
         mmap(nullptr, page_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
-    TC_CHECK_NE(ptr, MAP_FAILED, "Unable to mmap test allocation.");
+    if (ptr == MAP_FAILED) {
+      // We may be releasing memory precisely because none can be mapped.
+      advice = MADV_DONTNEED;
+      return;
+    }
     int ret = madvise(ptr, page_size, MADV_DONTNEED_LOCKED);
     advice = (ret == 0) ? MADV_DONTNEED_LOCKED : MADV_DONTNEED;
     munmap(ptr, page_size);
-- 
2.43.0


From 0101b348d2c1425fa2215cad5356f6fcc20ab179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 06/17] fix: move running threads off the fast path when a hook
 is installed

MallocHook_HooksChanged only uncached the calling thread's slab, so threads
running on other CPUs kept allocating and freeing without invoking the hook
until they were preempted.
---
 tcmalloc/tcmalloc.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 1dfd3b3..b9de2de 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -604,8 +604,9 @@ ABSL_ATTRIBUTE_NOINLINE static void FreeSmallSlow(void* ptr,
       ABSL_PREDICT_FALSE(!UsePerCpuCache(tc_globals))) {
     return FreeWithHooksOrPerThread(ptr, size, size_class);
   }
-  TCMALLOC_ALWAYS_INLINE_CALL tc_globals.cpu_cache().DeallocateSlowNoHooks(
-      ptr, size_class);
+  // Hooks may have been installed after the check above, so do not leave a
+  // slab cached without looking again.
+  tc_globals.cpu_cache().DeallocateSlow(ptr, size_class);
 }
 
 static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void FreeSmall(
@@ -1244,9 +1245,9 @@ ABSL_ATTRIBUTE_NOINLINE static
                                                   weight);
   }
 
-  void* res;
-  TCMALLOC_ALWAYS_INLINE_CALL res =
-      tc_globals.cpu_cache().AllocateSlowNoHooks(size_class);
+  // Hooks may have been installed after the check above, so do not leave a
+  // slab cached without looking again.
+  void* res = tc_globals.cpu_cache().AllocateSlow(size_class);
   if (ABSL_PREDICT_FALSE(res == nullptr)) return policy.handle_oom(size);
   return Policy::to_pointer(res, size_class);
 }
@@ -1315,6 +1316,12 @@ static inline Pointer ABSL_ATTRIBUTE_ALWAYS_INLINE fast_alloc(size_t size,
 extern "C" void MallocHook_HooksChanged() {
   // A hook has been added, so we need to move off of the fast path.
   tc_globals.cpu_cache().MaybeForceSlowPath();
+  // Threads running on other CPUs may have their slab cached, too.
+  if (tcmalloc::tcmalloc_internal::Static::HaveHooks() &&
+      tc_globals.CpuCacheActive() &&
+      tcmalloc::tcmalloc_internal::subtle::percpu::IsFast()) {
+    tcmalloc::tcmalloc_internal::subtle::percpu::FenceAllCpus();
+  }
 }
 
 using tcmalloc::tcmalloc_internal::GetOwnership;
-- 
2.43.0


From cdc0065f294d0be397e9ca9dc357d5bd0460b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 07/17] fix: report the true standard deviation of lifetimes

Welford's update multiplies the distances of the new value from the old and
from the new mean; the code used the step of the mean instead, which divides
every term by the number of values seen so far.
---
 tcmalloc/deallocation_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/deallocation_profiler.cc b/tcmalloc/deallocation_profiler.cc
index 97e3210..7754820 100644
--- a/tcmalloc/deallocation_profiler.cc
+++ b/tcmalloc/deallocation_profiler.cc
@@ -679,7 +679,7 @@ void DeallocationProfiler::DeallocationStackTraceTable::AddTrace(
       (life_time_ns - old_mean_ns) / static_cast<double>(v.counts[index] + 1);
   v.variance_life_times_ns[index] +=
       (life_time_ns - v.mean_life_times_ns[index]) *
-      (v.mean_life_times_ns[index] - old_mean_ns);
+      (life_time_ns - old_mean_ns);
 
   v.min_life_times_ns[index] =
       std::min(v.min_life_times_ns[index], life_time_ns);
-- 
2.43.0


From 5a2a208b47926b6dae39407c763c36cd177bc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 08/17] fix: do not report freed spans as allocated address
 ranges

A freed span's later pages keep their stale page map entries, and the freed
Span object keeps its fields until it is reused, so enumeration reported such
spans as live (or hit the assertion just below).
---
 tcmalloc/pagemap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index b895839..b241e78 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -429,8 +429,10 @@ class PageMap {
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
-      // Free'd up Span that's not yet removed from PageMap.
-      if (page_id < s->first_page() || s->last_page() < page_id) continue;
+      // Free'd up Span that's not yet removed from PageMap.  Only the entry of
+      // a Span's first page is reset when it is freed, so any other page that
+      // we get to (we skip over the pages of live Spans) is a stale entry.
+      if (page_id != s->first_page()) continue;
       CompactSizeClass size_class = sizeclass(page_id);
       TC_ASSERT_EQ(s->first_page().index(), i);
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
-- 
2.43.0


From 5ea2f0b3bb0cabc802cf87a19cfba0998703f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 09/17] fix: advance time series whose epoch is a power of two
 ticks

The reciprocal of a power of two does not fit in 64 bits at the chosen
precision, so the epoch number of such a tracker was always zero and it never
moved on to a new epoch.
---
 tcmalloc/internal/timeseries_tracker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/timeseries_tracker.h b/tcmalloc/internal/timeseries_tracker.h
index fb30c11..b2ca177 100644
--- a/tcmalloc/internal/timeseries_tracker.h
+++ b/tcmalloc/internal/timeseries_tracker.h
@@ -56,7 +56,8 @@ class TimeSeriesTracker {
     // See comment in GetCurrentEpoch().
     auto d = static_cast<uint64_t>(absl::ToDoubleSeconds(epoch_length_) *
                                    clock.freq());
-    div_precision_ = 63 + absl::bit_width(d);
+    // Using d - 1 keeps epoch_ticks_m_ within 64 bits when d is a power of two.
+    div_precision_ = 63 + absl::bit_width(d - 1);
     epoch_ticks_m_ =
         static_cast<uint64_t>(
             (static_cast<absl::uint128>(1) << div_precision_) / d) +
-- 
2.43.0


From 67d202bd3604b0a995f1f94dc236bbfdc9b49777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 10/17] fix: count a stack trace before publishing it for decay

DecayingStackTraceFilter::Add put the trace into the ring buffer before adding
to its counters.  Another thread that wrapped around the ring in between
subtracted the decay count first, so that Contains() reported a trace as absent
whose additions and removals summed to a non-zero value all along.
---
 tcmalloc/internal/stacktrace_filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/stacktrace_filter.h b/tcmalloc/internal/stacktrace_filter.h
index 9667640..07599e4 100644
--- a/tcmalloc/internal/stacktrace_filter.h
+++ b/tcmalloc/internal/stacktrace_filter.h
@@ -116,10 +116,12 @@ class DecayingStackTraceFilter : public StackTraceFilter<kSize, kHashNum> {
   void Add(absl::Span<void* const> stack_trace, int val) {
     const size_t stack_hash = this->GetFirstHash(stack_trace);
     if (val >= 0) {
-      Decay(stack_hash);
       // Because 0-valued entries denote unused entries, add 1 to be decayed if
-      // this is a non-zero hash (very likely).
+      // this is a non-zero hash (very likely).  This has to happen before the
+      // entry is published in the ring buffer: a concurrent decay of it would
+      // otherwise cancel a count that belongs to an earlier addition.
       Base::Add(stack_hash, val + !!stack_hash);
+      Decay(stack_hash);
     } else {
       // Removal.
       Base::Add(stack_hash, val);
-- 
2.43.0


From 94d1e16f706ef2b211fb6686960a6abb9555635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 11/17] fix: keep the free-object count of a central free list
 above zero

---
 tcmalloc/central_freelist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/central_freelist.h b/tcmalloc/central_freelist.h
index e778338..7faa40f 100644
--- a/tcmalloc/central_freelist.h
+++ b/tcmalloc/central_freelist.h
@@ -664,8 +664,10 @@ inline void CentralFreeList<Forwarder>::InsertRange(absl::Span<void*> batch) {
       i += step;
     }
 
-    RecordMultiSpansDeallocated(free_count);
+    // Add before subtracting: length() is read without the lock and the count
+    // must not be seen below zero.
     UpdateObjectCounts(batch.size());
+    RecordMultiSpansDeallocated(free_count);
   }
 
   // Then, release all free spans into page heap under its mutex.
-- 
2.43.0


From ee56bcd1be109badc65c322b98224211b7528071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 12/17] fix: reject malformed CPU lists (reversed, unterminated
 and doubled ranges)

---
 tcmalloc/internal/sysinfo.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/sysinfo.cc b/tcmalloc/internal/sysinfo.cc
index 50252e8..b4a1ff2 100644
--- a/tcmalloc/internal/sysinfo.cc
+++ b/tcmalloc/internal/sysinfo.cc
@@ -70,7 +70,8 @@ std::optional<CpuSet> ParseCpulist(
     const size_t dash = current.find('-');
     const size_t comma = current.find(',');
     if (dash != absl::string_view::npos && dash < comma) {
-      if (!absl::SimpleAtoi(current.substr(0, dash), &cpu_from) ||
+      if (cpu_from != -1 ||
+          !absl::SimpleAtoi(current.substr(0, dash), &cpu_from) ||
           !IsInBounds(cpu_from)) {
         return std::nullopt;
       }
@@ -87,6 +88,9 @@ std::optional<CpuSet> ParseCpulist(
         consumed = comma + 1;
       }
       if (cpu_from != -1) {
+        if (cpu < cpu_from) {
+          return std::nullopt;
+        }
         for (int c = cpu_from; c <= cpu; c++) {
           set.Set(c);
         }
@@ -102,6 +106,11 @@ std::optional<CpuSet> ParseCpulist(
     memmove(buf.data(), buf.data() + consumed, carry_over);
   }
 
+  // The input ended in the middle of a range.
+  if (cpu_from != -1) {
+    return std::nullopt;
+  }
+
   return set;
 }
 
-- 
2.43.0


From cd96e03d9b81afa18b6cfe06ca2f86a9fc9d3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 13/17] fix: record NUMA nodes 31 and above in the partition's
 node mask correctly

---
 tcmalloc/internal/numa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/internal/numa.cc b/tcmalloc/internal/numa.cc
index c9d69d0..4d7804d 100644
--- a/tcmalloc/internal/numa.cc
+++ b/tcmalloc/internal/numa.cc
@@ -126,7 +126,7 @@ bool InitNumaTopology(size_t cpu_to_scaled_partition[kMaxCpus],
 
     // Record this node in partition_to_nodes.
     const size_t partition = NodeToPartition(node, num_partitions);
-    partition_to_nodes[partition] |= 1 << node;
+    partition_to_nodes[partition] |= uint64_t{1} << node;
 
     // cpu_to_scaled_partition_ entries are default initialized to zero, so
     // skip redundantly parsing CPU lists for nodes that map to partition 0.
-- 
2.43.0


From 1f2b90e8fd5029affe3e752200cc1d4404f6175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 14/17] fix: do not parse part of a /proc/self/maps line as a
 mapping when a read fails

---
 tcmalloc/internal/proc_maps.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tcmalloc/internal/proc_maps.cc b/tcmalloc/internal/proc_maps.cc
index d2fffd0..0f18d50 100644
--- a/tcmalloc/internal/proc_maps.cc
+++ b/tcmalloc/internal/proc_maps.cc
@@ -96,13 +96,25 @@ bool ProcMapsIterator::NextExt(uint64_t* start, uint64_t* end, char** flags,
           break;
       }
 
-      // Zero out remaining characters in buffer at EOF to avoid returning
-      // garbage from subsequent calls.
-      if (etext_ != ebuf_ && nread == 0) {
-        memset(etext_, 0, ebuf_ - etext_);
+      if (nread < 0) {
+        // The text stops at an arbitrary point: only complete lines can be
+        // parsed.  Keep an incomplete one for the next call to continue.
+        nextline_ =
+            static_cast<char*>(memchr(stext_, '\n', etext_ - stext_));
+        if (!nextline_) {
+          nextline_ = stext_;
+          return false;
+        }
+      } else {
+        // Zero out remaining characters in buffer at EOF to avoid returning
+        // garbage from subsequent calls.
+        if (etext_ != ebuf_ && nread == 0) {
+          memset(etext_, 0, ebuf_ - etext_);
+        }
+        *etext_ = '\n';  // sentinel; safe because ibuf extends 1 char beyond ebuf
+        nextline_ =
+            static_cast<char*>(memchr(stext_, '\n', etext_ + 1 - stext_));
       }
-      *etext_ = '\n';  // sentinel; safe because ibuf extends 1 char beyond ebuf
-      nextline_ = static_cast<char*>(memchr(stext_, '\n', etext_ + 1 - stext_));
     }
     *nextline_ = 0;                               // turn newline into nul
     nextline_ += ((nextline_ < etext_) ? 1 : 0);  // skip nul if not end of text
-- 
2.43.0


From 7bcd229de1f88eff510dc4cd02105ad093c1b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 15/17] fix: report a failing seek as unavailable in
 PageFlags::IsHugepageBacked

---
 tcmalloc/internal/pageflags.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/pageflags.cc b/tcmalloc/internal/pageflags.cc
index e342749..31b6f6d 100644
--- a/tcmalloc/internal/pageflags.cc
+++ b/tcmalloc/internal/pageflags.cc
@@ -210,7 +210,9 @@ std::optional<bool> PageFlags::IsHugepageBacked(const void* const addr) {
   // corresponding to the span [addr, addr+size).
   uintptr_t basePage = uaddr & ~(kHardwarePageSize - 1);
   // Seek into fd.
-  if (auto res = Seek(basePage); res != absl::StatusCode::kOk) return false;
+  if (auto res = Seek(basePage); res != absl::StatusCode::kOk) {
+    return std::nullopt;
+  }
   // Read entry
   static_assert(sizeof(flags) == kPagemapEntrySize);
   auto status = signal_safe_read(fd_, reinterpret_cast<char*>(&flags),
-- 
2.43.0


From 6901ece7a3ea844701f73a25448178d1cddb827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 16/17] fix: do not crash when a CPU is unpopulated while one
 of its threads grows a size class

CpuCache::Grow takes bytes out of the CPU's available capacity before it
extends the size class in the slab. If the background thread releases the
slab metadata of that CPU in between, available is temporarily smaller than
capacity and TryDrainingCaches crashed in TC_CHECK_EQ. The Grow can no longer
commit (the CPU was stopped) and returns what it took.
---
 tcmalloc/cpu_cache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/cpu_cache.h b/tcmalloc/cpu_cache.h
index e13c4dc..cd71ec8 100644
--- a/tcmalloc/cpu_cache.h
+++ b/tcmalloc/cpu_cache.h
@@ -1471,7 +1471,10 @@ inline void CpuCache<Forwarder>::TryDrainingCaches()
     freelist_.ReleaseSlabMetadataForDrainedCpus(
         [this](int cpu) { return HasPopulated(cpu); },
         [this](int cpu) {
-          TC_CHECK_EQ(
+          // A thread may be in Grow, with some of the available capacity already
+          // taken. It cannot commit it to the slab anymore (the CPU is stopped)
+          // and will return it.
+          TC_CHECK_LE(
               resize_[cpu].available, resize_[cpu].capacity,
               "CPU %u was not actually drained, or available is out of sync",
               cpu);
-- 
2.43.0


From e9a8443732708ae0038299cb5e7b9a9ebad461bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 17/17] fix: thread cache made before InitTSD is adopted by its
 thread

The first thread allocates before its TLS key exists; the cache made for that
was never found again afterwards: a second one was made, and the objects and
budget of the first were never used, drained or returned.
---
 tcmalloc/thread_cache.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tcmalloc/thread_cache.cc b/tcmalloc/thread_cache.cc
index f3fe430..c8d4cc6 100644
--- a/tcmalloc/thread_cache.cc
+++ b/tcmalloc/thread_cache.cc
@@ -260,6 +260,27 @@ void ThreadCache::InitTSD() {
   TC_ASSERT(!tsd_inited_);
   PerCpuState::state().Init();
   tsd_inited_ = true;
+
+  // If this thread has allocated already, it has a cache which was found by its
+  // tid so far.  Adopt it:  From now on, we look at our TLS only, so nobody
+  // would ever use, drain or delete it.
+  ThreadCache* heap = nullptr;
+  {
+    AllocationGuardSpinLockHolder l(threadcache_lock_);
+    const pthread_t me = pthread_self();
+    for (ThreadCache* h = thread_heaps_; h != nullptr; h = h->next_) {
+      if (pthread_equal(h->tid_, me) != 0) {
+        heap = h;
+        break;
+      }
+    }
+  }
+  if (heap != nullptr) {
+    heap->in_setspecific_ = true;
+    thread_local_data_ = heap;
+    PerCpuState::state().RegisterThreadCache(heap);
+    heap->in_setspecific_ = false;
+  }
 }
 
 ThreadCache* ThreadCache::CreateCacheIfNecessary() {
-- 
2.43.0


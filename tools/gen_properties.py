#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os, sys
T = "tcmalloc/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith("docs/") else T + f for f in files],
                          mechanism=[dict(name=n, where=T + w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=T + w) for n, m, w in state]
    P.append(d)

NOTESTS = "None of the allocator's own tests can be built against the installed Abseil, and in any case they sample a few fixed or random histories; "

prop("C01", "Live allocations never overlap and keep their contents",
 "At every moment, the blocks that have been handed out by any allocation function and not yet freed are pairwise disjoint and writable over their whole usable size. The bytes a program stored in a live block are never changed by any other allocator call, whatever mix of sizes, alignments and allocation or release functions is used, and in both per-CPU and per-thread cache mode.",
 ["histories", "configurations"], "all sequences of allocation-API calls up to a depth over colliding size classes, page-sized, region-sized and huge-page-sized requests",
 NOTESTS + "overlap needs particular reuse histories across caches, spans and huge pages.",
 ["tcmalloc.cc", "cpu_cache.h", "thread_cache.cc", "transfer_cache_internals.h", "central_freelist.h", "span.h", "huge_page_filler.h"],
 [("fast_alloc/slow_alloc_small/slow_alloc_large", "tcmalloc.cc"), ("do_free/do_free_with_size", "tcmalloc.cc")],
 ["malloc, free, operator new/delete, realloc, memalign family"])
prop("C02", "Every block satisfies the requested size and alignment",
 "Every successful allocation of n bytes with alignment a, through any C or C++ entry point, returns a non-null pointer to at least n usable bytes that is a multiple of a; without an explicit alignment it is aligned for any object that fits in n bytes (at least 8, and 16 for n >= 16). This holds for every n and every power-of-two a, including zero sizes, sizes at the boundaries between size classes and pages, and alignments larger than a page.",
 ["inputs", "configurations"], "every request size up to the largest cached size plus page/huge-page boundaries, times every power-of-two alignment, times every entry point",
 NOTESTS + "a wrong answer may exist at one size/alignment pair only.",
 ["tcmalloc.cc", "sizemap.h", "sizemap.cc", "tcmalloc_policy.h", "common.h"],
 [("SizeMap::GetSizeClass", "sizemap.h"), ("do_malloc_pages", "tcmalloc.cc")],
 ["pointer returned by malloc, new, new(align), memalign, aligned_alloc, posix_memalign, valloc, pvalloc, calloc"])
prop("C03", "Size queries agree with the capacity actually handed out",
 "The usable size reported for a live pointer is at least the requested size and every one of those bytes can be written without affecting any other block. The size estimates offered before allocating (by size, and by size plus alignment flags) and the capacity returned by size-returning allocation all equal the usable size later reported for the block allocated with the same request, and sampled or unsampled allocations of one request differ only within the documented page rounding.",
 ["inputs", "configurations"], "every request size up to 256 KiB plus large boundaries, times alignment flags",
 NOTESTS + "the functions compute the size along separate code paths that must agree at every input.",
 ["tcmalloc.cc", "sizemap.h", "malloc_extension.cc", "alloc_at_least.cc"],
 [("nallocx", "tcmalloc.cc"), ("GetSize", "tcmalloc.cc"), ("Policy::to_pointer", "tcmalloc_policy.h")],
 ["malloc_usable_size, nallocx, MallocExtension::GetEstimatedAllocatedSize/GetAllocatedSize, __size_returning_new"])
prop("C04", "realloc and calloc honour their C contracts",
 "Reallocating a live block to n bytes yields a block of at least n usable bytes whose first min(old, new) bytes are unchanged, the old block is released exactly once if it moved, and a null pointer or a zero size behaves as allocation or release respectively. Zeroing allocation returns n*m zero bytes even when the memory was dirtied before. Element counts whose product overflows, and requests that cannot be met, return null with the out-of-memory error and leave the original block untouched.",
 ["inputs", "histories"], "all (old size, new size) pairs over a boundary-dense size alphabet, chained to depth 3, with dirty reuse, plus all overflowing count pairs on the boundary",
 NOTESTS + "the reuse-in-place decision compares several computed sizes and only specific pairs expose an error.",
 ["tcmalloc.cc", "internal/overflow.h"],
 [("do_realloc", "tcmalloc.cc"), ("MultiplyOverflow", "internal/overflow.h")],
 ["realloc, reallocarray, calloc"])
prop("C05", "Every matching way of freeing a block is equivalent",
 "A live block may be released through any function that matches its allocation (plain, sized with any size the block was requested or reported with, aligned, sized and aligned, sdallocx) and the effect is the same: the block is released exactly once, becomes reusable for requests of the same kind, no other block is affected, and releasing null is a no-op.",
 ["inputs", "histories"], "every request size/alignment combination times every matching release function, followed by reallocation of the same kind",
 NOTESTS + "sized release recomputes the size class from (size, alignment) and must agree with allocation for every pair.",
 ["tcmalloc.cc", "sizemap.h", "tcmalloc_policy.h"],
 [("do_free_with_size/fast_free_with_size", "tcmalloc.cc"), ("GetSizeClass", "sizemap.h")],
 ["free, free_sized, free_aligned_sized, sdallocx, operator delete variants"])
prop("C06", "Detectable invalid frees stop the program instead of corrupting it",
 "Releasing an allocator-managed pointer that is provably wrong - a misaligned or interior pointer to a large block, a large block that was already released, a wild pointer with impossible address bits, or a sampled block with a size that does not match - terminates the process with a diagnostic and never returns to the caller, while releasing valid pointers never triggers a diagnostic.",
 ["inputs", "histories"], "every error kind times block kinds (page-level, sampled/guarded, huge) times offsets, each after several allocation histories",
 NOTESTS + "death behaviour must hold for every erroneous pointer, not one example.",
 ["tcmalloc.cc", "error_reporting.cc", "guarded_page_allocator.cc"],
 [("InvokeHooksAndFreePages", "tcmalloc.cc"), ("ReportCorruptedFree/ReportDoubleFree/ReportMismatchedDelete", "error_reporting.cc")],
 ["process termination (SIGABRT/SIGTRAP/SIGSEGV) inside the erroneous call"])
prop("C07", "Refused OS memory fails cleanly and recovers",
 "If the operating system refuses memory at any point, the affected allocation reports failure in the documented way for its function (null with ENOMEM for the C functions, null for the nothrow forms, and termination with a diagnostic, never a null or short block, for throwing operator new), no live block changes, nothing that was allocated is lost from the books, and once the system grants memory again allocation succeeds. Requests of any impossible size fail in the same way without crashing.",
 ["fault_sequences", "histories"], "every index k of an OS memory call at which refusal starts and every length of refusal, over allocation histories covering small, large, huge and metadata paths",
 NOTESTS + "they exercise one huge failing request, never a failure at each individual OS call.",
 ["tcmalloc.cc", "internal/system_allocator.h", "huge_allocator.cc", "central_freelist.h", "tcmalloc_policy.h"],
 [("handle_oom", "tcmalloc_policy.h"), ("SystemAllocator::Allocate", "internal/system_allocator.h"), ("CentralFreeList::Populate", "central_freelist.h")],
 ["return value, errno, process termination, contents of live blocks"])
prop("C08", "Reported memory statistics are conserved and add up",
 "At every quiescent point the published statistics satisfy: bytes in use by the application equal the bytes of live blocks rounded up to their reported usable size, heap bytes equal in-use plus every cache level plus free plus returned-to-OS bytes plus metadata as published, and no counter underflows. Repeating any allocate/free cycle does not make in-use bytes or the heap grow without bound.",
 ["histories"], "all operation sequences up to a depth, statistics checked after each operation",
 NOTESTS + "accounting drifts only after particular sequences (partial release, donation, cache flush).",
 ["stats.cc", "tcmalloc.cc", "global_stats.cc", "huge_page_aware_allocator.h", "cpu_cache.h"],
 [("ExtractTCMallocStats", "global_stats.cc"), ("BackingStats", "stats.h")],
 ["MallocExtension::GetProperties / GetNumericProperty"])
prop("C09", "Returning memory to the OS never touches live data",
 "Any request to release free memory to the operating system, and any release triggered in the background, only ever gives back pages that contain no live block; memory later reused after being returned is usable, and blocks live across the request keep their contents. The number of bytes reported as released is memory that actually was returned, and is not counted as both free and returned.",
 ["histories", "fault_sequences"], "all interleavings of allocate/free/release operations up to a depth on the real page heap with every OS release call intercepted and optionally failing",
 NOTESTS + "only a particular fragmentation pattern exposes a page range that is released while used.",
 ["huge_page_filler.h", "huge_page_tracker.h", "huge_cache.cc", "huge_region.h", "huge_page_aware_allocator.h", "internal/system_allocator.h"],
 [("ReleaseFree", "huge_page_tracker.h"), ("ReleaseAtLeastNPages", "huge_page_aware_allocator.h"), ("SystemAllocator::Release", "internal/system_allocator.h")],
 ["madvise calls vs. the set of live blocks"])
prop("C10", "Memory limits are enforced",
 "With a hard limit set, the allocator never lets its reported physical usage exceed the limit: it first gives back free memory and otherwise terminates the process or refuses the request; with only a soft limit it gives back free memory when usage exceeds the limit and continues to satisfy requests. Limits read back as they were set, soft-limit and hard-limit hits are counted, and without a limit none of this happens.",
 ["histories", "configurations"], "all sequences of limit changes, allocations, frees up to a depth over limits around current usage",
 NOTESTS + "limits interact with the state of every free list at the moment they are crossed.",
 ["page_allocator.cc", "page_allocator.h"], [("ShrinkToUsageLimit", "page_allocator.cc"), ("set_limit", "page_allocator.cc")],
 ["MallocExtension::SetMemoryLimit/GetMemoryLimit, limit properties"])
prop("C11", "Allocation hooks see every allocation and release exactly once",
 "While a new/delete hook is installed, each allocation and each release performed through any entry point is reported to it exactly once with the pointer, the size requested and the usable size of that block, in an order where a block's release never precedes its allocation. A removed hook is not called again for calls that start later, and installing hooks never changes what the allocation functions return.",
 ["histories", "configurations"], "all sequences of API calls and hook installs/removals up to a depth, every entry point",
 NOTESTS + "each entry point and cache state takes its own path to the hook.",
 ["tcmalloc.cc", "malloc_hook.cc", "malloc_hook_invoke.h", "cpu_cache.h"],
 [("InvokeNewHook/InvokeDeleteHook", "malloc_hook_invoke.h"), ("MallocHook_HooksChanged", "tcmalloc.cc")],
 ["MallocHook::AddNewHook/AddDeleteHook callbacks"])
prop("C12", "Per-CPU caches survive preemption and migration at any instruction",
 "An operation on a per-CPU cache that is preempted, migrated to another CPU, interrupted by a signal or fenced by another thread at any machine instruction either takes effect exactly once or not at all. No cached object is ever lost, duplicated or returned to two callers, and no cache slot outside the CPU's own bounds is read or written.",
 ["schedules"], "every instruction boundary of every cache operation as an interruption point, times every interfering operation sequence up to the bound",
 NOTESTS + "a real kernel preempts inside the few-instruction windows only rarely.",
 ["internal/percpu_tcmalloc.h", "internal/percpu_rseq_x86_64.S", "internal/percpu.cc", "internal/percpu.h"],
 [("TcmallocSlab_Internal_Push/Pop", "internal/percpu_tcmalloc.h"), ("restartable sequences", "internal/percpu_rseq_x86_64.S")],
 ["contents of the per-CPU cache after each interrupted operation"])
prop("C13", "Per-CPU cache management conserves objects and capacity",
 "Draining, resizing, growing, shrinking, stealing capacity for and reclaiming per-CPU caches never lose or duplicate a cached object: each object inserted is afterwards either still cached or handed back exactly once. Cached counts never exceed capacity, capacity never exceeds its configured maximum, and the memory budget given out over all CPUs never exceeds the configured total.",
 ["histories", "schedules"], "all sequences of cache operations up to a depth over 2 CPUs and a few size classes, from empty, full and drained states",
 NOTESTS + "conservation must hold for each history and interleaving of control operations.",
 ["cpu_cache.h", "cpu_cache.cc", "internal/percpu_tcmalloc.h"],
 [("CpuCache::Drain/Refill/Overflow", "cpu_cache.h"), ("TcmallocSlab::ResizeSlabs/Drain/GrowOtherCache", "internal/percpu_tcmalloc.h")],
 ["objects returned vs. inserted, capacity statistics"])
prop("C14", "Central free lists conserve objects under concurrency",
 "Objects handed out by a central free list are distinct, correctly sized and placed inside memory obtained from the page heap, an object is never handed out again before it was returned, a span goes back to the page heap exactly when all its objects are back and exactly once, and the free-object count equals objects obtained minus objects handed out and is never seen outside the range from nothing to all objects obtained. This holds under every interleaving of concurrent inserts, removes and statistics readers, and when the page heap refuses memory.",
 ["schedules", "histories", "fault_sequences"], "all interleavings up to a preemption bound of 2-3 threads, and all sequential histories up to a depth, over several size classes",
 NOTESTS + "lock release during refill gives windows that need a specific interleaving.",
 ["central_freelist.h", "central_freelist.cc", "span.h", "span.cc", "hinted_tracker_lists.h"],
 [("InsertRange/RemoveRange/Populate", "central_freelist.h"), ("FreelistPushBatch/PopBatch", "span.h")],
 ["objects, spans returned to page heap, length()"])
prop("C15", "Transfer caches conserve objects and respect capacity",
 "Objects moved through a transfer cache come out exactly once, never more than were put in, with the rest forwarded to the central list; the number cached never exceeds the current capacity, nor capacity its maximum, and rebalancing never grows the total capacity of all classes, counted in batches. This holds for every history of inserts, removes, grows, shrinks, plunders and resizes and under every interleaving of two or three threads.",
 ["schedules", "histories"], "all interleavings up to a preemption bound and all operation sequences up to a depth on real transfer caches over a counting central list",
 NOTESTS + "plunder and shrink drop the lock between steps.",
 ["transfer_cache_internals.h", "transfer_cache.h", "transfer_cache.cc"],
 [("InsertRange/RemoveRange/TryPlunder/ShrinkCache", "transfer_cache_internals.h")],
 ["multiset of objects; capacity statistics"])
prop("C16", "Page map lookups are correct while the map changes",
 "Looking up an address returns exactly what was last registered for its page and nothing for pages never registered, for every address in the supported address space including its ends. Lookups running concurrently with registration of other pages, and with growth of the map, never see a partially initialised node, and looking up a page that is registered never races with either; failure to obtain metadata memory is reported and leaves every lookup unchanged.",
 ["schedules", "histories", "inputs"], "all operation sequences up to a depth over pages at leaf, mid-node and address-space boundaries, and all interleavings of a reader with a growing writer",
 NOTESTS + "publication order is invisible on a single thread.",
 ["pagemap.h", "pagemap.cc"], [("PageMap2/PageMap3::Ensure/set/get", "pagemap.h")],
 ["PageMap::GetDescriptor, sizeclass, Ensure"])
prop("C17", "Hook lists stay coherent under concurrent change",
 "A hook added successfully is seen by every later traversal until removed; a traversal concurrent with additions and removals sees every hook that was installed throughout, none that was absent throughout, and each at most once. Adding fails only when the list is full or the hook is null, removing fails only when it is absent, and order is the slot order in which hooks were placed.",
 ["schedules", "histories"], "all interleavings up to a preemption bound of two mutators and a traverser, and all sequential histories up to a depth beyond capacity",
 "The library builds here but has no test at all among the stable ones; traversal is lock-free.",
 ["internal/hook_list.h", "internal/hook_list.cc", "malloc_hook.cc"], [("HookList::Add/Remove/Traverse", "internal/hook_list.h")],
 ["return values of Add/Remove/Traverse/size/empty"])
prop("C18", "The sampled-object registry never loses or resurrects an entry",
 "Every registered sample is visited by each later iteration exactly once until it is unregistered and never after, also while other threads register, unregister and iterate; a recycled record is fully re-initialised before anybody can see it, and each unregistration is announced to the dispose callback once.",
 ["schedules", "histories"], "all interleavings up to a preemption bound of 2-3 threads registering, unregistering, iterating; all sequential histories up to a depth",
 NOTESTS + "reuse of dead records is a classic ABA-prone pattern.",
 ["internal/sampled_allocation_recorder.h", "internal/sampled_allocation.h"],
 [("SampleRecorder::Register/Unregister/Iterate", "internal/sampled_allocation_recorder.h")], ["Iterate callbacks"])
prop("C19", "The stack-trace filter never forgets a live trace",
 "A stack trace whose additions and removals sum to a non-zero value is always reported as contained, and once every trace's sum is back to zero nothing is contained; in the decaying variant a trace stays contained for exactly the configured number of later additions after its own sum is gone. Concurrent additions and removals never lose a count.",
 ["histories", "schedules"], "all add/remove/decay sequences up to a depth over colliding traces for several table sizes, and all interleavings of 2-3 threads up to a preemption bound",
 "The existing unit tests run a handful of fixed sequences and one timing-dependent threaded smoke test.",
 ["internal/stacktrace_filter.h"], [("StackTraceFilter/DecayingStackTraceFilter::Add/Decay/Contains", "internal/stacktrace_filter.h")],
 ["Contains()"])
prop("C20", "Metadata memory is disjoint, aligned and accounted",
 "Blocks obtained for the allocator's own metadata are pairwise disjoint, aligned as requested and inside memory obtained from the system; freed metadata objects are reused only after being freed, and the published counters (allocated, unallocated, unavailable, nonresident, block count, in-use objects) equal what the history implies after every step.",
 ["histories", "inputs"], "all sequences of metadata allocations over sizes and alignments around the block size up to a depth; object allocator new/delete/OOM sequences",
 NOTESTS + "left-over areas are recycled only in specific size orders.",
 ["arena.h", "arena.cc", "metadata_object_allocator.h"], [("Arena::Alloc", "arena.cc"), ("MetadataObjectAllocator::New/Delete", "metadata_object_allocator.h")],
 ["returned blocks, ArenaStats, AllocatorStats"])
prop("C21", "Bit-set and range-tracking primitives match their mathematical model",
 "For every size and every sequence of operations, the fixed-size bitmap and the range tracker used by all page-level structures agree with a plain array of booleans: set, clear, range updates, counts, searches in both directions, free-range iteration, shifting and scaling; best-fit reservation always picks a smallest sufficient free range, and used, longest-free and allocation counts are exact.",
 ["inputs", "histories"], "every state for small sizes, every (index, length) pair across word boundaries for large sizes, and every operation sequence up to a depth",
 NOTESTS + "boundary arithmetic errors live at single bit positions.",
 ["internal/range_tracker.h"], [("Bitmap", "internal/range_tracker.h"), ("RangeTracker", "internal/range_tracker.h")],
 ["all public operations of Bitmap and RangeTracker"])
prop("C22", "Sub-huge-page packing hands out disjoint runs and counts exactly",
 "Runs of pages handed out by the huge-page filler are disjoint and lie in contributed huge pages; a huge page is handed back exactly when its last run is freed and never before; releasing memory only unbacks pages that are free. Its used, free, unmapped and size figures, per-density figures and span statistics equal those implied by the history after every step, including when the operating system refuses to release.",
 ["histories", "fault_sequences"], "all sequences of get/contribute/donate/put/release up to a depth over small and large runs, both densities, with every OS answer",
 NOTESTS + "list placement depends on fragmentation, age and release state combinations.",
 ["huge_page_filler.h", "huge_page_tracker.h", "hinted_tracker_lists.h"],
 [("HugePageFiller::TryGet/Put/Contribute/ReleasePages", "huge_page_filler.h"), ("PageTracker", "huge_page_tracker.h")],
 ["returned runs, stats, unback calls"])
prop("C23", "Huge regions hand out disjoint runs and track backing exactly",
 "Runs handed out by a huge region are disjoint and inside the region; the region knows exactly which huge pages are backed, reports a run as coming from released memory exactly when one of its huge pages was unbacked, only ever releases huge pages without live runs, and its used, free and unmapped counts add up to the region size after every step.",
 ["histories", "fault_sequences"], "all sequences of get/put/release up to a depth over run lengths around the huge-page size, with every OS answer",
 NOTESTS + "errors need runs that straddle huge-page borders in particular orders.",
 ["huge_region.h"], [("HugeRegion::MaybeGet/Put/Release", "huge_region.h"), ("HugeRegionSet", "huge_region.h")],
 ["runs, from_released, stats, unback calls"])
prop("C24", "Huge-page ranges are never lost, duplicated or wrongly merged",
 "Ranges of huge pages held by the free-range map, the huge allocator and the huge cache always equal the set implied by the history: inserting merges exactly adjacent ranges, getting returns a previously free range of the requested length, nothing is handed out twice, and total, count and longest figures are exact. The cache's backed size, limit, usage and returned-to-system figures stay consistent, also when the system refuses to allocate or release.",
 ["histories", "fault_sequences"], "all sequences up to a depth of insert/remove/get/release over adjacent and non-adjacent ranges with every OS answer",
 NOTESTS + "tree rotations and merges depend on insertion order.",
 ["huge_address_map.h", "huge_address_map.cc", "huge_allocator.h", "huge_allocator.cc", "huge_cache.h", "huge_cache.cc"],
 [("HugeAddressMap::Insert/Remove", "huge_address_map.cc"), ("HugeAllocator::Get/Release", "huge_allocator.cc"), ("HugeCache::Get/Release", "huge_cache.cc")],
 ["ranges returned; stats"])
prop("C25", "The page heap places, frees and accounts every span correctly",
 "Spans allocated from the page heap, of any length and alignment, are disjoint, aligned and correctly tagged; deallocating them in any order makes all memory free again; and the page heap's system, free and unmapped byte counts and its free-span statistics agree with the set of live spans and the pages returned to the system after every operation.",
 ["histories", "fault_sequences"], "all sequences of aligned/unaligned allocation, deallocation and release up to a depth over lengths selecting each placement path, with OS refusals",
 NOTESTS + "placement depends on slack, donation and region state.",
 ["huge_page_aware_allocator.h", "huge_page_aware_allocator.cc", "page_allocator.h", "page_allocator_interface.h"],
 [("HugePageAwareAllocator::New/NewAligned/Delete", "huge_page_aware_allocator.h")], ["spans, BackingStats, SmallSpanStats/LargeSpanStats"])
prop("C26", "Span object lists hand out every object exactly once",
 "For every size class geometry, the per-span free list hands out each object of the span exactly once before any is returned, all inside the span and at multiples of the object size; pushing objects back in any order and batch split makes exactly those available again, its counts are exact, and pointer/index conversion is exact for every object.",
 ["inputs", "histories"], "every size class of every table times every object index, and all pop/push batch sequences up to a depth with all return orders on small spans",
 NOTESTS + "reciprocal arithmetic and the embedded list have edge cases at particular sizes and counts.",
 ["span.h", "span.cc"], [("BuildFreelist/FreelistPopBatch/FreelistPushBatch", "span.h"), ("BitmapPtrToIdx", "span.h")],
 ["pointers handed out"])
prop("C27", "Size-class tables are valid and lookups minimal",
 "In every built-in size-class table, sizes increase strictly, respect alignment, fit their spans within the geometry the span representation supports and batches within their limits; every request size up to the maximum maps to the smallest class that holds it and every alignment request to a class whose size is a multiple of the alignment, and malformed tables are rejected.",
 ["inputs", "configurations"], "every table, every size, every alignment, every hot/cold and partition setting",
 NOTESTS + "they check a sample of sizes for the compiled-in configuration.",
 ["sizemap.h", "sizemap.cc", "size_classes.cc", "legacy_size_classes.cc", "experimental_pow2_size_class.cc", "reuse_relaxed_below_64_size_classes.cc"],
 [("SizeMap::Init/GetSizeClass/IsValidSizeClasses", "sizemap.cc")], ["SizeMap queries"])
prop("C28", "Guarded allocations trap overflow and use-after-free and stay exact",
 "A guarded allocation of n bytes with alignment a is aligned, records exactly n, lies on its own page between inaccessible guard pages, and no two live ones share a page; after release its page is inaccessible until reused. Touching a guard page or released page faults, writing within 32 bytes past a block placed at the end of its page is noticed at release, errors are classified correctly, and slot accounting returns to its initial value when all are freed.",
 ["histories", "inputs"], "every size up to a page times every alignment, all allocate/free sequences up to a depth over a small pool",
 NOTESTS + "slot choice is random and only few sizes are sampled.",
 ["guarded_page_allocator.h", "guarded_page_allocator.cc"], [("GuardedPageAllocator::Allocate/Deallocate", "guarded_page_allocator.cc")],
 ["returned pointers, page protection, GetStackTraces error kind"])
prop("C29", "Sampling accounts for every allocated byte exactly",
 "The sampling decision depends only on bytes allocated: between two samples the sum of allocation sizes (plus one per allocation) is below the chosen interval, the allocation that crosses it is sampled, and its weight is the interval plus the overshoot. The prediction made before an allocation always agrees with the decision, interval one samples every allocation, and a disabled sampler samples none.",
 ["histories", "configurations"], "all size sequences up to a depth over sizes around the remaining interval, for every sampler state reached and interval changes in between",
 NOTESTS + "statistical tests cannot see off-by-one in a single decision.",
 ["sampler.h", "sampler.cc", "internal/exponential_biased.h"], [("Sampler::TryRecordAllocationFast/RecordAllocationSlow", "sampler.h")],
 ["RecordAllocation/WillRecordAllocation results"])
prop("C30", "Profiles contain exactly the live sampled allocations",
 "The heap profile contains each live sampled allocation exactly once, with its requested size, allocated size, alignment and weight, and contains it no longer once it has been freed by any release function or moved by reallocation; an allocation profile contains exactly the samples taken between its start and stop; with every allocation sampled, profile totals equal the live set.",
 ["histories"], "all allocate/free/realloc/profile sequences up to a depth with every allocation sampled",
 NOTESTS + "statistical tolerance hides single lost or duplicated samples.",
 ["allocation_sampling.h", "allocation_sampling.cc", "allocation_sample.cc", "peak_heap_tracker.cc", "tcmalloc.cc"],
 [("SampleifyAllocation/MaybeUnsampleAllocation", "allocation_sampling.h"), ("DumpHeapProfile", "allocation_sampling.h")],
 ["MallocExtension::SnapshotCurrent / StartAllocationProfiling"])
prop("C31", "Compressed time stamps order correctly across wrap-around",
 "The 32-bit cycle clock never goes backwards: for two readings less than half the representable period apart, the later compares as later and their difference is the elapsed time rounded to the clock's granularity, for every starting point including all wrap-around positions.",
 ["inputs"], "every relative offset on a dense grid around all power-of-two and wrap boundaries",
 "The existing unit test compares a few hand-picked values.",
 ["internal/clock.h"], [("Cycles32", "internal/clock.h")], ["Cycles32 comparisons and conversions"])
prop("C32", "Text reports never overrun their buffer",
 "Every textual statistics or diagnostic report written into a caller's buffer stays inside it and is a prefix of the report written to a larger buffer. Plain-text reports are NUL-terminated for any non-zero size; structured text is complete, well-formed and terminated when it fits. The space stated is exactly the report's length when it fits and at least the buffer's length otherwise, so that truncation is always noticed (reports into fewer than 10000 bytes have less detail by design).",
 ["inputs"], "every buffer size from 0/1 up to and beyond the needed size for a set of report shapes",
 NOTESTS + "only comfortable buffer sizes are used.",
 ["internal/logging.h", "internal/logging.cc", "tcmalloc.cc"], [("Printer/PbtxtRegion", "internal/logging.h"), ("GetStats", "tcmalloc.cc")],
 ["buffer contents, SpaceRequired"])
prop("C33", "Kernel text and table inputs are parsed exactly or rejected",
 "CPU lists, NUMA topology, /proc/self/maps lines, memory statistics and page flag tables are parsed to exactly the value the kernel format defines, for any way the text is split across reads, and malformed, truncated or failing input is rejected or reported as unavailable without reading out of bounds.",
 ["inputs", "fault_sequences"], "every string up to a bounded length over the format's alphabet, every split of a text over reads, every failing read",
 NOTESTS + "they read the one file the test machine happens to have.",
 ["internal/sysinfo.cc", "internal/numa.cc", "internal/memory_stats.cc", "internal/proc_maps.cc", "internal/cache_topology.cc", "internal/util.cc"],
 [("ParseCpulist", "internal/sysinfo.cc"), ("NumaTopology::Init", "internal/numa.h"), ("GetMemoryStats", "internal/memory_stats.cc"), ("ProcMapsIterator", "internal/proc_maps.cc")],
 ["parse results"])
prop("C34", "Sliding-window statistics report the true window extremes",
 "Time-windowed trackers report exactly the minimum and maximum of the values reported in the window they are asked about (to the granularity of their epochs), forget values older than the window, and treat gaps without reports as the interface documents, for any sequence of values and clock advances.",
 ["histories"], "all sequences up to a depth of value reports and clock advances within, to the edge of and beyond the window",
 NOTESTS + "epoch arithmetic errors show only when the clock lands on particular boundaries.",
 ["internal/timeseries_tracker.h", "huge_cache.h", "huge_page_subrelease.h"],
 [("TimeSeriesTracker", "internal/timeseries_tracker.h"), ("MinMaxTracker", "huge_cache.h"), ("SubreleaseStatsTracker", "huge_page_subrelease.h")],
 ["MaxOverTime/MinOverTime/IterBackwards"])
prop("C35", "Thread caches conserve objects and budget, and drain at thread exit",
 "In per-thread mode an object freed by a thread is cached once and handed out once or returned to the central lists, never both; cached byte counts equal the cached objects; the per-thread budgets and the unclaimed remainder always add up to the configured total, and a thread's budget grows only out of that remainder or at the expense of another thread's (a new thread's guaranteed minimum excepted); and when a thread exits or goes idle everything it cached becomes available to other threads.",
 ["histories", "schedules"], "all operation sequences up to a depth by 2-3 threads including exits, with statistics after each step",
 NOTESTS + "scavenging and budget stealing trigger only in certain histories.",
 ["thread_cache.h", "thread_cache.cc"], [("ThreadCache::Allocate/Deallocate/Scavenge/IncreaseCacheLimit", "thread_cache.cc")],
 ["thread cache statistics, pointers"])
prop("C36", "Memory kinds are segregated by address",
 "Normal, cold and sampled (and partitioned or NUMA) allocations are placed in address ranges whose tag identifies their kind, every address inside a block carries the same tag, a pointer can therefore be released without knowing its kind, and blocks of different kinds never share a page; explicitly cold requests get cold memory wherever cold classes exist and hot ones never do.",
 ["inputs", "configurations", "histories"], "every size, alignment and hotness hint value, sampled and unsampled",
 NOTESTS + "a kind mix-up corrupts only at the later sized release.",
 ["internal/memory_tag.h", "internal/memory_tag.cc", "internal/system_allocator.h", "tcmalloc_policy.h", "sizemap.h", "page_allocator.h"],
 [("GetMemoryTag", "internal/memory_tag.h"), ("SystemAllocator::MmapAligned", "internal/system_allocator.h")], ["pointer tag bits"])
prop("C37", "Environment lookups are exact",
 "Looking up a variable returns exactly the value the process environment holds for that full name and nothing if it is absent, never matching a mere prefix or a longer name, for every environment content.",
 ["inputs"], "every environment up to 3 entries and every name over a small alphabet including empty names and values",
 "The existing unit test looks up one name.",
 ["internal/environment.cc"], [("thread_safe_getenv", "internal/environment.cc")], ["return value"])
prop("C38", "Experiment selection follows its configuration exactly",
 "The set of active experiments is exactly what the selection rules say for every combination of enable and disable lists: listed experiments are on, disabled ones off even when enabled, unknown names ignored, \"all\" disables all, and the answer for each experiment does not depend on list order or buffer reuse.",
 ["inputs", "configurations"], "all active/disabled list strings up to a bounded number of tokens over known, unknown and special names, with and without the unset default",
 "One unit test checks the static table only.",
 ["experiment.cc", "experiment.h", "experiment_config.h"], [("SelectExperiments", "experiment.cc")], ["selection result"])
prop("C39", "Size arithmetic is exact and overflow is detected",
 "Conversions between bytes, pages and huge pages round exactly as documented and are mutually inverse where they should be, products of sizes report overflow exactly when the true product does not fit, and range intersection, adjacency and containment agree with set semantics, for all inputs including the extreme values.",
 ["inputs"], "all pairs over a dense boundary grid (every power of two, +-2, extremes), all small values",
 NOTESTS + "only typical values are used.",
 ["internal/overflow.h", "pages.h", "huge_pages.h", "internal/bytes.h"], [("MultiplyOverflow", "internal/overflow.h"), ("Length/PageId/Range", "pages.h"), ("HugeLength/HugePage/HugeRange", "huge_pages.h")],
 ["results"])
prop("C40", "Address-range introspection reports exactly the live memory",
 "Enumerating allocated address ranges reports exactly the live spans, with object sizes; ownership queries answer yes for every live block and no for memory the allocator did not provide; and the per-page allocation bitmap of a huge page has a bit set exactly for the pages that hold live blocks or span memory.",
 ["histories"], "all allocate/free sequences up to a depth with queries after each step over every page of the touched huge pages",
 NOTESTS + "a single lucky layout is examined.",
 ["tcmalloc.cc", "pagemap.cc", "malloc_tracing_extension.cc", "internal/page_allocation_status.cc"],
 [("GetAllocatedSpans", "pagemap.cc"), ("GetPageAllocationStatus", "tcmalloc.cc"), ("GetOwnership", "tcmalloc.cc")], ["query results"])
prop("C41", "Residency queries count exactly the resident bytes",
 "Counting resident, swapped or stale bytes of an address range returns the exact total of the pages' states weighted by the part of each page inside the range, for every start offset, length and page-state pattern, across internal buffer boundaries, and errors are reported as unavailable rather than as a number (the mincore-based query reports nothing resident on error).",
 ["inputs", "fault_sequences"], "every start/end offset class times every page-state pattern on small ranges and around the buffer length; every failing system call",
 NOTESTS + "only a few alignments and long uniform patterns are used.",
 ["internal/mincore.cc", "internal/mincore.h", "internal/residency.cc", "internal/pageflags.cc"],
 [("MInCore::residence_impl", "internal/mincore.cc"), ("ResidencyPageMap::Get", "internal/residency.cc"), ("PageFlags::Get", "internal/pageflags.cc")], ["returned byte counts"])
prop("C42", "Intrusive and per-class lists preserve their elements",
 "The linked lists used for free objects and trackers contain exactly the elements added and not removed, in the documented order, with exact lengths, and the prioritised tracker lists always return an element of the least non-empty priority at or above the one asked for.",
 ["histories"], "all operation sequences up to a depth, all batch sizes",
 NOTESTS + "hint maintenance errors appear only after particular add/remove orders.",
 ["internal/linked_list.h", "hinted_tracker_lists.h"], [("LinkedList/TList", "internal/linked_list.h"), ("HintedTrackerLists", "hinted_tracker_lists.h")], ["pop order, length, lowater_mark"])
prop("C43", "System memory regions are aligned, tagged and never overlap",
 "Memory obtained from the operating system for the heap is aligned as requested, lies wholly inside one correctly tagged region, never overlaps memory handed out before, is at least as large as asked, and failures leave the allocator able to serve later requests; release attempts report failure exactly when the system refused.",
 ["histories", "fault_sequences"], "all sequences of requests over sizes, alignments and tags up to a depth with every answer of the mapping call (granted at hint, granted elsewhere, refused)",
 NOTESTS + "the kernel practically always grants the hint.",
 ["internal/system_allocator.h", "internal/system_allocator.cc"], [("SystemAllocator::Allocate/Release", "internal/system_allocator.h")], ["address ranges; mmap/munmap/madvise calls"])
prop("C44", "Concurrent use of the whole allocator is safe",
 "Under every interleaving of a few threads allocating, freeing (also blocks of other threads), reallocating, reading statistics, flushing caches, changing limits or hooks and releasing memory, no data is raced on, nothing deadlocks, live blocks stay disjoint and keep their contents, and at the end all memory is accounted for.",
 ["schedules"], "all interleavings up to a preemption bound of 2-3 threads with 1-3 operations each on the complete allocator",
 NOTESTS + "free-running stress tests sample a vanishing part of the schedules.",
 ["tcmalloc.cc", "static_vars.cc", "page_allocator.h", "huge_page_aware_allocator.h", "central_freelist.h", "transfer_cache_internals.h", "thread_cache.cc"],
 [("pageheap_lock and per-structure locks", "common.h")], ["API results, data races, deadlock"])
prop("C45", "Object lifetimes and deallocation samples pair up exactly",
 "In a lifetime profile, every sampled allocation that was live at some moment of the profiling session is reported exactly once: paired with its own release and with the elapsed time between the two (aggregated exactly over equal call stacks) if it was released while profiling, and as still live otherwise; allocations released before the start or made after the stop do not appear. An event trace contains the same allocations and releases, each once and at its own time.",
 ["histories"], "all sequences of start/stop/allocate/free/advance up to a depth",
 NOTESTS + "they tolerate statistical noise.",
 ["deallocation_profiler.cc", "deallocation_profiler.h"], [("DeallocationProfiler", "deallocation_profiler.cc")], ["profile samples"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")

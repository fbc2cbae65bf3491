"""What each check builds and runs. See check.py for the meaning of the keys."""

# Repository sources that the small component harnesses need.
LOG = ["tcmalloc/internal/logging.cc", "tcmalloc/internal/environment.cc",
       "tcmalloc/internal/util.cc", "tcmalloc/internal/allocation_guard.cc",
       "tcmalloc/malloc_hook.cc", "tcmalloc/internal/hook_list.cc"]
IGN = ["-Wl,--unresolved-symbols=ignore-in-object-files"]


def small(name, harness, sources=(), **kw):
    d = dict(harness=["harness/" + harness], sources=LOG + list(sources), link=IGN)
    d.update(kw)
    return (name, d)


def one(*a, **kw):
    return [dict(name="main", bin=small(*a, **kw))]


CHECKS = {
    "C21": dict(units=one("c21", "c21_bitmap.cc"),
                bounds="Bitmap<N>: N in {1,9} every bit pattern; N up to 512 every pattern that is a range, or the xor of two ranges, with ends near word or array boundaries, every operation with every argument near a boundary. RangeTracker<N>: every history of FindAndMark/Mark/Unmark/Clear up to depth 6-8 (thorough 7-10) over the listed sizes, N in {1,7,8,64,66,130,256,300}."),
}
CHECKS["C31"] = dict(units=one("c31", "c31_clock.cc"),
    bounds="every pair of readings whose ticks lie within 3 of a boundary of the 32-bit representation (0, 2^31, 2^32, 2^32+2^31, 2^33), 13 distances up to just below half the period, three sub-tick phases; raw values likewise; chains of four readings")
CHECKS["C37"] = dict(units=one("c37", "c37_env.cc"),
    bounds="every environment of up to 3 (thorough 4) entries from 18 entry shapes, 12 names; names of every length up to 300 with near-miss neighbours")
PAGES4 = [("8k", "-DTCMALLOC_INTERNAL_8K_PAGES"), ("32k", "-DTCMALLOC_INTERNAL_32K_PAGES"),
          ("256k", "-DTCMALLOC_INTERNAL_256K_PAGES"), ("small", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW")]
CHECKS["C39"] = dict(units=[dict(name=n, bin=small("c39" + n, "c39_arith.cc", pages=p)) for n, p in PAGES4],
    bounds="every pair from ~220 boundary values (small numbers, 2^k-1..2^k+1, ends of the range), four page sizes; every pair of non-empty huge-page ranges within 9 (thorough 12) pages, at both ends of the address space")

# ---- whole-allocator harnesses ----
WRAP = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mprotect,--wrap=madvise"]
PERCPU = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}


def full(name, harness, **kw):
    kw = dict(kw)
    # calls to malloc and friends must not be optimised away
    kw["har_flags"] = kw.get("har_flags", []) + ["-fno-builtin"]
    d = dict(harness=["harness/" + harness], full=True, link=WRAP)
    d.update(kw)
    return (name, d)


def both(harness, **kw):
    """The same binary in per-CPU and in per-thread cache mode."""
    b = full("full", harness, **kw)
    return [dict(name="percpu", bin=b, env=PERCPU), dict(name="perthread", bin=b)]


CHECKS["C01"] = dict(units=both("c01_live.cc"), bounds='both cache modes; every history of up to 5 (four for the largest sizes; thorough one more) operations over six groups of request kinds (8 bytes to 24 MB, cold, over-aligned), batches of 1-70 blocks, freeing newest/oldest/every other, cache flush, release to the OS, frees by another thread or CPU and its exit, a full background round; all live contents verified after every operation')
CHECKS["C02"] = dict(units=both("c02_sizes.cc"), bounds='both cache modes; every size from 0 to kMaxSize+2 pages through all 33 entry points; alignments 1..8192 with every size up to 32 KiB and every size within one of a multiple of 128 above (thorough: every size); 90 boundary sizes up to 1 GiB with alignments up to 2 MiB; valloc/pvalloc to 70000; every alignment value below 5000 for the rejecting functions; sampled allocations')
CHECKS["C03"] = dict(units=both("c02_sizes.cc", har_flags=["-DVERIF_C03"]), bounds='same enumeration as C02 with estimate/capacity/usable-size agreement, and 74 sizes x 33 entry points with every usable byte of up to 40 simultaneously live blocks written and checked')
CHECKS["C04"] = dict(units=both("c04_realloc.cc"), bounds='both cache modes, unsampled and every-allocation-sampled; every ordered pair of 72 sizes (1 byte to 5 MiB) x 6 ways to allocate x realloc/reallocarray; every pair of factors of 10 products (and of nothing); every chain of 4 (thorough 6, sampled 5) reallocations over 7 sizes and two blocks; calloc of every size after dirtying every size; every pair from ~85 extreme factors whose product cannot be met')
CHECKS["C05"] = dict(units=both("c05_free.cc"), bounds='both cache modes, unsampled and sampled; 33 allocation functions x alignments 1..2 MiB x boundary sizes x every matching release function of 18 with every size the block was requested or reported with; six rounds of recycling 6-60 blocks per combination')

ND = ["-DNDEBUG"]
CHECKS["C06"] = dict(units=both("c06_badfree.cc", flags=ND) + [dict(name="valid-" + u["name"], bin=("valid", u["bin"][1]), env=u.get("env", {})) for u in both("c05_free.cc", flags=ND)], bounds='both cache modes, built without assertions; every interior/misaligned pointer class, wrong size, wrong alignment, double release of 8 request kinds x 7 large sizes x 4 heap pasts, sampled and unsampled, through every matching release function, each in a forked copy that must die; plus every valid release of C05, which must not')

CHECKS["C08"] = dict(units=both("c08_stats.cc"), bounds='both cache modes; every history of 3 (thorough 4) operations from 12 over three groups of request kinds, every-allocation-sampled histories of 3 from 9, every 3-operation cycle from 13 repeated 12 times; all published figures reconciled after every operation against the model, the bytes the system granted, and the resident pages')

CHECKS["C07"] = dict(units=both("c07_oom.cc"), bounds='both cache modes; every pair (per-thread quick: single) of 14 operations x first refused call 0-5 (thorough 0-23) x 1/2/3/all further calls refused; growing reallocations likewise; every throwing entry point x 7 sizes x 2 alignments without memory; every non-throwing entry point x 9 alignments x ~350 impossible sizes; metadata refused at call 0-3')
CHECKS["C09"] = dict(units=both("c09_release.cc"), bounds="both cache modes; every history of 4 (thorough 5) operations from 12 (allocate four kinds, free every other / oldest / newest, flush, release a page / 700 KB / everything, one full background round) over three groups of request kinds x two subrelease settings; 4-operation (thorough 6) histories under 4 treatment settings x 2 background rates; every range given to the system compared with the live blocks")
CHECKS["C10"] = dict(units=both("c10_limits.cc"), bounds="both cache modes; 10 (thorough 36) soft/hard limit pairs from 0 to 60 MB above current usage x every history of 3 (2 where huge pages are kept whole and in per-thread mode; thorough 4) operations from 10, each in a copy of the process whose termination must be justified; every sequence of 5 limit settings from 4 values x 2 kinds")
CHECKS["C11"] = dict(units=both("c11_hooks.cc"), bounds="both cache modes, unsampled and every-allocation-sampled; 33 entry points x 11 sizes x up to 5 alignments x every matching release function x 4 hook configurations; 11 sizes x 14 reallocation targets (equal, usable, around the shrink and grow thresholds, nothing) x realloc/reallocarray; every history of 4 (sampled 3; thorough 5) operations from 12 (install/remove hooks, allocate, free, reallocate in place and moving, another thread whose fast path was warm, installing hooks under a running thread, flush), every event compared with the call")
MWRAP = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mprotect,--wrap=madvise,--wrap=munlock"]
CHECKS["C43"] = dict(units=one("c43", "c43_system.cc", ["tcmalloc/internal/system_allocator.cc", "tcmalloc/internal/memory_tag.cc", "tcmalloc/internal/page_size.cc", "tcmalloc/internal/strerror.cc"], link=IGN + MWRAP),
    bounds="SystemAllocator (8 MiB regions) over a modelled kernel: 13 sizes x 7 alignments x 6 tags twice, with mmap/mprotect/metadata refusals and foreign mappings at each call; every history of 3 (thorough 4) requests x 6 troubles, placements in the last regions of a tag's address range included, with and without MAP_FIXED_NOREPLACE; every release of 5 pages' worth of start/end offsets x 4 preferences x every outcome of each madvise kind")
CHECKS["C28"] = dict(units=both("c28_guarded.cc", flags=ND), bounds="guarded-page allocator: every size 0..page x 15 alignments on both kinds of slot; every history of 6 (thorough 8) operations over 6 pool configurations with every page of the pool probed after every operation and every eighth of a page classified; mprotect refused at each of 4 allocations; 17 sizes x 9 alignments x every overflow byte within 32, double free, use after free; whole allocator: 33 entry points x 11 sizes x 5 alignments x every matching release; all slots used up; six kinds of misuse. Which slot is picked is random in the code; the oracle holds for every choice")
CHECKS["C29"] = dict(units=both("c29_sampler.cc"), bounds="sampler alone: 13 intervals x every sequence of 4 (thorough 5) allocations of 9 sizes relative to the bytes left x both recording protocols x interval changes, prediction checked on both sides of the threshold after each; 2000-allocation (thorough 20000) runs; whole allocator: 33 entry points x 10 sizes x 4 alignments x 6 intervals, 6-40 allocations each, the distance to the next sample read off the prediction after every call. The interval drawn is random in the code; the oracle reads it once after each sample and holds for every value")
NOWWRAP = [WRAP[0] + ",--wrap=_ZN4absl7debian33NowEv"]
CHECKS["C30"] = dict(units=both("c30_profiles.cc", link=NOWWRAP), bounds="both cache modes; every entry point x 10 sizes x 4 alignments x every matching release function with every allocation sampled, guarded and not; every history of 5 (per-thread 4; thorough 6) operations from 10 (allocate three kinds, free oldest/newest, grow and shrink by realloc, free by another thread, start/stop two allocation profiles), heap profile compared after every operation; 4 intervals x 6 sizes x 3 release patterns with exact weights. Matching is by requested size, which each history uses once")
CHECKS["C45"] = dict(units=both("c30_profiles.cc", link=NOWWRAP, har_flags=["-DVERIF_C45"]), bounds="both cache modes, with a clock the harness sets; every history of 5 (per-thread 4; thorough 6) operations from 8-9 (allocate by either of two threads, free by either, time steps of 0, 7 ns, 1 ms-1 ns, 1 ms, 2 ms-1 ns, 1 h, start/stop two lifetime profiles or event traces) over small, medium and large blocks; up to 4 allocations of one stack with every combination of those time steps and 0-2 left live, count/mean/minimum/maximum/deviation checked")
def envs(units, **extra):
    return [dict(u, name=u["name"] + "-" + k, env=dict(u.get("env", {}), **v)) for u in units for k, v in extra.items()]


PART = dict(full={"TCMALLOC_HEAP_PARTITIONING": "1"}, light={"TCMALLOC_HEAP_PARTITIONING": "light"})
CHECKS["C36"] = dict(units=both("c36_tags.cc") + envs(both("c36_tags.cc")[:1], **PART), bounds="both cache modes, heap partitioning off, full and light; 75 entry points (33 plain, 21 for each of two allocation tokens) x up to 12 alignments x sizes 0 to kMaxSize+2 pages (each size up to 1100, then every 13th, coarser where sampled or over-aligned; thorough every size), unsampled and all-sampled; 12 hinted entry points x 256 hints x 9 thresholds x 9 sizes; every history of 4 (thorough 5) operations mixing four kinds, freeing, flushing and returning memory")
CHECKS["C40"] = dict(units=both("c40_ranges.cc"), bounds="both cache modes; every history of 5 (per-thread 3; thorough one more) operations from 9 over three groups of request kinds (64 bytes to 14 MB, cold, over-aligned); after each: enumerated spans against live blocks and published byte counts, ownership of every block, status bit of every 4 KiB page of every huge page of the heap and of its neighbours")
CHECKS["C42"] = dict(units=[dict(name=n, bin=small("c42" + n, "c42_lists.cc", flags=f)) for n, f in (("debug", []), ("ndebug", ND))], bounds="with and without assertions; free-object list: every history of 7 (thorough 9) of 8 operations on 6 elements; doubly linked list: every history of 7 (thorough 9) operations on two lists sharing 5 items; tracker lists of 1, 2, 64, 65 and 256 priorities: every history of 6 (thorough 8) operations on 4 elements at up to 7 boundary priorities, every query after each step")
SMAP = ["tcmalloc/" + x for x in ("sizemap.cc", "size_classes.cc", "legacy_size_classes.cc", "experimental_pow2_size_class.cc", "reuse_relaxed_below_64_size_classes.cc")]
CHECKS["C27"] = dict(units=[dict(name=n + a, bin=small("c27" + n + a, "c27_sizemap.cc", SMAP, pages=p, flags=f)) for n, p in PAGES4 for a, f in (("", []), ("-align8", ["-faligned-new=8"]))], bounds="four page sizes x two default alignments x four built-in tables: every request size 0..kMaxSize, every power-of-two alignment up to four pages with every size, hot and cold; every table with one field of one entry changed (42 sizes, 350 span sizes, 256 batch sizes), cut, exchanged, repeated or left out: rejected exactly when the stated rules say so, and complete lookups when accepted")
SPAN = SMAP + ["tcmalloc/span.cc"]
CHECKS["C26"] = dict(units=[dict(name=n, bin=small("c26" + n, "c26_span.cc", SPAN, pages=p)) for n, p in PAGES4] + [dict(name="legacy", bin=small("c26legacy", "c26_span.cc", SPAN, pages=PAGES4[0][1], flags=["-DTCMALLOC_INTERNAL_LEGACY_LOCKING"]))],
    bounds="four page sizes and the legacy locking layout; every size up to 1024 by the alignment and by 128 beyond, with every span length it may have (quick: large sizes with fewer patterns): conversions of every object, 6 first batches x 4 pop batches x 4 return orders and batch sizes, two rounds; every history of 4 (thorough 5; other page sizes 3) operations from 14 after 4 first batches on spans of 1,2,3,12,13,25,63,64,65,128,192 and list spans of up to 32768 objects; objects in the program's hands filled and verified after every step")
HUGE = ["tcmalloc/huge_address_map.cc", "tcmalloc/huge_allocator.cc", "tcmalloc/huge_cache.cc", "tcmalloc/page_allocator_interface.cc", "tcmalloc/stats.cc"]
CHECKS["C24"] = dict(units=[dict(name=n, bin=small("c24" + n, "c24_huge.cc", HUGE, flags=f)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; address map: every history of 4 (thorough 5) insertions/removals over 8 (10) huge pages at both ends of the address space, every order of 6 (7) separate ranges followed by every 3 (4) gap fillings/removals, each with order, longest, totals, iteration and every predecessor checked; allocator: every history of 5 (6) gets of 1/2/5 and whole or partial releases x five answers of the system; cache: four pasts x every history of 5 (without assertions 4; thorough 6) of 13 operations including refused releases, refused memory, time steps and (depth 3) up to two operations of another thread while the system releases memory")
CHECKS["C23"] = dict(units=[dict(name=n, bin=small("c23" + n, "c23_region.cc", HUGE + ["tcmalloc/internal/memory_tag.cc"], flags=f)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; one region at two addresses with three pasts: every history of 4 (without assertions 3; thorough 6) operations from 18 (runs of 1 page to 300 huge pages, returning oldest/newest/middle with and without release, releasing 1 page / one and a bit / 2 huge pages / everything in both orders, the system refusing to release); sets of one and two regions in both modes: every history of 4 (3; 5) operations from 14; every figure, free-span statistic and page status compared after every step")
CHECKS["C22"] = dict(units=[dict(name=n, bin=small("c22" + n, "c22_filler.cc", HUGE + ["tcmalloc/internal/memory_tag.cc", "tcmalloc/internal/residency.cc", "tcmalloc/internal/pageflags.cc", "tcmalloc/internal/page_size.cc"], flags=f)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; every history of 5 (without assertions 4; thorough 6) operations from 12 (runs of 1/100/255 pages of both densities, donations, freeing newest/oldest/every other, releasing 1 page / partly released first / everything), one refused release anywhere; histories of 7 with up to two operations of another thread while an emptied huge page is released; seven pasts x treatment with every answer about backing, residency, staleness and collapse and one operation of another thread at each point where the lock is dropped; every figure, free-span statistic, listing and bitmap compared after every step")
CHECKS["C25"] = dict(units=[dict(name=n, bin=small("c25" + n, "c25_page_heap.cc", HUGE + ["tcmalloc/internal/memory_tag.cc", "tcmalloc/internal/residency.cc", "tcmalloc/internal/pageflags.cc", "tcmalloc/internal/page_size.cc"], flags=f + ["-DVERIF_CLOCK"])) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; real page heap over a modelled system (memory granted exactly, with gaps, or more than asked): every history of 4 operations (without assertions 3; thorough 5 and 4) from 20 for two configurations, 3 from 22 for three more (thorough seven), over the fresh heap (1/128/129/255/256/257/700 pages, more than a region, aligned requests, dense pages, deallocation of newest/oldest/middle/all, partial and full releases of both kinds, time); 3 operations after three pasts (fragmented and partly released, donated tails in use, cached huge pages), 2 after two pasts with regions; 3 operations with one refused release or request anywhere; every page's state, the published bytes, free-span statistics, slack, donations, release figures and page-status bitmaps compared with the model after every step, everything freed in two orders at the end")
CHECKS["C34"] = dict(units=[dict(name=n, bin=small("c34" + n, "c34_window.cc", HUGE, flags=f)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; series of 1, 2 and 3 records: every history of 6 (thorough 8) reports and clock updates over 8 clock steps (backwards included) from both ends of the clock's range, every window length; epoch borders of 42 clock and epoch lengths at up to 40 points of the clock's range; extremes: five pasts up to 33 epochs x every history of 3 (5) reports of 6 clock steps and 4 values; demand and skipped releases with 4 and 16 records: three pasts x every history of 5 (6) of 10 operations, every window length")
CHECKS["C38"] = dict(units=one("c38", "c38_experiments.cc", ["tcmalloc/experiment.cc"]),
    bounds="every active list of up to 3 and disabled list of up to 2 of ~15 tokens (known, unknown, near-miss, special, empty, brittle) x three contents of the reused buffer x host and test names; every pair of experiments in 8 combinations of lists; the process-wide selection under every pair of one-token environments, unset included, in a fresh process each")
# ---- schedules: compiled with calls at every memory access, own runtime ----
MCFLAGS = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-DVERIF_MC", "-Wno-tsan"]


def mc(name, harness, sources=(), flags=(), **kw):
    d = dict(harness=["harness/" + harness], sources=list(sources) + LOG, flags=MCFLAGS + list(flags), plain=["lib/mc_rt.cc"], link=IGN)
    d.update(kw)
    return (name, d)


CHECKS["C17"] = dict(units=[dict(name="main", bin=mc("c17", "c17_hooks.cc"))],
    bounds="every history of 4 (thorough 6) additions/removals (duplicates, the null hook, absent hooks) from 7 starting lists up to full; every schedule with up to 3 (thorough 4) preemptions of a mutator with two operations (7 scripts), another with one or an invocation, and a thread traversing twice, from 6 starting lists; every schedule with 2 (4) preemptions in which one (two) loads return any older value the C++ memory model allows; every plain access checked for races")
CHECKS["C18"] = dict(units=[dict(name="main", bin=mc("c18", "c18_samples.cc"))],
    bounds="every history of 8 (thorough 10) registrations, unregistrations (oldest, newest, all) and changes of the dispose callback; every schedule with up to 2 (thorough 3) preemptions of three threads (register/unregister/re-register scripts, 4 x 5, and one or two iterations) from 5 starting mixes of live and dead records, one spurious compare-exchange failure; the same with one preemption (thorough 2) and one load returning any older value the C++ memory model allows; unregistering everything against registrations and an iteration; every plain access checked for races")
CHECKS["C19"] = dict(units=[dict(name="main", bin=mc("c19", "c19_filter.cc"))],
    bounds="plain filter of 1, 2, 7 and 16384 counters with 1-3 hashes: every history of 5 (thorough 6) additions and removals over 4 traces and 6 amounts; decaying filter (2-16384 counters, 1-3 steps): every history of 7 (9) additions, removals, decays and decay-all over 3 traces; every schedule with up to 4 (6) and, decaying, 3 (5) preemptions of two threads with 3 (2) operations and a reader, for two table sizes each; every schedule with 5 (8) preemptions of two threads whose additions and decays must move a ring of 3 or 6 steps exactly to the end")
MEMWRAP = ["-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove,--wrap=_ZN8tcmalloc17tcmalloc_internal13MetaDataAllocEm"]
CHECKS["C16"] = dict(units=[dict(name=n, bin=mc("c16" + n, "c16_pagemap.cc", ["tcmalloc/pagemap.cc"] + SPAN, flags=f + ["-fno-builtin"], link=IGN + MEMWRAP)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; trees of 22, 24 and 35 bits (the allocator's): every history of 4 (thorough 6) ensures (11 ranges at leaf, middle and address-space boundaries, metadata refused at each call), registrations with and without size class and huge-page entries on 11 boundary pages, every lookup of every page, of its neighbours and of six addresses outside after each; the allocator's page map: every history of 8 (10) span registrations, size-class registrations and deletions over 6 overlapping spans; schedules with scheduling points at every plain access too: lookups of registered pages against two growing writers with race detection (2, thorough 3, preemptions), lookups of unknown pages against growth with metadata full of junk or refused (3, 4)")
CHECKS["C15"] = dict(units=[dict(name=n, bin=mc("c15" + n, "c15_transfer.cc", SMAP, flags=f + ["-fno-builtin"], link=IGN + MEMWRAP)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; seven capacities (none and 256 included): every history of 7 (thorough 9) of 11 operations (insert/remove one, a batch, more than a batch, empty central list, plunder, grow, shrink, fetch misses); limits of every batch size for ~700 object sizes; rebalancing of 4 classes with every combination of five starting capacities and 0/1/3 misses, two (thorough three) rounds; sharded caches in four modes with two and three shards: every history of 5 (with assertions 4; 6) operations; every schedule with 2 (with assertions 1; thorough 3 and 2) preemptions of three threads (4 x 6 scripts of two operations x 5 of one) from 8 starting caches, sizes probed at every scheduling point")
CHECKS["C14"] = dict(units=[dict(name=n, bin=mc("c14" + n, "c14_central.cc", SPAN, flags=f + ["-fno-builtin"], link=IGN + MEMWRAP)) for n, f in (("debug", []), ("ndebug", ND), ("legacy", ["-DTCMALLOC_INTERNAL_LEGACY_LOCKING"]))],
    bounds="with assertions, without, and with the legacy locking layout; 14 object and span sizes (1 to 1024 objects per span, list and bitmap spans, remainders): every history of 4 (spans of up to 4 objects 5; legacy one less; thorough two more) of 11 operations (remove 1/2/a span/a span and one/a batch with and without memory, return newest/oldest/batches/every other/alternating), every figure, histogram and list compared after each; emptying 1-3 whole spans in 5 orders x 4 batch sizes; every schedule with 1 preemption (half of the scripts with assertions or legacy layout; 2 for spans of two objects; thorough 2 and 3) of three threads (4 x 4 scripts of two operations x 3 of one, statistics readers included) from 5 starting distributions over 6 kinds of span, memory refused at no, the first or the second request")
CHECKS["C35"] = dict(units=[dict(name=n, bin=small("c35" + n, "c35_thread_cache.cc", flags=f)) for n, f in (("debug", []), ("ndebug", ND))] + [dict(name="schedules", bin=mc("c35mc", "c35_thread_cache.cc"))],
    bounds="with and without assertions; over a counting transfer cache and thread keys of the harness's own: from six pasts (fresh, all budget claimed by one / two / three threads, a total below the minimum, budgets scaled down to odd values) every history of 4 (without assertions 3; thorough 5) operations by two or three threads (take, release, bursts of 7 and of 6 large objects, idle, exit, memory plentiful / one object at a time / none, four totals); every history of 5 (thorough 7) bursts of 1-17 takes or releases of two classes by one thread; up to 2 (3) operations before thread keys exist followed by 3 (4) of two threads; every schedule with 2 (3) preemptions of two threads (15 pairs of 5 scripts: growing, idle in between, changing the total, reading statistics, exiting) from 4 (6) starting budgets; every list walked and every figure compared after each step, everything returned once all threads have left")
CHECKS["C20"] = dict(units=[dict(name=n, bin=mc("c20" + n, "c20_arena.cc", ["tcmalloc/arena.cc", "tcmalloc/internal/page_size.cc"], flags=f + ["-fno-inline", "-fno-builtin"], link=IGN + MEMWRAP)) for n, f in (("debug", []), ("ndebug", ND))],
    bounds="with and without assertions; arena over a modelled system allocator giving exactly what is asked for or 1-2 pages more: every history of 3 (thorough 4) requests from 12 sizes x 5 alignments or changes of residency, then filling up what is left; left-overs of 5 sizes from 20 and 30 blocks used up in 3 ways; 110 and 280 left-overs, then using them; object allocator for 4 object sizes: every history of 9 (12) creations and deletions (newest, oldest, middle); every schedule with 3 (with assertions 1; thorough 4 and 2) preemptions of three threads (6 x 6 scripts of two operations x 6 of one: create, delete, arena blocks small and large, statistics, residency) from 4 starting states")
KWRAP = ["-Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=poll,--wrap=lseek"]
CHECKS["C33"] = dict(units=one("c33", "c33_kernel.cc", ["tcmalloc/internal/sysinfo.cc", "tcmalloc/internal/numa.cc", "tcmalloc/internal/cache_topology.cc", "tcmalloc/internal/memory_stats.cc", "tcmalloc/internal/proc_maps.cc"], link=IGN + [KWRAP[0].replace(",--wrap=lseek", "")]),
    bounds="CPU lists: every text of up to 6 (thorough 7) characters over an 8-letter alphabet in every split over reads, and lists of up to 15 elements from 23 (out of range, reversed, unterminated included) at every read size 1..17, every failing read; number of CPUs; NUMA: every assignment of 5 CPUs to up to 3 nodes x 6 settings x 3 partition counts, up to 64 nodes; shared caches: every partition of up to 6 CPUs; /proc/self/maps: every text of up to 3 (thorough 4) lines from 13 shapes at 8 read sizes, interrupted, every subset of outputs, a line of every length to 4400 across the buffer's end, every failing read; /proc/self/status: every subset of the fields x boundary values x 10 read sizes, other lines of every length to 2300, cut off at every byte, every failing read")
CHECKS["C41"] = dict(units=one("c41", "c41_residency.cc", ["tcmalloc/internal/mincore.cc", "tcmalloc/internal/residency.cc", "tcmalloc/internal/pageflags.cc", "tcmalloc/internal/page_size.cc"], link=IGN + KWRAP),
    bounds="pagemap and pageflags tables supplied by the harness: every state of up to 4 pages x 20 start/end offsets, whole and split or interrupted reads, every failing call; ranges of 510..516 and 1022..1028 (thorough also around 1536 and 2048) pages with two special pages at 12 positions each; huge-page bitmaps with runs between 16 boundaries; page flags over three regions each huge or native (7 kinds) x 6 starts x 15 lengths; mincore on every state of up to 5 pages, 4093..4099 and 8189..8195 pages around its 4096-entry array, and real memory with every pattern of 8 pages")
CHECKS["C32"] = dict(units=[dict(name="printer", bin=small("c32p", "c32_printer.cc"))] + both("c32_reports.cc", link=[WRAP[0] + ",--wrap=open"]),
    bounds="printing machinery: every sequence of up to 4 (thorough 5) printf/append calls of 12 kinds x every buffer size; every structured-text tree of up to 4 (thorough 5) fields or regions x every buffer size; log messages of every length to 799; fatal messages of every length to 809; the allocator's two reports in both cache modes, in 4 states: sizes 1..400, 9980..10020, 260 below to 20 above the needed size, and every 37th (thorough every) below 10000, every 331st (17th) above")
CHECKS["C12"] = dict(units=one("c12", "c12_rseq.cc", ["tcmalloc/internal/percpu.cc", "tcmalloc/internal/percpu_rseq_asm.S"], link=IGN + ["-Wl,--wrap=syscall"], opt="-O2"), bounds="the harness plays the kernel for 2 CPUs and runs the compiled code instruction by instruction; an event is a preemption, a parallel run of another thread, an interrupt in place or a move to the other CPU, at any instruction that touches shared memory or the rseq area or lies in or behind a restartable sequence; every pair of 6 local operations and of a local with 6 remote ones (drain, shrink, move capacity, resize, change limits), from 0-2 cached objects, slab known or not, physical and virtual CPU numbers, same or other CPU, stale CPU number, both orders: every one event; two events from one state (thorough: all); three (thorough four) switches before shared accesses; two operations in a row and three threads with one event (thorough two)")
C13SRC = SMAP + ["tcmalloc/internal/percpu.cc", "tcmalloc/internal/percpu_rseq_asm.S"]
C13WRAP = ["-Wl,--wrap=syscall,--wrap=madvise,--wrap=munlock"]
CHECKS["C13"] = dict(units=[dict(name=n, bin=small("c13" + n, "c13_cpu_cache.cc", C13SRC, flags=f, link=IGN + C13WRAP, opt="-O2")) for n, f in (("main", []), ("release", ["-DNCPU=9"]))] +
    [dict(name=n, bin=mc("c13mc" + n, "c13_cpu_cache.cc", C13SRC, flags=["-fno-builtin"] + f, link=IGN + C13WRAP)) for n, f in (("schedules", []), ("release-schedules", ["-DNCPU=9"]))],
    bounds="real per-CPU caches over a backing cache that knows where every object is, the harness plays the kernel. Every history of 3 (thorough 4) operations out of 26 (allocate/free 1 or 7 of 2 classes on 2 CPUs, draining, shuffling, resizing of classes, maximum capacities and slabs) from 5 starting states x 3 budgets; of 2 (3) operations in 5 slab layouts, with an empty or short backing cache, with the thread moved to another CPU at any one (two) of its calls to the backing cache; of 3 background operations with the kernel refusing or interrupting; 9 CPUs with release of drained slabs, 3 (4) operations out of 8; schedules: every pair of 6 local and 12 local or background operations on the same or another CPU from 5 states, and of 4 (6) local operations with draining that releases slabs on 9 CPUs from 3 states: 1 (2) preemptions at conflicting accesses, threads moved between CPUs")
NOT_APPLICABLE = {
    "C44": "no check has been built: the whole allocator under a controlled scheduler; its concurrent parts are decided by C12-C20 and C22",
}

#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with bounds from checks/registry.py."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry

HEAD = r"""# Model checking TCMalloc

(Generated by `tools/gen_design.py`; edit that file.)

Every claimed property is decided by exhaustive enumeration of executions of
**the real code**: the sources in /repo are compiled unmodified (no hooks, no
guards, no copies) into small or whole-allocator harnesses, and an explorer
enumerates every operation history, every answer of the environment and, where
threads matter, every schedule within the stated bounds. After each step an
independent reference model, written from the property, is compared with what
can be observed. There is no separate model of the code that could drift from
it: each enumerated trace *is* an execution of the implementation, so the
figures "traces validated against the implementation" and "executions" in the
evidence are the same number.

## 1. Machinery

### 1.1 Explorer (`lib/explore.h`)
A harness is a set of scenarios; a scenario's body asks `vx::choose(n)`
wherever the environment, the history or the schedule could go several ways.
The explorer re-executes the body for every path of the choice tree (stateless
depth-first search), in parallel lanes over 8 processes. Bodies may call
`vx::visited(hash, steps_left)` where a state determines everything that can
follow; equal states with no more steps left are then explored once (explicit
state search). Executions are grouped in chunks per forked process, so crashes,
assertion failures, endless loops (watchdog) and process-wide state are
contained and attributed to an execution; a chunk of 1 gives every execution a
process of its own. A violation is written as a replay file (list of choices);
`check.py --replay FILE` runs it again. Nothing is sampled, and no random
numbers are used: where the code itself draws random numbers (sampling
distances, guarded slots, placement of regions) the oracle is written so that
it holds for every value drawn, and reads the drawn value where it needs it.

### 1.2 Two kinds of harness
* **Component harnesses** compile a handful of /repo's sources around a
  modelled environment (kernel, page heap, central list, clock).
* **Whole-allocator harnesses** (`full=True`, `lib/e2e.h`) compile every library
  source and replace malloc of the harness process. They run in both
  front-end modes: per-CPU (the kernel's rseq is made available to TCMalloc by
  turning glibc's own registration off) and per-thread. System calls are
  interposed (`--wrap=mmap,munmap,mprotect,madvise`) to record what memory was
  granted and returned and to refuse calls; the clock is interposed for the
  profile checks.

### 1.3 Schedules (`lib/mc.h`, `lib/mc_rt.cc`)
For properties over interleavings the code under test *and* the harness are
compiled with `-fsanitize=thread`, but linked with our own runtime instead of
the sanitizer's. Threads are coroutines of one OS thread (each with its own
TLS area), so a schedule costs about a microsecond per scheduling point.
* Every atomic operation and every SpinLock operation is a scheduling point
  (with `Cfg::plain` every plain access, too); the scheduler's decisions are
  choices of the explorer: *all* schedules with at most `preempt` preemptive
  switches are enumerated (switches at blocking points are free).
* Happens-before is tracked with vector clocks following the C++ memory model
  (release sequences, fences, locks); every plain access, memset/memcpy/memmove
  included, is checked for data races on every schedule, so a weakened memory
  order is found even where x86 or the interleaving would hide it.
* Up to `stale` atomic loads per execution may return any older value that
  coherence and happens-before allow; `weak` compare-exchanges may fail
  spuriously.
* All threads blocked is a deadlock; more than `max_steps` points a livelock.
Limits: preemption bound, no store-buffer reordering beyond stale loads, and
signal handlers are not interleaved.

### 1.4 Stand-in Abseil headers (`shim/`)
/repo needs a newer Abseil than the one installed. `shim/absl` holds thin
stand-ins for what is missing (nullability macros, SpinLock with the current
API, Span subset ...) over the installed library. They are trusted to behave
like Abseil. SpinLock there is a plain test-and-set lock whose operations
become scheduling points under 1.3. The installed (Debian) Abseil supplies the
rest. "Holds" therefore means: holds for TCMalloc compiled by gcc/clang 64-bit
x86 with these headers.

### 1.5 Rebuilding
`check.py ID` compiles from /repo's working tree into a scratch directory under
/verif/build (removed afterwards), so that any change of what the code does is
seen; nothing is cached between runs unless VERIF_CACHE is set by a developer.
`VERIF_TIER=thorough`/`--tier thorough` raises the bounds.

### 1.6 Why this reaches what tests cannot
`/opt/vp/build.sh` builds only the few tests that need no recent Abseil; no
test of the allocator proper runs here. Upstream's tests sample a few fixed or
random histories and free-running threads; each property below is quantified
over all histories, inputs, failures or schedules, and the checks exhaust a
bounded part of that space in which, by the small-scope argument, defects of
these data structures show: reuse after a specific sequence, a refused call at
a specific point, a switch inside a window of a few instructions.

### 1.7 Reading the evidence
`states`: distinct reference-model states; `transitions`: operations or
scheduling points executed; `traces_validated_against_impl`: executions of the
real code. Wall times below are of a quick run on the idle 8-core sandbox.

## 2. Properties and how each is decided
"""

# id: (what is specified and observed; why it goes where tests do not)
ORACLE = {
"C01": "Reference model: list of live blocks (pointer, usable size, fill byte). After every operation every byte sampled at both ends and page borders of every live block is compared (whole block on free), blocks are pairwise disjoint. Reaches overlaps that need a particular reuse through front end, transfer cache, span, huge page and region.",
"C02": "For every request: pointer aligned as asked and as the size guarantees, usable size at least the request, and the documented result for sizes and alignments that must be refused. Found: alignments above a huge page aborted (fixed e0af48e).",
"C03": "Estimate (nallocx), size-returning entry points and usable size agree for every enumerated request; every usable byte of many simultaneously live blocks is written and read back. Found: nallocx(0, align) (fixed bccf7a6).",
"C04": "C semantics of realloc/reallocarray/calloc: prefix kept byte for byte, old block gone exactly on success, zero filling even of recycled memory, overflowing products refused without effect.",
"C05": "Every matching pair of allocation and release function (sized, aligned, sized-aligned, sdallocx with the requested and the reported size) is accepted and the memory is recycled without corruption.",
"C06": "Each invalid release runs in a forked copy which must be terminated with a report; each valid release of C05, in the same build, must not be.",
"C07": "Interposed system calls refuse the n-th and following calls; the process must get null+ENOMEM (or the documented crash for throwing operators), keep all live blocks, and recover when memory is back. Found: pvalloc overflow (a9015ef), abort when the madvise probe cannot map (2953164).",
"C08": "Published figures against the model: bytes in use, the system's grants (interposed), resident pages (mincore); sums of the parts equal the totals after every operation; cycles do not leak.",
"C09": "Every range handed to madvise is compared with live blocks (none may be touched), the published released bytes with the ranges, contents of reused memory verified.",
"C10": "Soft and hard limits: an allocation that grows the heap above the hard limit terminates, and nothing else does; the soft limit is met by releasing whenever free memory suffices.",
"C11": "Every hook event (allocation, release; size, pointer, kind) is compared with the calls made; none missing, none twice, for in-place and moving reallocations, threads already on the fast path included. Found: fast path kept running after a hook was installed (0101b34).",
"C12": "Real machine code under a simulated kernel (rseq abort, signature check, CPU-number rewrite, membarrier). Every object exactly once among hands, central list and slabs at the end; capacity given equals capacity taken back; headers within limits; words outside every slab untouched; classes never mixed. Breakpoints reach the point of an event, so that millions of placements run per minute.",
"C13": "Real CpuCache over a backing cache that knows where each of 8000 objects is (in use, cached, handed back); after every operation length <= capacity <= maximum, given-out + available bytes = capacity per CPU, capacities of all CPUs sum to the total, the published counts match, and every object comes back exactly once when all is drained. Schedules: the harness plays the kernel for the restartable sequences; preemption points are the accesses which conflict in recorded executions of the same pair. Found: unpopulating a CPU while one of its threads grows a class crashed (6901ece).",
"C14": "Page heap modelled with per-object ownership; memory and Span objects of returned spans are overwritten inside the race-checked region, so any later use shows. Every count, histogram and list index compared after every operation; sequential results exact (a request is served from free objects first, then from exactly one new span). Found: free-object count momentarily below zero for lock-free readers (94d1e16).",
"C15": "Objects are numbered; where each one is (program, cache, central list) is known at every moment. Capacity, maximum and size are also read at every scheduling point. Rebalancing is run on real caches with modelled misses.",
"C16": "Reference: array of (span, size class, huge-page entry) per page; lookups of every page touched, neighbours and out-of-range addresses after each operation; metadata memory full of junk or refused. Schedules: registered pages are looked up while other threads grow the tree.",
"C17": "Linearizability of add/remove against a sequential list: each call's outcome is possible at a moment between its call and return; a traversal sees every hook present throughout, never one absent throughout, none twice.",
"C18": "Set of registered samples with exact aggregate; iteration sees each sample that is registered throughout exactly once and never a dead or half-initialised one; recycled records only after their unregistration.",
"C19": "Counts per stack trace; 'contains' has no false negatives for traces with positive count throughout the query; decay removes exactly what is due. Found: decay racing with the publication of a trace (67d202b).",
"C20": "System allocator modelled: every block inside memory granted, aligned, disjoint from all earlier ones; allocated+unallocated+unavailable equals what was obtained after every step; left-overs are used before more is asked for; object allocator reuses exactly the freed objects.",
"C21": "Array-of-booleans model compared for every query after every operation.",
"C22": "Huge-page filler against a per-page model (free/used/released, donated, tracker identity): placements, lists, all published numbers, residency treatment with every answer of the modelled kernel, and operations of another thread at the points where the lock is dropped.",
"C23": "Per-page model of regions; exact statistics and page states, release order and refusals.",
"C24": "Set-of-ranges model for the address map; allocator and cache conserve huge pages and their backed/unbacked state under refusals and concurrent operations at lock drops.",
"C25": "Per-page model of the whole page heap over a modelled system (page states, backing, huge-page groups): every span handed out is disjoint from all live ones, page-aligned as asked and as long as asked; every statistic the heap publishes is recomputed from the model after every operation, with every refusal by the modelled kernel, with large allocations, regions, donated tails and releases.",
"C26": "Set of objects handed out per span; contents filled and verified so that writes into handed-out objects show; conversions for every object of every size.",
"C27": "Every request size/alignment in every table against the definition of a valid size class; every table with one field changed is accepted exactly when the rules hold.",
"C28": "Page protections of the whole pool probed after every operation; overflow and underflow bytes inside the detected range must fault or be reported, live blocks must be accessible; misuse in a forked copy must die with a report.",
"C29": "Bytes since the last sample against the drawn interval; a sample is taken exactly at the allocation that exceeds it; weights add up to the bytes allocated.",
"C30": "Every profile (heap, allocation, peak) against the list of sampled live allocations: exactly once, right sizes and weights.",
"C31": "64-bit arithmetic as reference for 32-bit cycle stamps at every boundary. Found: f197779.",
"C32": "The report written to a huge buffer is the reference: every smaller size (all sizes near the ends and around the detail switch, a stride elsewhere) must hold a terminated prefix, guard bytes untouched; time and RSS frozen.",
"C33": "Reference parsers and a modelled file system (short reads, interrupts, failing reads at every call): every string up to a bounded length over the format's alphabet, every split. Found: malformed CPU lists accepted; node 31 sign-extended; a line cut by a failing read parsed as a mapping.",
"C34": "List of (time, value) with exact window extremes to the granularity of epochs. Found: an epoch of a power of two ticks never advanced (5ea2f0b).",
"C35": "Whereabouts of every object (pool, program's hands, cached by which thread): each transfer must move it along one legal edge; every free list is walked and byte counts, class counts, budgets and the unclaimed remainder recomputed after every operation; nothing stays behind once threads are idle or gone. Found: the cache made before the thread key exists was orphaned (e9a8443).",
"C36": "Tag of every address inside every block against the kind requested; blocks of different kinds never share a page, over partitioning modes.",
"C37": "Reference lookup over an enumerated environment block.",
"C38": "Reference parser for the experiment lists; every token combination.",
"C39": "128-bit arithmetic as reference for lengths, page ids and huge-page ranges.",
"C40": "Enumerated spans against live blocks; ownership and page status of every page of the heap. Found: freed spans enumerated (5a2a208); recorded: status of never-obtained huge pages next to the heap.",
"C41": "Per-page model of mincore/pagemap/kpageflags entries; expected totals computed page by page for every offset class and pattern; every failing call. Found: a failing seek reported as 'not huge-page backed'.",
"C42": "Sequence/multiset models.",
"C43": "Modelled kernel (mapping table, refusals, foreign mappings): ranges returned are mapped by us, aligned, tagged, disjoint, writable; release outcomes reported truthfully with errno untouched where promised.",
"C45": "List of sampled allocations with times; every sample of the profile compared, count/mean/min/max/deviation exact. Found: standard deviation (cdc0065).",
}
EXTRA = {}
try:
    exec(open(os.path.join(V, "tools/design_extra.py")).read())
except FileNotFoundError:
    pass
ORACLE.update(EXTRA)

TAIL = r"""
## 4. Findings on the pinned tree

Repaired in /repo (one `fix:` commit each; `known_findings.txt` lists them):
f197779 (C31), a9015ef (C07), e0af48e (C02), bccf7a6 (C03), 2953164 (C07),
0101b34 (C11), cdc0065 (C45), 5a2a208 (C40), 5ea2f0b (C34), 67d202b (C19),
94d1e16 (C14), ee56bcd, cd96e03 and 1f2b90e (C33), 7bcd229 (C41),
6901ece (C13), e9a8443 (C35).

Recorded, not repaired: C40 `status-never-obtained` (see known_findings.txt):
telling a never-obtained huge page from one of ours needs a new page-map state.

## 5. False alarms met on the way, and what was corrected

* C07: madvise returning EAGAIN is retried by design - the harness no longer
  answers EAGAIN for ever.
* C08: a repeated cycle may grow caches up to their budgets: bound corrected.
* C09: released-bytes figures include background treatment and what was
  released at free time; compared accordingly.
* C10: limits act only when the heap grows at page level.
* C16: lookups of unregistered pages racing with growth are by design; the
  statement is about registered pages (unknown pages: no crash, no junk).
* C17: two threads removing the same hook: exactly one succeeds.
* C22: unaccounted pages are credited after the system call returns; the
  donated flag is unaffected by huge-page-backed treatment.
* C23: nested operations while a region is released cannot happen (lock held).
* C28: left-placed blocks have no canary; statement narrowed.
* All full builds: the first sampling point is drawn with the default interval;
  C36 once met an unsampled first request. The harness now goes 131 MB past it.
* C29: prediction before the first allocation, and the weight of the first
  sample after sampling was disabled, are not promised.
* C30: malloc records alignment 16. C36: zero-size cold requests.
* C34: skip decisions are reported after demand is brought up to date.
* C40: ownership is promised for live pointers only.
* C42: low-water marks are not part of the property.
* C43: errno after success, zero-byte requests and requests of a whole tag's
  address range are out of contract.
* C45: the same-thread flag of allocations live at start is not promised.
* C15: total capacity is conserved in batches, not in objects.

## 6. Planted bugs

Every check was developed against dozens of small mutations (`tools/mut.py`);
those not caught were equivalent or led to a stronger check. The bugs kept in
`seeded/` (patch, demonstration, what it needs):

| bug | property | caught by |
|---|---|---|
"""


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    na = []
    for p in props:
        c = registry.CHECKS.get(p["id"])
        if not c:
            na.append(p)
            continue
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("*Decided by* %s.\n" % ("enumeration of schedules and histories (1.3)" if is_mc(c) else "enumeration of histories, inputs and environment answers (1.1)"))
        out.append("*Oracle.* " + ORACLE.get(p["id"], "see the harness.") + "\n")
        out.append("*Bounds.* " + c["bounds"] + ".\n")
        u = sorted({u["bin"][1]["harness"][0] for u in c["units"]})
        out.append("*Harness.* " + ", ".join("`%s`" % x for x in u) + "; units: " + ", ".join(u["name"] for u in c["units"]) + ".\n")
    out.append("\n## 3. Properties not claimed\n")
    for p in na:
        out.append("* %s %s: %s" % (p["id"], p["title"], registry.NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")))
    out.append(TAIL.rstrip("\n"))
    for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
        m = json.load(open(d))
        out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m.get("caught_by", m["property"])))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")


def is_mc(c):
    return any("-DVERIF_MC" in u["bin"][1].get("flags", []) for u in c["units"])


if __name__ == "__main__":
    main()

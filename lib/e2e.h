// Whole-allocator harness support: the real allocator is linked in as malloc,
// driven by bodies that never allocate themselves, next to a reference model
// of the live blocks (fixed arrays).
#ifndef VERIF_E2E_H_
#define VERIF_E2E_H_

#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <malloc.h>
#include <linux/futex.h>

#include <new>

#include "absl/time/clock.h"
#include "lib/explore.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/tcmalloc.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/common.h"
#include "tcmalloc/pages.h"
#include "tcmalloc/internal/memory_tag.h"

extern "C" {
size_t nallocx(size_t size, int flags) noexcept;
void sdallocx(void* ptr, size_t size, int flags) noexcept;
void free_sized(void* ptr, size_t size) noexcept;
void free_aligned_sized(void* ptr, size_t align, size_t size) noexcept;
void* reallocarray(void* ptr, size_t n, size_t size) noexcept;
}

namespace e2e {
using tcmalloc::MallocExtension;
using tcmalloc::tcmalloc_internal::kHugePageSize;
using tcmalloc::tcmalloc_internal::kMaxSize;
using tcmalloc::tcmalloc_internal::kPageSize;

// ---- OS interposition ------------------------------------------------------
enum OsCall { kMmap, kMunmap, kMprotect, kMadvise, kPrctl };
// Called for every OS memory call of the allocator; returning true refuses it.
inline bool (*os_hook)(OsCall, void* addr, size_t len, int arg) = nullptr;
// Called after a call that was let through.
inline void (*os_after)(OsCall, void* addr, size_t len, int arg, long rc) = nullptr;

// Memory the operating system granted to the heap (made accessible), by kind.
struct OsRange { char* p; size_t n; tcmalloc::tcmalloc_internal::MemoryTag tag; };
inline OsRange os_range[4096];
inline int os_nrange;
inline size_t os_heap_bytes, os_meta_bytes;
inline void os_granted(void* a, size_t l) {
  using tcmalloc::tcmalloc_internal::MemoryTag;
  MemoryTag t = tcmalloc::tcmalloc_internal::GetMemoryTag(a);
  if (t == MemoryTag::kMetadata) os_meta_bytes += l; else os_heap_bytes += l;
  if (os_nrange < 4096) os_range[os_nrange++] = {static_cast<char*>(a), l, t};
}
}  // namespace e2e

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_mprotect(void*, size_t, int);
int __real_madvise(void*, size_t, int);
inline __attribute__((used)) void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o) {
  if (e2e::os_hook && e2e::os_hook(e2e::kMmap, a, l, f)) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  void* r = __real_mmap(a, l, p, f, fd, o);
  if (e2e::os_after) e2e::os_after(e2e::kMmap, r, l, f, r == MAP_FAILED ? -1 : 0);
  return r;
}
inline __attribute__((used)) int __wrap_munmap(void* a, size_t l) {
  if (e2e::os_hook && e2e::os_hook(e2e::kMunmap, a, l, 0)) {
    errno = ENOMEM;
    return -1;
  }
  int r = __real_munmap(a, l);
  if (e2e::os_after) e2e::os_after(e2e::kMunmap, a, l, 0, r);
  return r;
}
inline __attribute__((used)) int __wrap_mprotect(void* a, size_t l, int p) {
  if (e2e::os_hook && e2e::os_hook(e2e::kMprotect, a, l, p)) {
    errno = ENOMEM;
    return -1;
  }
  int r = __real_mprotect(a, l, p);
  if (r == 0 && (p & PROT_WRITE)) e2e::os_granted(a, l);
  if (e2e::os_after) e2e::os_after(e2e::kMprotect, a, l, p, r);
  return r;
}
inline __attribute__((used)) int __wrap_madvise(void* a, size_t l, int adv) {
  if (e2e::os_hook && e2e::os_hook(e2e::kMadvise, a, l, adv)) {
    errno = ENOMEM;  // EAGAIN means "try again" and would be retried for ever
    return -1;
  }
  int r = __real_madvise(a, l, adv);
  if (e2e::os_after) e2e::os_after(e2e::kMadvise, a, l, adv, r);
  return r;
}
}

namespace e2e {

inline size_t prop(const char* name) {
  size_t v = 0;
  if (!MallocExtension_Internal_GetNumericProperty(name, strlen(name), &v))
    vx::fail("numeric property %s is unknown", name);
  return v;
}
inline size_t in_use() { return prop("generic.current_allocated_bytes"); }

// ---- the books ---------------------------------------------------------------
struct Books {
  size_t in_use, heap, slack, free, cpu, thread, central, transfer, sharded, unmapped_all, virt, phys, meta, required, local, external;
  size_t unmapped() const { return slack - free; }
  size_t system() const { return heap + unmapped(); }
  size_t cached() const { return cpu + thread + central + transfer + sharded; }
};
inline Books books() {
  Books b;
  b.in_use = prop("generic.current_allocated_bytes");
  b.heap = prop("generic.heap_size");
  b.slack = prop("tcmalloc.slack_bytes");
  b.free = prop("tcmalloc.pageheap_free_bytes");
  b.cpu = prop("tcmalloc.cpu_free");
  b.thread = prop("tcmalloc.current_total_thread_cache_bytes");
  b.central = prop("tcmalloc.central_cache_free");
  b.transfer = prop("tcmalloc.transfer_cache_free");
  b.sharded = prop("tcmalloc.sharded_transfer_cache_free");
  b.unmapped_all = prop("tcmalloc.pageheap_unmapped_bytes");
  b.virt = prop("generic.virtual_memory_used");
  b.phys = prop("generic.physical_memory_used");
  b.meta = prop("tcmalloc.metadata_bytes");
  b.required = prop("tcmalloc.required_bytes");
  b.local = prop("tcmalloc.local_bytes");
  b.external = prop("tcmalloc.external_fragmentation_bytes");
  return b;
}
// Resident bytes of the memory granted to the heap.
inline size_t resident() {
  static unsigned char vec[1 << 18];
  size_t n = 0;
  for (int i = 0; i < os_nrange; ++i) {
    if (os_range[i].tag == tcmalloc::tcmalloc_internal::MemoryTag::kMetadata) continue;
    for (size_t o = 0; o < os_range[i].n; o += sizeof(vec) * 4096) {
      size_t l = os_range[i].n - o;
      if (l > sizeof(vec) * 4096) l = sizeof(vec) * 4096;
      if (mincore(os_range[i].p + o, l, vec)) vx::fail("harness error: mincore");
      for (size_t k = 0; k < l / 4096; ++k) n += (vec[k] & 1) * 4096;
    }
  }
  return n;
}
// Everything that must hold of the figures whatever happened; `live` is what
// the application holds (SIZE_MAX: not known exactly).
inline Books check_books(size_t live, bool residency = true) {
  Books b = books();
  const size_t big = size_t{1} << 46;
  VX_CHECK(b.in_use < big && b.heap < big && b.slack < big && b.free < big && b.cpu < big && b.thread < big && b.central < big &&
               b.transfer < big && b.sharded < big && b.unmapped_all < big && b.virt < big && b.phys < big && b.meta < big && b.required < big,
           "a figure underflowed: in use %zu heap %zu slack %zu free %zu cpu %zu thread %zu central %zu transfer %zu unmapped %zu virtual %zu physical %zu",
           b.in_use, b.heap, b.slack, b.free, b.cpu, b.thread, b.central, b.transfer, b.unmapped_all, b.virt, b.phys);
  if (live != SIZE_MAX) VX_CHECK(b.in_use == live, "bytes in use by the application: %zu, live blocks have %zu", b.in_use, live);
  VX_CHECK(b.slack >= b.free, "slack %zu < free %zu", b.slack, b.free);
  VX_CHECK(b.unmapped_all >= b.unmapped(), "returned bytes %zu, of which heap %zu", b.unmapped_all, b.unmapped());
  VX_CHECK(b.system() == os_heap_bytes, "heap says it has %zu bytes (%zu + %zu returned), the system granted %zu",
           b.system(), b.heap, b.unmapped(), os_heap_bytes);
  VX_CHECK(b.in_use + b.cached() + b.free + b.unmapped() == b.system(),
           "in use %zu + cached %zu (cpu %zu thread %zu central %zu transfer %zu) + free %zu + returned %zu != system %zu", b.in_use, b.cached(),
           b.cpu, b.thread, b.central, b.transfer, b.free, b.unmapped(), b.system());
  size_t nonres = b.unmapped_all - b.unmapped();
  VX_CHECK(b.virt - b.unmapped_all == b.phys, "virtual %zu - returned %zu != physical %zu", b.virt, b.unmapped_all, b.phys);
  VX_CHECK(b.phys - b.free == b.required, "physical %zu - free %zu != required %zu", b.phys, b.free, b.required);
  VX_CHECK(b.cpu + b.thread + b.sharded == b.local, "per-thread and per-CPU figures do not add up");
  // metadata + unallocated + unavailable
  size_t m = b.virt - b.system() - nonres;
  VX_CHECK(b.external == b.cached() + b.free + m, "external fragmentation %zu, expected %zu", b.external, b.cached() + b.free + m);
  VX_CHECK(m >= b.meta, "metadata figures");
  if (residency) {
    size_t r = resident();
    VX_CHECK(r <= b.heap, "%zu bytes of the heap are resident, but it claims only %zu not returned to the system", r, b.heap);
  }
  return b;
}

// ---- allocation entry points ----------------------------------------------
enum Fam { kMallocFam, kNewFam, kNewArrFam };
struct Req {
  size_t size;
  size_t align;   // 0 = none asked for
};
struct Got {
  void* p;
  size_t cap;     // 0 = not a size-returning function
};
struct Alloc {
  const char* name;
  Fam fam;
  bool aligned;        // honours Req::align
  bool zeroed;
  bool cold;
  bool throws;         // reports failure with bad_alloc
  bool sized;          // returns the capacity
  Got (*fn)(Req);
};

constexpr tcmalloc::hot_cold_t kCold = tcmalloc::hot_cold_t{0};
constexpr tcmalloc::hot_cold_t kHot = tcmalloc::hot_cold_t{255};
inline std::align_val_t av(Req r) { return std::align_val_t(r.align ? r.align : 8); }
#define E2E_A(name, fam, al, zero, cold, thr, sized, ...) \
  Alloc { name, fam, al, zero, cold, thr, sized, [](Req r) -> Got { __VA_ARGS__; } }

inline const Alloc kAllocs[] = {
    E2E_A("malloc", kMallocFam, 0, 0, 0, 0, 0, return {malloc(r.size), 0}),
    E2E_A("calloc", kMallocFam, 0, 1, 0, 0, 0, return {calloc(1, r.size), 0}),
    E2E_A("calloc n", kMallocFam, 0, 1, 0, 0, 0, return {calloc(r.size, 1), 0}),
    E2E_A("realloc(null)", kMallocFam, 0, 0, 0, 0, 0, return {realloc(nullptr, r.size), 0}),
    E2E_A("reallocarray(null)", kMallocFam, 0, 0, 0, 0, 0, return {reallocarray(nullptr, r.size, 1), 0}),
    E2E_A("memalign", kMallocFam, 1, 0, 0, 0, 0, return {memalign(r.align ? r.align : 8, r.size), 0}),
    E2E_A("aligned_alloc", kMallocFam, 1, 0, 0, 0, 0, return {aligned_alloc(r.align ? r.align : 8, r.size), 0}),
    E2E_A("posix_memalign", kMallocFam, 1, 0, 0, 0, 0,
          void* p = nullptr; int e = posix_memalign(&p, r.align < 8 ? 8 : r.align, r.size);
          if (e) { p = nullptr; errno = e; } return Got{p, 0}),
    E2E_A("alloc_at_least", kMallocFam, 0, 0, 0, 0, 1,
          auto a = TCMallocInternalAllocAtLeast(r.size); return Got{a.ptr, a.size}),
    E2E_A("aligned_alloc_at_least", kMallocFam, 1, 0, 0, 0, 1,
          auto a = TCMallocInternalAlignedAllocAtLeast(r.align ? r.align : 8, r.size); return Got{a.ptr, a.size}),
    E2E_A("new", kNewFam, 0, 0, 0, 1, 0, return {::operator new(r.size), 0}),
    E2E_A("new nothrow", kNewFam, 0, 0, 0, 0, 0, return {::operator new(r.size, std::nothrow), 0}),
    E2E_A("new[]", kNewArrFam, 0, 0, 0, 1, 0, return {::operator new[](r.size), 0}),
    E2E_A("new[] nothrow", kNewArrFam, 0, 0, 0, 0, 0, return {::operator new[](r.size, std::nothrow), 0}),
    E2E_A("new align", kNewFam, 1, 0, 0, 1, 0, return {::operator new(r.size, av(r)), 0}),
    E2E_A("new align nothrow", kNewFam, 1, 0, 0, 0, 0, return {::operator new(r.size, av(r), std::nothrow), 0}),
    E2E_A("new[] align", kNewArrFam, 1, 0, 0, 1, 0, return {::operator new[](r.size, av(r)), 0}),
    E2E_A("new[] align nothrow", kNewArrFam, 1, 0, 0, 0, 0, return {::operator new[](r.size, av(r), std::nothrow), 0}),
    E2E_A("new cold", kNewFam, 0, 0, 1, 1, 0, return {::operator new(r.size, kCold), 0}),
    E2E_A("new hot", kNewFam, 0, 0, 0, 1, 0, return {::operator new(r.size, kHot), 0}),
    E2E_A("new cold nothrow", kNewFam, 0, 0, 1, 0, 0, return {::operator new(r.size, std::nothrow, kCold), 0}),
    E2E_A("new align cold", kNewFam, 1, 0, 1, 1, 0, return {::operator new(r.size, av(r), kCold), 0}),
    E2E_A("new align nothrow cold", kNewFam, 1, 0, 1, 0, 0, return {::operator new(r.size, av(r), std::nothrow, kCold), 0}),
    E2E_A("new[] cold", kNewArrFam, 0, 0, 1, 1, 0, return {::operator new[](r.size, kCold), 0}),
    E2E_A("new[] align nothrow cold", kNewArrFam, 1, 0, 1, 0, 0, return {::operator new[](r.size, av(r), std::nothrow, kCold), 0}),
    E2E_A("size_returning_new", kNewFam, 0, 0, 0, 1, 1, auto a = __size_returning_new(r.size); return Got{a.p, a.n}),
    E2E_A("size_returning_new_aligned", kNewFam, 1, 0, 0, 1, 1, auto a = __size_returning_new_aligned(r.size, av(r)); return Got{a.p, a.n}),
    E2E_A("size_returning_new_hot_cold", kNewFam, 0, 0, 1, 1, 1, auto a = __size_returning_new_hot_cold(r.size, kCold); return Got{a.p, a.n}),
    E2E_A("size_returning_new_aligned_hot_cold", kNewFam, 1, 0, 1, 1, 1, auto a = __size_returning_new_aligned_hot_cold(r.size, av(r), kCold); return Got{a.p, a.n}),
    E2E_A("size_returning nothrow", kNewFam, 0, 0, 0, 0, 1, auto a = tcmalloc_size_returning_operator_new_nothrow(r.size); return Got{a.p, a.n}),
    E2E_A("size_returning aligned nothrow", kNewFam, 1, 0, 0, 0, 1, auto a = tcmalloc_size_returning_operator_new_aligned_nothrow(r.size, av(r)); return Got{a.p, a.n}),
    E2E_A("size_returning hot_cold nothrow", kNewFam, 0, 0, 1, 0, 1, auto a = tcmalloc_size_returning_operator_new_hot_cold_nothrow(r.size, kCold); return Got{a.p, a.n}),
    E2E_A("size_returning aligned hot_cold nothrow", kNewFam, 1, 0, 1, 0, 1, auto a = tcmalloc_size_returning_operator_new_aligned_hot_cold_nothrow(r.size, av(r), kCold); return Got{a.p, a.n}),
};
constexpr int kNumAllocs = sizeof(kAllocs) / sizeof(kAllocs[0]);
inline int find_alloc(const char* n) {
  for (int i = 0; i < kNumAllocs; ++i)
    if (strcmp(kAllocs[i].name, n) == 0) return i;
  vx::fail("harness error: no entry point %s", n);
}

// ---- release functions ------------------------------------------------------
struct Free {
  const char* name;
  int fams;          // bit mask of Fam it matches
  int need_aligned;  // 1: only for blocks requested with an alignment, 0: only without, -1: any
  bool sized;
  void (*fn)(void*, size_t size, size_t align);
};
inline int lg(size_t a) {
  int n = 0;
  while ((size_t{1} << n) < a) ++n;
  return n;
}
#define E2E_F(name, fams, al, sized, ...) \
  Free { name, fams, al, sized, [](void* p, size_t n, size_t a) { (void)n; (void)a; __VA_ARGS__; } }
inline const Free kFrees[] = {
    E2E_F("free", 1, -1, 0, free(p)),
    E2E_F("realloc(p,0)", 1, -1, 0, { void* q = realloc(p, 0); if (q) vx::fail("realloc(p, 0) returned %p", q); }),
    E2E_F("free_sized", 1, 0, 1, free_sized(p, n)),
    E2E_F("free_aligned_sized", 1, 1, 1, free_aligned_sized(p, a, n)),
    E2E_F("sdallocx", 1, 0, 1, sdallocx(p, n, 0)),
    E2E_F("sdallocx align", 1, 1, 1, sdallocx(p, n, lg(a))),
    E2E_F("delete", 2, 0, 0, ::operator delete(p)),
    E2E_F("delete nothrow", 2, 0, 0, ::operator delete(p, std::nothrow)),
    E2E_F("delete sized", 2, 0, 1, ::operator delete(p, n)),
    E2E_F("delete align", 2, 1, 0, ::operator delete(p, std::align_val_t(a))),
    E2E_F("delete align nothrow", 2, 1, 0, ::operator delete(p, std::align_val_t(a), std::nothrow)),
    E2E_F("delete sized align", 2, 1, 1, ::operator delete(p, n, std::align_val_t(a))),
    E2E_F("delete[]", 4, 0, 0, ::operator delete[](p)),
    E2E_F("delete[] nothrow", 4, 0, 0, ::operator delete[](p, std::nothrow)),
    E2E_F("delete[] sized", 4, 0, 1, ::operator delete[](p, n)),
    E2E_F("delete[] align", 4, 1, 0, ::operator delete[](p, std::align_val_t(a))),
    E2E_F("delete[] align nothrow", 4, 1, 0, ::operator delete[](p, std::align_val_t(a), std::nothrow)),
    E2E_F("delete[] sized align", 4, 1, 1, ::operator delete[](p, n, std::align_val_t(a))),
};
constexpr int kNumFrees = sizeof(kFrees) / sizeof(kFrees[0]);

// ---- the live-block model ---------------------------------------------------
struct Block {
  char* p;
  size_t req, usable, align;   // align 0 = none
  int entry;
  uint32_t id;
};
constexpr int kMaxBlocks = 8192;
inline Block blk[kMaxBlocks];
inline int nblk;
inline uint32_t next_id;
inline int order[kMaxBlocks];  // block indices sorted by address

inline uint64_t word(uint32_t id, size_t i) {
  return (uint64_t(id) * 0x9e3779b97f4a7c15ull) ^ (i * 0xc2b2ae3d27d4eb4full) ^ 0x5a;
}
// Calls f(offset of an 8-byte word) for every word of small blocks; for large
// ones the first and last 512 bytes and one word per 4 or 32 KiB.
template <typename F>
inline void each_word(size_t n, F f) {
  if (n <= 16384) {
    for (size_t o = 0; o + 8 <= n; o += 8) f(o);
    return;
  }
  for (size_t o = 0; o < 512; o += 8) f(o);
  const size_t stride = n <= (1 << 20) ? 4096 : n <= (64 << 20) ? 32768 : 4 << 20;
  for (size_t o = stride; o + 512 < n; o += stride) f(o);
  for (size_t o = n - 512; o + 8 <= n; o += 8) f(o);
}
inline void fill(const Block& b) {
  each_word(b.usable, [&](size_t o) {
    uint64_t w = word(b.id, o);
    memcpy(b.p + o, &w, 8);
  });
  for (size_t o = b.usable & ~size_t{7}; o < b.usable; ++o) b.p[o] = char(b.id + o);
}
inline void verify(const Block& b, size_t upto = SIZE_MAX) {
  each_word(b.usable, [&](size_t o) {
    if (o + 8 > upto) return;
    uint64_t w;
    memcpy(&w, b.p + o, 8);
    if (w != word(b.id, o))
      vx::fail("live block of %zu bytes (usable %zu): contents at offset %zu changed",
               b.req, b.usable, o);
  });
  for (size_t o = b.usable & ~size_t{7}; o < b.usable && o < upto; ++o)
    if (b.p[o] != char(b.id + o)) vx::fail("live block of %zu bytes: contents changed", b.req);
}
inline void verify_all() {
  for (int i = 0; i < nblk; ++i) verify(blk[i]);
}
inline size_t model_bytes() {
  size_t s = 0;
  for (int i = 0; i < nblk; ++i) s += blk[i].usable;
  return s;
}

inline bool guarded_blocks;  // guarded blocks are aligned for objects of their size only
inline size_t default_align(size_t n) {
  size_t d = n >= 16 ? 16 : 8;
  if (guarded_blocks)
    while (d > 1 && d / 2 >= n) d /= 2;
  return d;
}

inline int lower(const char* p) {
  int lo = 0, hi = nblk;
  while (lo < hi) {
    int m = (lo + hi) / 2;
    if (blk[order[m]].p < p) lo = m + 1; else hi = m;
  }
  return lo;
}

// Registers a block just handed out; checks it against the model.
inline int adopt(void* vp, size_t req, size_t align, int entry, size_t cap, bool do_fill = true) {
  char* p = static_cast<char*>(vp);
  const char* en = entry >= 0 ? kAllocs[entry].name : "realloc";
  VX_CHECK(p != nullptr, "%s(%zu, align %zu) failed although memory is available", en, req, align);
  size_t need = align ? align : default_align(req);
  VX_CHECK(reinterpret_cast<uintptr_t>(p) % need == 0,
           "%s(%zu, align %zu) returned %p, which is not aligned", en, req, align, p);
  size_t us = MallocExtension_Internal_GetAllocatedSize(p);
  VX_CHECK(us >= req, "%s(%zu, align %zu): usable size %zu", en, req, align, us);
  if (cap) VX_CHECK(cap == us, "%s(%zu, align %zu): capacity %zu but usable size %zu", en, req, align, cap, us);
  VX_CHECK(nblk < kMaxBlocks, "harness error: too many blocks");
  int at = lower(p);
  if (at < nblk)
    VX_CHECK(p + us <= blk[order[at]].p && p != blk[order[at]].p,
             "%s(%zu): block [%p,+%zu) overlaps live block [%p,+%zu)", en, req, p, us,
             blk[order[at]].p, blk[order[at]].usable);
  if (at > 0)
    VX_CHECK(blk[order[at - 1]].p + blk[order[at - 1]].usable <= p,
             "%s(%zu): block [%p,+%zu) overlaps live block [%p,+%zu)", en, req, p, us,
             blk[order[at - 1]].p, blk[order[at - 1]].usable);
  memmove(order + at + 1, order + at, (nblk - at) * sizeof(int));
  order[at] = nblk;
  blk[nblk] = {p, req, us, align, entry, ++next_id};
  if (do_fill) fill(blk[nblk]);
  return nblk++;
}
inline void forget(int i) {
  int at = lower(blk[i].p);
  VX_CHECK(order[at] == i, "harness error: model");
  memmove(order + at, order + at + 1, (nblk - at - 1) * sizeof(int));
  --nblk;
  if (i != nblk) {
    int at2 = 0;
    // position of the moved block (nblk entries remain)
    for (at2 = 0; at2 < nblk; ++at2)
      if (order[at2] == nblk) break;
    blk[i] = blk[nblk];
    order[at2] = i;
  }
}
// Keeps the order of blk[] (used where "oldest" matters): linear.
inline void forget_ordered(int i) {
  int at = lower(blk[i].p);
  memmove(order + at, order + at + 1, (nblk - at - 1) * sizeof(int));
  memmove(blk + i, blk + i + 1, (nblk - i - 1) * sizeof(Block));
  --nblk;
  for (int k = 0; k < nblk; ++k)
    if (order[k] > i) order[k]--;
}

inline int do_alloc(int entry, size_t size, size_t align = 0) {
  const Alloc& a = kAllocs[entry];
  if (!a.aligned) align = 0;
  Got g = a.fn({size, align});
  if (a.zeroed && g.p)
    for (size_t o = 0; o < size; o += (size > 4096 && o + 64 < size ? 61 : 1))
      if (static_cast<char*>(g.p)[o] != 0) vx::fail("%s(%zu): byte %zu is not zero", a.name, size, o);
  return adopt(g.p, size, align, entry, g.cap);
}
inline bool free_matches(const Free& f, const Block& b) {
  const Alloc& a = kAllocs[b.entry];
  if (!(f.fams & (1 << a.fam))) return false;
  if (a.fam == kMallocFam) {
    // free() takes anything; the sized forms depend on how it was requested
    if (f.need_aligned == -1) return true;
    return f.need_aligned == (b.align ? 1 : 0);
  }
  return f.need_aligned == -1 || f.need_aligned == (b.align ? 1 : 0);
}
// Releases block i with function f, stating `size` for the sized forms.
inline void do_free(int i, int f, bool ordered, size_t size) {
  Block b = blk[i];
  verify(b);
  if (ordered) forget_ordered(i); else forget(i);
  kFrees[f].fn(b.p, size, b.align ? b.align : 8);
}
inline int default_free(const Block& b) {
  for (int f = 0; f < kNumFrees; ++f)
    if (!kFrees[f].sized && free_matches(kFrees[f], b)) return f;
  vx::fail("harness error: nothing frees %s", kAllocs[b.entry].name);
}
inline void free_any(int i, bool ordered = false) {
  do_free(i, default_free(blk[i]), ordered, blk[i].req);
}
inline void free_all() {
  while (nblk) free_any(nblk - 1);
}

// ---- configuration ------------------------------------------------------------
inline bool g_percpu;
inline bool g_inited_child;
inline int g_cpus[64];
inline int g_ncpus;

inline void pin(int k) {
  cpu_set_t s;
  CPU_ZERO(&s);
  CPU_SET(g_cpus[k % g_ncpus], &s);
  sched_setaffinity(0, sizeof s, &s);
}

// Is rseq usable for us (glibc's own registration turned off)?
inline bool rseq_possible() {
  const char* t = getenv("GLIBC_TUNABLES");
  return t && strstr(t, "rseq=0");
}

// Call at the start of every body; does its work once per child process.
inline void init(int64_t sampling = 0) {
  if (g_inited_child) return;
  g_inited_child = true;
  prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);  // keep first touches cheap
  cpu_set_t s;
  sched_getaffinity(0, sizeof s, &s);
  for (int c = 0; c < CPU_SETSIZE && g_ncpus < 64; ++c)
    if (CPU_ISSET(c, &s)) g_cpus[g_ncpus++] = c;
  int t[64];
  memcpy(t, g_cpus, sizeof t);
  for (int c = 0; c < g_ncpus; ++c) g_cpus[c] = t[(c + vx::g_lane) % g_ncpus];
  MallocExtension::SetProfileSamplingInterval(sampling);
  MallocExtension::SetGuardedSamplingInterval(-1);
  // let the per-thread sampler pick up the interval
  for (int i = 0; i < 3; ++i) {
    void* p = malloc(1 << 20);
    free(p);
  }
  // (the first point is drawn with the default interval of 2 MiB: go past it)
  for (int i = 0; i < 2000; ++i) free(malloc(64 << 10));
  g_percpu = MallocExtension::PerCpuCachesActive();
  if (rseq_possible() && getenv("VERIF_NEED_RSEQ"))
    VX_CHECK(g_percpu, "per-CPU caches are not active although rseq is available");
}

// ---- the background loop, one round at a time -------------------------------
// The loop sleeps between rounds through this (weak in Abseil) function; ours
// runs `bg_between`, which by default ends the loop.
inline void (*bg_between)() = nullptr;
inline void background_once() {
  MallocExtension::SetBackgroundProcessSleepInterval(absl::ZeroDuration());  // every action, every round
  MallocExtension::SetBackgroundProcessActionsEnabled(true);
  MallocExtension::ProcessBackgroundActions();
}
}  // namespace e2e
extern "C" inline __attribute__((used)) void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration) {
  if (e2e::bg_between) e2e::bg_between();
  else e2e::MallocExtension::SetBackgroundProcessActionsEnabled(false);
}
namespace e2e {

// ---- a helper thread that runs closures (for cross-thread operations) -------
struct Helper {
  pthread_t t;
  std::atomic<int> state{0};  // 0 idle, 1 work, 2 done, 3 quit
  void (*fn)(void*);
  void* arg;
  bool alive = false;
};
inline void fwait(std::atomic<int>* a, int v) {
  syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
inline void fwake(std::atomic<int>* a) {
  syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0);
}
inline void* helper_main(void* v) {
  Helper* h = static_cast<Helper*>(v);
  for (;;) {
    int s;
    while ((s = h->state.load()) != 1 && s != 3) fwait(&h->state, s);
    if (s == 3) return nullptr;
    h->fn(h->arg);
    h->state.store(2);
    fwake(&h->state);
  }
}
inline void helper_start(Helper& h) {
  if (h.alive) return;
  h.state.store(0);
  if (pthread_create(&h.t, nullptr, helper_main, &h)) vx::fail("harness error: pthread_create");
  h.alive = true;
}
inline void helper_run(Helper& h, void (*fn)(void*), void* arg) {
  helper_start(h);
  h.fn = fn;
  h.arg = arg;
  h.state.store(1);
  fwake(&h.state);
  int s;
  while ((s = h.state.load()) != 2) fwait(&h.state, s);
  h.state.store(0);
}
inline void helper_stop(Helper& h) {
  if (!h.alive) return;
  h.state.store(3);
  fwake(&h.state);
  pthread_join(h.t, nullptr);
  h.alive = false;
}

}  // namespace e2e
#endif  // VERIF_E2E_H_

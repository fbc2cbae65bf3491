// C20: the metadata arena over a modelled system allocator, and the metadata
// object allocator over an arena: histories, inputs and schedules.
#include <sys/mman.h>

#include "lib/mc.h"
#include "tcmalloc/arena.h"
#include "tcmalloc/common.h"
#include "tcmalloc/metadata_object_allocator.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
typedef uintptr_t u;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
std::atomic<bool> Parameters::back_small_allocations_{false};
std::atomic<int32_t> Parameters::back_size_threshold_bytes_{0};
}

// ---- the modelled system allocator ----
struct Region { u a, e, top; };
static Region regions[400];
static int nregions;
static char* pool;
static u pool_at;
static int extra;      // how much more than asked for the system gives
static size_t asked, asked_align, granted;
static const int kBlocks = 600;
struct Got { u a, e; };
static Got got_[kBlocks];
static int ngot;
static void reset_world() {
  if (!pool) {
    pool = static_cast<char*>(mmap(nullptr, 1ul << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    pool = reinterpret_cast<char*>((reinterpret_cast<u>(pool) + (1 << 22)) >> 22 << 22);
  }
  pool_at = reinterpret_cast<u>(pool);
  nregions = ngot = 0;
  granted = 0;
  extra = 0;
}
AddressRange sys_allocate(void* self, size_t bytes, size_t align, int tag) asm("_ZN8tcmalloc17tcmalloc_internal15SystemAllocatorINS0_12NumaTopologyILm1ELm86EEELm2EE8AllocateEmmNS0_9MemoryTagE");
AddressRange sys_allocate(void* self, size_t bytes, size_t align, int tag) {
  mc::Off o;
  VX_CHECK(tag == (int)MemoryTag::kMetadata, "metadata asked for with tag %d", tag);
  VX_CHECK(align && !(align & (align - 1)), "alignment %zu asked for", align);
  asked = bytes;
  asked_align = align;
  pool_at = (pool_at + align - 1) / align * align;
  size_t n = (bytes + 4095) / 4096 * 4096 + extra * 4096;
  if (nregions == 400 || pool_at + n > reinterpret_cast<u>(pool) + (1ul << 31)) vx::fail("harness error: regions");
  regions[nregions++] = {pool_at, pool_at + n, pool_at};
  granted += n;
  void* p = reinterpret_cast<void*>(pool_at);
  pool_at += n + (extra ? 4096 : 0);  // sometimes the next region is adjacent
  return {p, n};
}
void sys_back(void* self, void*, size_t) asm("_ZN8tcmalloc17tcmalloc_internal15SystemAllocatorINS0_12NumaTopologyILm1ELm86EEELm2EE4BackEPvm");
void sys_back(void* self, void*, size_t) {}

static void record(void* p, size_t bytes, size_t align) {
  u a = reinterpret_cast<u>(p);
  VX_CHECK(p && a % align == 0, "%zu bytes aligned to %zu: got %p", bytes, align, p);
  bool in = false;
  for (int i = 0; i < nregions; ++i) in |= a >= regions[i].a && a + bytes <= regions[i].e;
  VX_CHECK(in, "%zu bytes at %p: outside the memory obtained from the system", bytes, p);
  for (int i = 0; i < ngot; ++i) VX_CHECK(a + bytes <= got_[i].a || got_[i].e <= a || bytes == 0, "%zu bytes at %p overlap an earlier block of %zu", bytes, p, got_[i].e - got_[i].a);
  if (ngot == kBlocks) vx::fail("harness error: blocks");
  got_[ngot++] = {a, a + bytes};
  if (bytes) memset(p, 0x6b, bytes < 64 ? bytes : 64), static_cast<char*>(p)[bytes - 1] = 0x6b;
}
static void balance(const ArenaStats& s, long adj_alloc, long adj_non) {
  VX_CHECK((long)(s.bytes_allocated + s.bytes_unallocated + s.bytes_unavailable) - adj_alloc == (long)granted, "%zu allocated + %zu unallocated + %zu unavailable is not the %zu obtained", s.bytes_allocated, s.bytes_unallocated, s.bytes_unavailable, granted);
  VX_CHECK((long)s.bytes_nonresident == adj_non, "%zu bytes nonresident, should be %ld", s.bytes_nonresident, adj_non);
  VX_CHECK((int)s.blocks == nregions, "%zu blocks, %d were obtained", s.blocks, nregions);
  long in_use = 0;
  for (int i = 0; i < ngot; ++i) in_use += got_[i].e - got_[i].a;
  VX_CHECK((long)s.bytes_allocated - adj_alloc >= in_use, "%zu bytes allocated, %ld are in use", s.bytes_allocated, in_use);
}
static const size_t kSizes[] = {1, 7, 8, 24, 64, sizeof(Span), 4096, 65536, (128 << 10) - 100, (128 << 10), (128 << 10) + 1, 300000};
static const size_t kAligns[] = {1, 8, 64, 4096, 1 << 18};

static void one(Arena& a, size_t bytes, size_t align, long& waste) {
  ArenaStats s0 = a.stats();
  int r0 = nregions;
  void* p = a.Alloc(bytes, static_cast<std::align_val_t>(align));
  mc::Off o;
  record(p, bytes, align);
  ArenaStats s = a.stats();
  long pad = (long)s.bytes_allocated - (long)s0.bytes_allocated - (long)bytes;
  VX_CHECK(pad >= 0 && pad < (long)align, "%zu bytes aligned to %zu count as %ld", bytes, align, (long)bytes + pad);
  // what the pad covers really lies just before the block
  VX_CHECK(nregions - r0 <= 1, "%d regions for one block", nregions - r0);
  if (nregions > r0) {
    VX_CHECK(asked >= bytes && asked >= (128 << 10) && asked_align >= align, "the system was asked for %zu bytes at %zu to hold %zu at %zu", asked, asked_align, bytes, align);
    VX_CHECK(s0.freelist_blocks + 1 >= s.freelist_blocks, "free-list blocks grew from %zu to %zu", s0.freelist_blocks, s.freelist_blocks);
  }
  long lost = (long)s.bytes_unavailable - (long)s0.bytes_unavailable;
  VX_CHECK(lost >= 0 && (s0.freelist_blocks == 100 || lost < (long)(sizeof(Span) + 16)), "%ld bytes were given up", lost);
  VX_CHECK(s.freelist_blocks <= 100, "%zu blocks on the free list", s.freelist_blocks);
  waste += pad;
}
static Arena* fresh_arena() {
  alignas(64) static char raw[sizeof(Arena)];
  return new (raw) Arena();
}
static void arena_history() {
  reset_world();
  Arena& a = *fresh_arena();
  extra = choose(3);
  int depth = vx::thorough() ? 4 : 3;
  long waste = 0, adj_a = 0, adj_n = 0;
  balance(a.stats(), 0, 0);
  for (int d = 0; d < depth; ++d) {
    int s = choose(13);
    if (s == 12) {
      long n = a.stats().bytes_allocated;
      long k = n / 2;
      bool back = adj_n > 0 && choose(2);
      if (back) k = -adj_n;
      a.UpdateAllocatedAndNonresident(-k, k);
      adj_a -= k;
      adj_n += k;
      vx::op("%ld bytes become nonresident", k);
    } else {
      int al = choose(s < 8 ? 5 : 3);
      one(a, kSizes[s], kAligns[al], waste);
      vx::op("%zu at %zu", kSizes[s], kAligns[al]);
    }
    vx::step();
    balance(a.stats(), adj_a, adj_n);
    uint64_t h = extra;
    for (int i = 0; i < ngot; ++i) h = vx::mix(h, got_[i].a - (u)pool);
    vx::state(vx::mix(h, adj_n));
  }
  // small requests fill what is left before the system is asked again
  ArenaStats s = a.stats();
  size_t left = s.bytes_unallocated;
  int r0 = nregions;
  size_t filled = 0;
  while (nregions == r0 && ngot < kBlocks - 1) {
    void* p = a.Alloc(sizeof(Span), std::align_val_t(8));
    if (nregions > r0) break;
    record(p, sizeof(Span), 8);
    filled += sizeof(Span);
    if (filled > 20000) break;  // enough
  }
  if (nregions > r0) VX_CHECK(left - filled < (sizeof(Span) + 8) * (1 + s.freelist_blocks), "the system was asked for more with %zu bytes left of %zu in %zu blocks", left - filled, left, s.freelist_blocks);
}
// Left-overs: fill the free list to its limit and beyond, then use it up.
static void leftovers() {
  reset_world();
  Arena& a = *fresh_arena();
  int keep = choose(5), fill = choose(3);
  static const size_t kLeft[] = {8, sizeof(Span), sizeof(Span) + 8, 1000, 40000};
  long waste = 0;
  int n = 20 + choose(2) * 10;
  for (int i = 0; i < n; ++i) {
    one(a, (128 << 10) - kLeft[keep] - i % 3, 1, waste);
    balance(a.stats(), 0, 0);
    vx::step();
  }
  ArenaStats s = a.stats();
  if (kLeft[keep] >= sizeof(Span) + 10) VX_CHECK((int)s.freelist_blocks == n - 1, "%zu left-overs kept of %d", s.freelist_blocks, n - 1);
  size_t piece = fill == 0 ? sizeof(Span) : fill == 1 ? 900 : 39000;
  int r0 = nregions;
  for (int i = 0; i < n && piece + 10 < kLeft[keep]; ++i) {
    one(a, piece, 8, waste);
    balance(a.stats(), 0, 0);
  }
  if (piece + 10 < kLeft[keep]) VX_CHECK(nregions == r0, "left-overs were not used");
  vx::state(keep * 10 + fill);
}
// More left-overs than the list may hold (its count has eight bits).
static void limit() {
  reset_world();
  Arena& a = *fresh_arena();
  int n = choose(2) ? 280 : 110;
  size_t left = choose(2) ? 20000 : 200;
  long waste = 0;
  for (int i = 0; i < n; ++i) {
    one(a, (128 << 10) - left, 1, waste);
    balance(a.stats(), 0, 0);
  }
  VX_CHECK(a.stats().freelist_blocks == 100, "%zu left-overs of %d are kept", a.stats().freelist_blocks, n);
  int r0 = nregions;
  for (int i = 0; i < 90; ++i) {
    one(a, left - 80, 8, waste);
    balance(a.stats(), 0, 0);
  }
  VX_CHECK(nregions == r0, "kept left-overs were not used");
  vx::state(n + left);
}

// ---- objects ----
template <int N>
struct Obj {
  static int born, died;
  char b[N];
  explicit Obj(int v) {
    memset(b, v, N);
    mc::Off o;
    ++born;
  }
  ~Obj() {
    mc::Off o;
    ++died;
  }
};
template <int N> int Obj<N>::born;
template <int N> int Obj<N>::died;
template <int N>
static void objects_of(int which) {
  reset_world();
  typedef Obj<N> T;
  T::born = T::died = 0;
  Arena& a = *fresh_arena();
  MetadataObjectAllocator<T> m(a);
  T* live[40];
  int val[40];
  int n = 0, total = 0, ever = 0;
  T* all[40];
  int depth = vx::thorough() ? 12 : 9;
  for (int d = 0; d < depth; ++d) {
    int o = choose(4);
    if (o == 0) {
      int v = 1 + d;
      T* p = m.New(v);
      u x = reinterpret_cast<u>(p);
      VX_CHECK(x % alignof(T) == 0, "object at %p", p);
      for (int i = 0; i < n; ++i) VX_CHECK(x + N <= (u)live[i] || (u)live[i] + N <= x, "a metadata object at %p overlaps a live one at %p", p, live[i]);
      bool known = false;
      for (int i = 0; i < ever; ++i) known |= all[i] == p;
      bool in = false;
      for (int i = 0; i < nregions; ++i) in |= x >= regions[i].a && x + N <= regions[i].e;
      VX_CHECK(in, "a metadata object outside the arena");
      bool expect_reuse = n < total;
      VX_CHECK(known == expect_reuse, "%d objects of %d in use: the new one is %s", n, total, known ? "an old one" : "carved afresh");
      if (!known) all[ever++] = p, ++total;
      val[n] = v;
      live[n++] = p;
      vx::op("new");
    } else {
      if (!n) return;
      int k = o == 1 ? n - 1 : o == 2 ? 0 : n / 2;
      T* p = live[k];
      for (int i = k; i + 1 < n; ++i) live[i] = live[i + 1], val[i] = val[i + 1];
      --n;
      m.Delete(p);
      vx::op("delete %d", k);
    }
    for (int i = 0; i < n; ++i)
      for (int q = 0; q < N; ++q) VX_CHECK(live[i]->b[q] == (char)val[i], "a live metadata object was overwritten");
    AllocatorStats s = m.stats();
    VX_CHECK((int)s.in_use == n && (int)s.total == total, "%zu of %zu objects in use reported, it is %d of %d", s.in_use, s.total, n, total);
    VX_CHECK(T::born - T::died == n, "%d constructed, %d destroyed, %d live", T::born, T::died, n);
    ArenaStats as = a.stats();
    VX_CHECK(as.bytes_allocated >= (size_t)total * N && as.bytes_allocated <= (size_t)total * (N + alignof(T) + 8), "%zu arena bytes for %d objects of %d", as.bytes_allocated, total, N);
    vx::step();
    vx::state(vx::mix(vx::mix(n, total), which));
  }
}
static void objects() {
  int w = choose(4);
  if (w == 0) objects_of<8>(0);
  if (w == 1) objects_of<16>(1);
  if (w == 2) objects_of<56>(2);
  if (w == 3) objects_of<4104>(3);
}

// ---- schedules ----
static void threads() {
  reset_world();
  typedef Obj<16> T;
  Arena& a = *fresh_arena();
  MetadataObjectAllocator<T> m(a);
  int st = choose(4);
  T* pre[3] = {};
  if (st & 1) {  // little room left
    record(a.Alloc((128 << 10) - 48, std::align_val_t(8)), (128 << 10) - 48, 8);
  }
  for (auto& p : pre) p = m.New(5);
  if (st & 2) m.Delete(pre[2]), pre[2] = nullptr;
  int total0 = m.stats().total, inuse0 = m.stats().in_use, dlt = 0;
  mc::reset();
  struct Mine { T* p[4]; int n; };
  Mine mine[3] = {{{pre[0]}, 1}, {{pre[1]}, 1}, {{}, 0}};
  auto op = [&](int t, int k) {
    Mine& y = mine[t];
    if (k == 0) {
      T* p = m.New(10 + t);
      mc::Off o;
      y.p[y.n++] = p;
      ++dlt;
    } else if (k == 1) {
      if (!y.n) return;
      T* p = y.p[--y.n];
      m.Delete(p);
      mc::Off o;
      --dlt;
    } else if (k == 2 || k == 3) {
      size_t n = k == 2 ? 24 : 70000;
      void* p = a.Alloc(n, std::align_val_t(8));
      mc::Off o;
      record(p, n, 8);
    } else if (k == 4) {
      AllocatorStats s = m.stats();
      ArenaStats as = a.stats();
      mc::Off o;
      VX_CHECK(s.in_use <= s.total && s.total <= 12, "%zu objects of %zu in use", s.in_use, s.total);
      VX_CHECK(as.bytes_allocated + as.bytes_unallocated + as.bytes_unavailable <= granted, "the arena's figures exceed what it obtained");
    } else if (k == 5) {
      a.UpdateAllocatedAndNonresident(-8, 8);
      a.UpdateAllocatedAndNonresident(8, -8);
    }
  };
  static const int kS[][2] = {{0, 1}, {1, 0}, {2, 3}, {3, 0}, {4, 2}, {5, 0}};
  int x = choose(6), y = choose(6), z = choose(6);
  auto ta = [&] { op(0, kS[x][0]); op(0, kS[x][1]); };
  auto tb = [&] { op(1, kS[y][0]); op(1, kS[y][1]); };
  auto tc = [&] { op(2, kS[z][0]); };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 4 : 3;
#ifndef NDEBUG
  c.preempt = vx::thorough() ? 2 : 1;  // the assertions add many points
#endif
  mc::go(c);
  balance(a.stats(), 0, 0);
  AllocatorStats s = m.stats();
  VX_CHECK((int)s.in_use == inuse0 + dlt && (int)s.total >= total0 && s.total >= s.in_use, "%zu of %zu objects in use, expected %d", s.in_use, s.total, inuse0 + dlt);
  u all[16];
  int n = 0;
  if (pre[2]) all[n++] = (u)pre[2];
  for (auto& q : mine)
    for (int i = 0; i < q.n; ++i) all[n++] = (u)q.p[i];
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) VX_CHECK(all[i] != all[j], "a metadata object was handed out twice");
    for (int k = 0; k < ngot; ++k) VX_CHECK(all[i] + 16 <= got_[k].a || got_[k].e <= all[i], "a metadata object overlaps an arena block");
  }
  vx::state(vx::mix(st * 1000 + x * 100 + y * 10 + z, s.total));
}

static const vx::Scenario kScenarios[] = {
    {"arena", arena_history, 20000},
    {"leftovers", leftovers, 10},
    {"limit", limit, 1},
    {"objects", objects, 20000},
    {"threads", threads, 50000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, sizeof kScenarios / sizeof kScenarios[0]);
}

// C13: management of the per-CPU caches conserves objects and capacity.
// The real CpuCache over a backing cache that knows where every object is;
// the harness plays the kernel (CPU numbers, membarrier, madvise), so every
// history of local and background operations on 2-9 CPUs can be run, threads
// move between CPUs wherever the cache calls out, and (compiled with
// scheduling points) threads are preempted at every atomic access.
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>
#include <vector>
#include "lib/explore.h"
#ifdef VERIF_MC
#include "lib/mc.h"
#endif
#include "tcmalloc/cpu_cache.h"
#include "tcmalloc/experiment.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
using vx::choose;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
#ifndef NCPU
#define NCPU 3
#endif
namespace tcmalloc {
bool IsExperimentActive(Experiment) { return false; }
namespace tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
namespace sysinfo_internal {
std::optional<int> NumPossibleCPUsNoCache() { return NCPU; }
}
class CpuCachePeer {
 public:
  template <typename C> static size_t len(const C& c, int cpu, size_t cls) { return c.freelist_.Length(cpu, cls); }
  template <typename C> static uint8_t shift(const C& c) { return c.freelist_.GetShift(); }
};
}
}

// ---- the kernel ------------------------------------------------------------------
struct Tls { int vcpu; unsigned slabs_low; char rseq[32]; };
static Tls* live() { return (Tls*)(void*)&tcmalloc_cached_vcpu; }
static void resched(Tls* t, int cpu) {  // back to user mode on this CPU
  kernel_rseq* a = (kernel_rseq*)t->rseq;
  a->rseq_cs = 0;
  a->cpu_id_start = cpu;
  a->cpu_id = cpu;
  a->mm_cid = cpu;
}
static int g_cpu;
static void be(int cpu) { g_cpu = cpu; resched(live(), cpu); }
static void fence_others(int cpu);
static int g_madvise_fail, g_madvise_calls;  // which call fails, and how
static long g_away;
extern "C" long __real_syscall(long, ...);
extern "C" long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr == __NR_rseq) return 0;
  if (nr == __NR_membarrier) {
    if ((int)a == 1 << 8) return 0;
    VX_CHECK((int)a == 1 << 7, "membarrier command %ld", a);
    fence_others(((int)b & 1) && (int)c >= 0 ? (int)c : -1);
    return 0;
  }
  return __real_syscall(nr, a, b, c, d, e, f);
}
extern "C" int __real_madvise(void*, size_t, int);
extern "C" int __wrap_madvise(void* p, size_t n, int advice) {
  if (advice != MADV_DONTNEED) return 0;
  if (++g_madvise_calls == (g_madvise_fail & 15)) {
    if (g_madvise_fail & 16) { errno = EAGAIN; return -1; }
    errno = EINVAL;
    return -1;
  }
  g_away += n;
  return __real_madvise(p, n, advice);
}
extern "C" int __wrap_munlock(const void*, size_t) { return 0; }

// ---- objects ---------------------------------------------------------------------
enum Where : unsigned char { kBacking, kHand, kCached };
static const int kMaxObj = 2000, kClasses = 4;
static const int kId[kClasses] = {1, 12, 13, 14};
static size_t g_size[kClasses] = {8, 64, 128, 160}, g_batch[kClasses] = {4, 2, 1, 2};
alignas(64) static char g_obj[kClasses][kMaxObj][16];
static Where g_at[kClasses][kMaxObj];
static int g_pool[kClasses][kMaxObj], g_npool[kClasses];
static int g_hand[kClasses][kMaxObj], g_nhand[kClasses];
static int g_supply;       // 0 plenty, 1 none, 2 one less than asked for
static int g_moves;        // times a thread may be moved where the cache calls out
static bool g_local;       // a local operation is running
static int slot(size_t cls) {
  for (int i = 0; i < kClasses; ++i)
    if ((size_t)kId[i] == cls) return i;
  return -1;
}
static int obj(int c, void* p, const char* how) {
  size_t d = (char*)p - &g_obj[c][0][0];
  VX_CHECK(d < sizeof g_obj[c] && d % 16 == 0, "%p comes out (%s) of class %d and was never put in there", p, how, kId[c]);
  return d / 16;
}
static void callout();

static char* g_mem;
static const size_t kMem = size_t{NCPU} << 23;
static size_t g_used, g_start;  // g_start: where slabs come to lie in huge pages
static bool g_dynamic, g_release, g_wide, g_hooks;
static unsigned g_parts = 1;
static double g_grow, g_shrink;

struct Sharded {
  static bool should_use(size_t) { return false; }
  static void* Pop(size_t) { vx::fail("the sharded cache is not in use"); }
  static void Push(size_t, void*) { vx::fail("the sharded cache is not in use"); }
  static int RemoveRange(size_t, absl::Span<void*>) { vx::fail("the sharded cache is not in use"); }
  static void InsertRange(size_t, absl::Span<void*>) { vx::fail("the sharded cache is not in use"); }
};
struct Numa {
  static bool numa_aware() { return false; }
};
struct Backing {
  int RemoveRange(size_t cls, absl::Span<void*> b) {
    callout();
    int r;
    {
#ifdef VERIF_MC
      mc::Off off;
#endif
      int c = slot(cls);
      VX_CHECK(c >= 0 && b.size() > 0 && b.size() <= kMaxObjectsToMove, "%zu objects of class %zu are asked for", b.size(), cls);
      int n = g_supply == 1 ? 0 : g_supply == 2 ? (int)b.size() - 1 : (int)b.size();
      if (n > g_npool[c]) n = g_npool[c];
      for (int i = 0; i < n; ++i) {
        int k = g_pool[c][--g_npool[c]];
        VX_CHECK(g_at[c][k] == kBacking, "harness error");
        g_at[c][k] = kCached;
        b[i] = g_obj[c][k];
      }
      r = n;
    }
    callout();
    return r;
  }
  void InsertRange(size_t cls, absl::Span<void*> b) {
    callout();
    {
#ifdef VERIF_MC
      mc::Off off;
#endif
      int c = slot(cls);
      VX_CHECK(c >= 0 && b.size() > 0 && b.size() <= kMaxObjectsToMove, "%zu objects of class %zu are handed back", b.size(), cls);
      for (void* p : b) {
        int k = obj(c, p, "handed back");
        VX_CHECK(g_at[c][k] == kCached, "an object that is %s is handed back", g_at[c][k] == kHand ? "in use" : "already handed back");
        g_at[c][k] = kBacking;
        g_pool[c][g_npool[c]++] = k;
      }
    }
    callout();
  }
};
static Sharded g_sharded;
static Numa g_numa;
static Backing g_backing;
static size_t g_cold[2] = {12, 13};

struct Fwd {
  static void* Alloc(size_t n, std::align_val_t al) {
    size_t a = (size_t)al;
    g_used = (g_used + a - 1) & ~(a - 1);
    void* p = g_mem + g_used;
    g_used += n;
    VX_CHECK(g_used <= kMem, "harness error: out of memory");
    return p;
  }
  static void* AllocReportedImpending(size_t n, std::align_val_t al) { return Alloc(n, al); }
  static void Dealloc(void*, size_t, std::align_val_t) {}
  static void SetAnonVmaName(void*, size_t, std::optional<absl::string_view>) {}
  static void ArenaUpdateAllocatedAndNonresident(int64_t, int64_t) {}
  static bool per_cpu_caches_dynamic_slab_enabled() { return g_dynamic; }
  static double per_cpu_caches_dynamic_slab_grow_threshold() { return g_grow; }
  static double per_cpu_caches_dynamic_slab_shrink_threshold() { return g_shrink; }
  static bool release_drained_slab_metadata() { return g_release; }
  static bool reuse_size_classes() { return true; }
  static size_t class_to_size(int cls) {
    int c = slot(cls);
    return c < 0 ? 0 : g_size[c];
  }
  static absl::Span<const size_t> cold_size_classes() { return g_cold; }
  static size_t num_objects_to_move(int cls) {
    int c = slot(cls);
    return c < 0 ? 0 : g_batch[c];
  }
  static const Numa& numa_topology() { return g_numa; }
  static Sharded& sharded_transfer_cache() { return g_sharded; }
  static Backing& transfer_cache() { return g_backing; }
  static bool UseGenericShardedCache() { return false; }
  static bool UseShardedCacheForLargeClassesOnly() { return false; }
  static bool UseWiderSlabs() { return g_wide; }
  static bool HaveHooks() { return g_hooks; }
  static unsigned active_partitions() { return g_parts; }
  static bool multiple_non_numa_partitions() { return false; }
};
using Cache = cpu_cache_internal::CpuCache<Fwd>;
alignas(64) static char g_cache_mem[sizeof(Cache)];
static Cache* g_c;
static size_t g_limit;

static void setup(size_t limit, bool dynamic = true, bool wide = true, unsigned parts = 1) {
  g_size[0] = 8;
  g_dynamic = dynamic;
  g_wide = wide;
  g_parts = parts;
  g_release = g_hooks = false;
  g_grow = 1e18;
  g_shrink = -1;
  g_supply = g_moves = 0;
  g_local = false;
  g_madvise_fail = g_madvise_calls = 0;
  g_away = 0;
  if (!g_mem) {
    g_mem = (char*)mmap((void*)0x300000000000, kMem, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    VX_CHECK(g_mem == (char*)0x300000000000, "harness error: mmap");
    vcpu_mode = RseqVcpuMode::kNone;
    ((kernel_rseq*)live()->rseq)->cpu_id = kCpuIdUninitialized;
    VX_CHECK(IsFast(), "the restartable sequences were not set up");
  } else {
    __real_madvise(g_mem, kMem, MADV_DONTNEED);
  }
  g_used = g_start;
  memset((void*)live(), 0, sizeof(Tls));
  be(0);
  for (int c = 0; c < kClasses; ++c) {
    g_npool[c] = g_nhand[c] = 0;
    for (int k = kMaxObj; k-- > 0;) {
      g_at[c][k] = kBacking;
      g_pool[c][g_npool[c]++] = k;
    }
  }
  g_c = new (g_cache_mem) Cache();
  g_limit = limit;
  g_c->SetCacheLimit(limit);
  g_c->Activate();
}

// ---- local operations ---------------------------------------------------------------
static void alloc(int c) {
  g_local = true;
  void* p = g_c->Allocate(kId[c]);
  g_local = false;
  if (!p) {
    VX_CHECK(g_supply, "an allocation of class %d fails although the backing cache has objects", kId[c]);
    return;
  }
  int k = obj(c, p, "allocated");
  VX_CHECK(g_at[c][k] == kCached, "an allocation returns an object that is %s", g_at[c][k] == kHand ? "in use" : "in the backing cache");
  g_at[c][k] = kHand;
  g_hand[c][g_nhand[c]++] = k;
}
static void dealloc(int c) {
  if (!g_nhand[c]) {  // one that comes from elsewhere
    int k = g_pool[c][--g_npool[c]];
    g_hand[c][g_nhand[c]++] = k;
  }
  int k = g_hand[c][--g_nhand[c]];
  g_at[c][k] = kCached;
  g_local = true;
  g_c->Deallocate(g_obj[c][k], kId[c]);
  g_local = false;
}

// Between operations: everything adds up.
static void check() {
  size_t all = 0;
  uint8_t shift = CpuCachePeer::shift(*g_c);
  for (int cpu = 0; cpu < NCPU; ++cpu) {
    size_t used = 0, cap_bytes = 0;
    bool pop = g_c->HasPopulated(cpu);
    for (int c = 0; c < kClasses; ++c) {
      size_t len = CpuCachePeer::len(*g_c, cpu, kId[c]), cap = g_c->GetCapacityOfSizeClass(cpu, kId[c]), max = g_c->GetMaxCapacity(kId[c], shift);
      if (!pop) {
        continue;
      }
      VX_CHECK(len <= cap, "CPU %d caches %zu objects of class %d, capacity %zu", cpu, len, kId[c], cap);
      VX_CHECK(cap <= max, "the capacity of class %d on CPU %d is %zu, at most %zu", kId[c], cpu, cap, max);
      used += len * g_size[c];
      cap_bytes += cap * g_size[c];
    }
    VX_CHECK(g_c->UsedBytes(cpu) == used, "CPU %d: %zu bytes used are reported, %zu in the known classes", cpu, (size_t)g_c->UsedBytes(cpu), used);
    VX_CHECK(g_c->Allocated(cpu) == cap_bytes, "CPU %d: %zu bytes allocated are reported, %zu in the known classes", cpu, (size_t)g_c->Allocated(cpu), cap_bytes);
    VX_CHECK(g_c->Allocated(cpu) + g_c->Unallocated(cpu) == g_c->Capacity(cpu), "CPU %d: %zu bytes given to classes and %zu free do not make up its capacity of %zu", cpu, (size_t)g_c->Allocated(cpu), (size_t)g_c->Unallocated(cpu), (size_t)g_c->Capacity(cpu));
    all += g_c->Capacity(cpu);
  }
  VX_CHECK(all == NCPU * g_limit, "the capacities of all CPUs add up to %zu instead of %zu", all, NCPU * g_limit);
  size_t bytes = 0;
  for (int c = 0; c < kClasses; ++c) {
    size_t in = kMaxObj - g_npool[c] - g_nhand[c];
    VX_CHECK(g_c->TotalObjectsOfClass(kId[c]) == in, "%zu objects of class %d are reported cached, there are %zu", (size_t)g_c->TotalObjectsOfClass(kId[c]), kId[c], in);
    bytes += in * g_size[c];
  }
  VX_CHECK(g_c->TotalUsedBytes() == bytes, "%zu bytes are reported cached, there are %zu", (size_t)g_c->TotalUsedBytes(), bytes);
}
static void drain(int cpu) {
  size_t had = g_c->UsedBytes(cpu);
  size_t n = g_c->Drain(cpu);
  VX_CHECK(n == had, "draining CPU %d reports %zu bytes, it had %zu", cpu, n, had);
  VX_CHECK(g_c->UsedBytes(cpu) == 0 && g_c->Allocated(cpu) == 0, "CPU %d is not empty after it was drained", cpu);
}
static void finish() {
  check();
  for (int cpu = 0; cpu < NCPU; ++cpu) drain(cpu);
  check();
  for (int c = 0; c < kClasses; ++c)
    VX_CHECK(g_npool[c] + g_nhand[c] == kMaxObj, "%d objects of class %d never came back", kMaxObj - g_npool[c] - g_nhand[c], kId[c]);
}

static void grow_slab() {
  uint8_t s = CpuCachePeer::shift(*g_c);
  g_grow = -1;
  g_c->ResizeSlabIfNeeded();
  g_grow = 1e18;
  VX_CHECK(CpuCachePeer::shift(*g_c) <= s + 1, "the slabs grew by more than one step");
}
static void shrink_slab() {
  g_shrink = 1e18;
  g_c->ResizeSlabIfNeeded();
  g_shrink = -1;
}
static const char* kBg[] = {"drain CPU 0", "drain CPU 1", "shuffle", "try draining", "resize classes", "resize maximum capacities", "grow slabs", "shrink slabs"};
static void background(int k) {
  vx::op("%s", kBg[k]);
  switch (k) {
    case 0: drain(0); break;
    case 1: drain(1); break;
    case 2: g_c->ShuffleCpuCaches(); break;
    case 3: g_c->TryDrainingCaches(); break;
    case 4: g_c->ResizeSizeClasses(); break;
    case 5: g_c->ResizeSizeClassMaxCapacities(); break;
    case 6: grow_slab(); break;
    case 7: shrink_slab(); break;
  }
}

#ifdef VERIF_MC
// Threads that share a CPU preempt each other; on different CPUs they run in
// parallel.
static const int kTh = 3;
static struct { int cpu; Tls* tls; } g_th[kTh];
static int g_owner[NCPU], g_nth;
static void went_on() {
  int me = mc::self();
  int& o = g_owner[g_th[me].cpu];
  g_th[me].tls = live();
  if (o == me) return;
  if (g_moves && choose(2)) {
    --g_moves;
    g_th[me].cpu = (g_th[me].cpu + 1) % 2;
    vx::op("thread %d goes on on CPU %d", me, g_th[me].cpu);
  }
  int& now = g_owner[g_th[me].cpu];
  if (o >= 0) mc::learn(me, o);
  if (now >= 0 && now != me) mc::learn(me, now);
  now = me;
  resched(live(), g_th[me].cpu);
}
static void fence_others(int cpu) {
  int me = mc::self();
  if (me < 0) return;
  mc::Off off;
  for (int t = 0; t < g_nth; ++t) {
    if (t == me) continue;
    if (cpu >= 0 && g_th[t].cpu != cpu) continue;
    mc::learn(t, me);
    mc::learn(me, t);
    if (g_owner[g_th[t].cpu] == t) resched(g_th[t].tls, g_th[t].cpu);
  }
}
static void callout() { mc::yield(); }
static int g_out[kTh][64], g_nout[kTh];
static void talloc(int c) {
  mc::yield();
  void* p = g_c->Allocate(kId[c]);
  mc::Off off;
  VX_CHECK(p, "an allocation of class %d fails although the backing cache has objects", kId[c]);
  int k = obj(c, p, "allocated");
  VX_CHECK(g_at[c][k] == kCached, "an allocation returns an object that is %s", g_at[c][k] == kHand ? "in use" : "in the backing cache");
  g_at[c][k] = kHand;
  g_hand[c][g_nhand[c]++] = k;
}
static void tdealloc(int c) {
  mc::yield();
  int k;
  {
    mc::Off off;
    if (!g_nhand[c]) {
      k = g_pool[c][--g_npool[c]];
      g_hand[c][g_nhand[c]++] = k;
    }
    k = g_hand[c][--g_nhand[c]];
    g_at[c][k] = kCached;
  }
  g_c->Deallocate(g_obj[c][k], kId[c]);
}
static const char* kLocal[] = {"allocate small", "free small", "allocate and free", "allocate medium twice", "free medium twice", "free 3 small, allocate 3"};
static void tlocal(int k) {
  switch (k) {
    case 0: talloc(0); break;
    case 1: tdealloc(0); break;
    case 2: talloc(1); tdealloc(1); break;
    case 3: talloc(1); talloc(1); break;
    case 4: tdealloc(1); tdealloc(1); break;
    case 5: tdealloc(0); tdealloc(0); tdealloc(0); talloc(0); talloc(0); talloc(0); break;
  }
}
static void fill(int cpu, int c, bool al, int n) {
  be(cpu);
  for (int i = 0; i < n; ++i) al ? alloc(c) : dealloc(c);
}
static void start(int p) {
  switch (p) {
    case 0: break;
    case 1: fill(0, 0, false, 9); fill(0, 1, false, 5); fill(1, 0, false, 2); break;
    case 2:
      fill(1, 1, false, 6); fill(1, 0, false, 20);
      for (int i = 0; i < 4; ++i) g_c->ShuffleCpuCaches();
      fill(0, 0, false, 30); fill(0, 0, true, 30);
      break;
    case 3:  // full, and idle since the last look
      fill(0, 1, false, 8); fill(0, 1, true, 8); fill(0, 0, false, 8); fill(1, 0, false, 3);
      g_c->TryDrainingCaches();
      break;
    case 4:  // no budget left on CPU 0, CPU 1 misses
      for (int i = 0; i < 4; ++i) { fill(0, 1, false, 10); fill(0, 1, true, 10); }
      fill(0, 0, false, 6);
      fill(0, 1, false, 4);
      for (int i = 0; i < 5; ++i) {
        fill(1, 0, false, 30); fill(1, 0, true, 30);
        g_c->ShuffleCpuCaches();
      }
      fill(1, 0, false, 30); fill(1, 0, true, 30);
      break;
  }
}
static int g_a, g_b;
static void run(mc::Cfg cfg, int cpu1) {
  g_th[0].cpu = 0;
  g_th[1].cpu = cpu1;
  for (int i = 0; i < NCPU; ++i) g_owner[i] = -1;
  g_nth = 2;
  mc::reset();
  mc::resumed = went_on;
  auto t0 = [] { tlocal(g_a); };
  auto t1 = [] {
    if (g_b < 6) { tlocal(g_b); return; }
    mc::yield();
    if (g_b == 12) {
      g_c->TryDrainingCaches();
      tlocal(2);
      return;
    }
    switch (g_b) {
      case 6: g_c->Drain(0); break;
      case 7: g_c->ShuffleCpuCaches(); break;
      case 8: g_c->TryDrainingCaches(); break;
      case 9: g_c->ResizeSizeClasses(); break;
      case 10: g_c->ResizeSizeClassMaxCapacities(); break;
      case 11: g_grow = -1; g_c->ResizeSlabIfNeeded(); break;
    }
  };
  mc::spawn(t0);
  mc::spawn(t1);
  cfg.max_steps = 50000;
  mc::go(cfg);
  mc::resumed = nullptr;
  g_grow = 1e18;
  be(2);
}
// A thread with local operations against another one, or against background
// work.  Scheduling points are the accesses to what both touch, as recorded
// from the two executions one after the other.
static void schedules() {
  int p = choose(5);
  int a = choose(6), b = choose(12), cpu1 = choose(2);
  if (b < 6 && cpu1 == 0 && b < a) return;
  g_a = a;
  g_b = b;
  static mc::Record* recs[5 * 6 * 12 * 2];
  mc::Record*& rec = recs[((p * 6 + a) * 12 + b) * 2 + cpu1];
  mc::Cfg cfg;
  if (!rec) {
    rec = new mc::Record();
    for (int first = 0; first < 2; ++first) {
      setup(p == 4 ? 216 : 640);
      start(p);
      g_moves = 0;
      cfg = mc::Cfg();
      cfg.preempt = 0;
      cfg.first = first;
      cfg.record = rec;
      run(cfg, cpu1);
    }
  }
  setup(p == 4 ? 216 : 640);
  start(p);
  vx::op("start %d; thread 0: %s; thread 1: %s", p, kLocal[a], b < 6 ? kLocal[b] : kBg[b - 6 + (b >= 7)]);
  g_moves = 1;
  cfg = mc::Cfg();
  cfg.preempt = vx::thorough() ? 2 : 1;
  cfg.only = rec;
  run(cfg, cpu1);
  finish();
}
#if NCPU > 4
// Drained CPUs lose their slabs while a thread uses one of them.
static void release_schedules() {
  int p = choose(3), a = choose(vx::thorough() ? 6 : 4), b = choose(2), cpu1 = choose(2) ? 5 : 0;
  g_a = a;
  g_b = b ? 12 : 8;
  static mc::Record* recs[3 * 6 * 2 * 2];
  mc::Record*& rec = recs[((p * 6 + a) * 2 + b) * 2 + !cpu1];
  for (int pass = rec ? 2 : 0; pass < 3; ++pass) {
    g_start = (3 << 19) + 4096;
    setup(640, false);
    g_release = true;
    if (p != 1) fill(0, 0, false, 9);
    fill(1, 0, false, 5);
    g_c->TryDrainingCaches();
    if (p == 0) {
      fill(1, 1, false, 3);
      g_c->TryDrainingCaches();
      VX_CHECK(g_c->UsedBytes(0) == 0 && g_c->HasPopulated(0), "harness error: CPU 0 is not as it should be");
    }
    mc::Cfg cfg;
    if (pass < 2) {
      if (!rec) rec = new mc::Record();
      g_moves = 0;
      cfg.preempt = 0;
      cfg.first = pass;
      cfg.record = rec;
      run(cfg, cpu1);
      VX_CHECK(pass == 0 || g_away, "harness error: nothing was released");
    } else {
      vx::op("start %d; thread 0: %s; thread 1: try draining%s", p, kLocal[a], b ? ", allocate and free" : "");
      g_moves = 1;
      cfg.preempt = vx::thorough() ? 2 : 1;
      cfg.only = rec;
      run(cfg, cpu1);
    }
  }
  finish();
}
#endif
#endif
#ifndef VERIF_MC
static void fence_others(int) {}
static void callout() {
  if (!g_local || !g_moves || !choose(2)) return;
  --g_moves;
  vx::op("  the thread is moved to CPU %d", (g_cpu + 1) % NCPU);
  be((g_cpu + 1) % NCPU);
}
static void local(int cpu, int c, bool al, int n) {
  vx::op("%s %d of class %d on CPU %d", al ? "allocate" : "free", n, kId[c], cpu);
  if (g_cpu != cpu) be(cpu);
  for (int i = 0; i < n; ++i) al ? alloc(c) : dealloc(c);
}
static void prefix(int p) {
  switch (p) {
    case 0: break;
    case 1:  // some of everything on CPU 0, a little on CPU 1
      local(0, 0, false, 9); local(0, 1, false, 5); local(0, 3, false, 3); local(1, 0, false, 2);
      break;
    case 2:  // misses of both kinds on both CPUs
      for (int i = 0; i < 3; ++i) {
        local(0, 0, false, 12); local(0, 0, true, 12); local(0, 1, false, 6); local(0, 1, true, 6);
      }
      local(1, 3, false, 4);
      break;
    case 3:  // the idle CPU has everything
      local(1, 1, false, 6); local(1, 3, false, 6); local(1, 0, false, 20);
      for (int i = 0; i < 4; ++i) g_c->ShuffleCpuCaches();
      local(0, 0, false, 30); local(0, 0, true, 30);
      break;
    case 4:  // maximum capacities reached, slabs moved
      local(0, 1, false, 8); local(0, 1, true, 8); local(0, 1, false, 8);
      g_c->ResizeSizeClassMaxCapacities();
      local(0, 1, false, 20); local(1, 1, false, 3);
      grow_slab();
      local(0, 1, false, 20); local(0, 0, false, 5);
      break;
  }
}
static void seen() {
  uint64_t h = g_cpu;
  for (int cpu = 0; cpu < NCPU; ++cpu)
    for (int c = 0; c < kClasses; ++c) h = vx::mix(h, CpuCachePeer::len(*g_c, cpu, kId[c]) * 65536 + g_c->GetCapacityOfSizeClass(cpu, kId[c]));
  vx::state(h);
}
// Every history of a few operations.
static void histories(int depth) {
  int p = choose(5);
  prefix(p);
  check();
  for (int d = 0; d < depth; ++d) {
    int k = choose(26);
    if (k < 16) local(k & 1, (k >> 1) & 1, (k >> 2) & 1, k & 8 ? 7 : 1);
    else if (k == 16) local(0, 3, false, 3);
    else if (k == 17) local(2, 2, false, 2);
    else background(k - 18);
    check();
    vx::step();
    seen();
  }
  finish();
}
static void hist_small() { setup(640); histories(vx::thorough() ? 4 : 3); }
static void hist_tiny() { setup(200); histories(vx::thorough() ? 4 : 3); }
static void hist_big() { setup(kMaxCpuCacheSize); histories(vx::thorough() ? 4 : 3); }
// Slabs of full size, narrow, with partitions, with hooks.
static void hist_layouts() {
  static const struct { bool dyn, wide; unsigned parts; } kL[] = {{false, true, 1}, {true, false, 1}, {false, false, 1}, {true, false, 2}, {false, false, 2}};
  int l = choose(5);
  setup(640, kL[l].dyn, kL[l].wide, kL[l].parts);
  g_hooks = l & 1;
  histories(vx::thorough() ? 3 : 2);
}
// The thread is moved to another CPU wherever the cache calls out.
static void hist_moved() {
  setup(640);
  g_moves = vx::thorough() ? 2 : 1;
  histories(vx::thorough() ? 3 : 2);
}
// The backing cache has no objects, or fewer than asked for.
static void hist_short() {
  setup(640);
  int m = 1 + choose(2);
  prefix(choose(5));
  g_supply = m;
  histories(vx::thorough() ? 3 : 2);
}
// The kernel refuses to take slabs back.
static void hist_refused() {
  setup(640);
  g_madvise_fail = 1 + choose(2) + 16 * choose(2);
  int p = choose(5);
  prefix(p);
  for (int d = 0; d < 3; ++d) {
    int k = choose(5);
    if (k < 3) background(5 + k);
    else local(0, k - 3, true, 7);
    check();
    vx::step();
  }
  finish();
}
#if NCPU > 4
// Drained CPUs lose their slabs when a whole huge page of them is idle.
static void local4(int cpu) {
  local(cpu, 0, true, 2);
  local(cpu, 0, false, 2);
  local(cpu, 1, false, 3);
}
static void hist_release() {
  g_start = choose(2) ? 0 : (3 << 19) + 4096;
  setup(choose(2) ? 640 : kMaxCpuCacheSize, choose(2));
  g_release = true;
  g_madvise_fail = choose(2) ? 0 : 1;
  if (g_dynamic)
    for (int i = choose(5); i-- > 0;) grow_slab();
  int who = choose(4);
  for (int cpu = 0; cpu < NCPU; ++cpu)
    if (who == 0 || (who == 1 && cpu != 2) || (who == 2 && cpu > 3) || (who == 3 && (cpu & 1))) local4(cpu);
  check();
  for (int d = 0; d < (vx::thorough() ? 4 : 3); ++d) {
    int k = choose(8);
    if (k == 0) background(3);
    else if (k == 1) { background(3); check(); background(3); check(); background(3); }
    else if (k == 2) local4(0);
    else if (k == 3) local(4, 1, true, 2);
    else if (k == 4) local(8, 0, true, 1);
    else if (k == 5) { for (int cpu = 0; cpu < 4; ++cpu) drain(cpu); }
    else if (k == 6) background(2);
    else background(d & 1 ? 5 : 6);
    check();
    vx::step();
    seen();
  }
  finish();
}
#endif
#endif

int main(int argc, char** argv) {
#ifdef VERIF_MC
#if NCPU > 4
  vx::Scenario sc[] = {{"release-schedules", release_schedules, 64}};
#else
  vx::Scenario sc[] = {{"schedules", schedules, 64}};
#endif
#elif 1
#if NCPU > 4
  vx::Scenario sc[] = {{"release", hist_release, 256}};
#else
  vx::Scenario sc[] = {{"histories", hist_small, 256}, {"tiny-budget", hist_tiny, 256}, {"full-budget", hist_big, 256}, {"layouts", hist_layouts, 256}, {"moved", hist_moved, 256}, {"short", hist_short, 256}, {"refused", hist_refused, 256}};
#endif
#endif
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

// C15: transfer caches over a counting central list: histories, rebalancing,
// shards, and every schedule of two or three threads.
#include "lib/mc.h"
#include "tcmalloc/common.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/transfer_cache_internals.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
namespace itc = tcmalloc::tcmalloc_internal::internal_transfer_cache;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
}

// Every object is a number; where it is, is known except inside a cache.
enum Where : unsigned char { kNone, kUser, kCached, kCentral };
static const int kObjs = 4096;
static Where at[kObjs];
static int made;
static long to_central, from_central, asked_central;  // objects
static bool central_dry;
static void* ptr(int i) { return reinterpret_cast<void*>(0x10000 + 16ul * i); }
static int id(void* p) {
  long v = reinterpret_cast<uintptr_t>(p) - 0x10000;
  VX_CHECK(v >= 0 && v % 16 == 0 && v / 16 < made, "a cache hands out %p, which was never put in", p);
  return v / 16;
}
static int fresh_obj() {
  if (made == kObjs) vx::fail("harness error: objects");
  at[made] = kUser;
  return made++;
}
// The central list behind all caches of a harness.
struct List {
  int cls = 0;
  void Init(size_t c) { cls = c; }
  int size_class() const { return cls; }
  void InsertRange(absl::Span<void*> b) {
    mc::yield();
    mc::Off o;
    VX_CHECK(!b.empty() && b.size() <= kMaxObjectsToMove, "%zu objects handed to the central list at once", b.size());
    for (void* p : b) {
      int i = id(p);
      VX_CHECK(at[i] == kCached || at[i] == kUser, "object %d given to the central list %s", i, at[i] == kCentral ? "twice" : "from nowhere");
      at[i] = kCentral;
    }
    to_central += b.size();
  }
  int RemoveRange(absl::Span<void*> b) {
    mc::yield();
    mc::Off o;
    asked_central += b.size();
    VX_CHECK(!b.empty(), "an empty request to the central list");
    if (central_dry) return 0;
    int n = b.size();
    for (int k = 0; k < n; ++k) {
      int i = fresh_obj();
      at[i] = kCentral;
      b[k] = ptr(i);
    }
    from_central += n;
    return n;
  }
};
static char* pool;
static size_t pool_used;
static void reset_world() {
  made = 0;
  to_central = from_central = asked_central = 0;
  central_dry = false;
  pool_used = 0;
  if (!pool) pool = (char*)mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void* pool_alloc(size_t n, size_t a = 64) {
  pool_used = (pool_used + a - 1) / a * a;
  void* p = pool + pool_used;
  pool_used += n + 64;
  if (pool_used > (64u << 20)) vx::fail("harness error: pool");
  return p;
}
static int g_batch = 2;
struct Owner {
  static size_t class_to_size(int c) { return c == 0 ? 0 : 64; }
  static size_t num_objects_to_move(int c) { return g_batch; }
  void* Alloc(size_t n, std::align_val_t a = kAlignment) { return pool_alloc(n); }
};
typedef itc::TransferCache<List, Owner> Cache;
static Owner owner;

static void give(Cache& c, int n) {  // user -> cache
  void* b[kMaxObjectsToMove];
  {
    mc::Off o;
    int k = 0;
    for (int i = made - 1; i >= 0 && k < n; --i)
      if (at[i] == kUser) {
        at[i] = kCached;
        b[k++] = ptr(i);
      }
    while (k < n) {
      int i = fresh_obj();
      at[i] = kCached;
      b[k++] = ptr(i);
    }
  }
  c.InsertRange(1, absl::MakeSpan(b, n));
}
static int take(Cache& c, int n) {
  void* b[kMaxObjectsToMove];
  int got = c.RemoveRange(1, absl::MakeSpan(b, n));
  mc::Off o;
  VX_CHECK(got >= 0 && got <= n, "asked for %d objects, got %d", n, got);
  for (int k = 0; k < got; ++k) {
    int i = id(b[k]);
    VX_CHECK(at[i] == kCached || at[i] == kCentral, "object %d handed out %s", i, at[i] == kUser ? "although it is in use" : "from nowhere");
    at[i] = kUser;
  }
  return got;
}
static int count(Where w) {
  int n = 0;
  for (int i = 0; i < made; ++i) n += at[i] == w;
  return n;
}

// ---- histories of one cache ----
static void history() {
  reset_world();
  static const int kCaps[][3] = {{2, 4, 8}, {3, 3, 9}, {2, 0, 0}, {2, 2, 2}, {4, 6, 10}, {128, 128, 256}, {32, 39, 70}};
  const int* cfg = kCaps[choose(7)];
  g_batch = cfg[0];
  Cache& c = *new (pool_alloc(sizeof(Cache))) Cache(&owner, 1, {cfg[1], cfg[2]});
  int cap = cfg[1], used = 0, low = 0;
  const int max = cfg[2], B = g_batch;
  long miss_ins = 0, miss_rem = 0;
  int depth = vx::thorough() ? 9 : 7;
  for (int d = 0; d < depth; ++d) {
    long tc0 = to_central, fc0 = from_central;
    int o = choose(11);
    if (o < 3) {
      int n = o == 0 ? 1 : o == 1 ? B : B < 128 ? B + 1 : 127;
      int room = cap - used;
      int keep = n < room ? n : room;
      give(c, n);
      used += keep;
      miss_ins += n - keep;
      vx::op("insert %d", n);
      VX_CHECK(to_central - tc0 == n - keep, "%d objects inserted into room for %d: %ld went to the central list", n, room, to_central - tc0);
    } else if (o < 6) {
      int n = o == 3 ? 1 : o == 4 ? B : B < 128 ? B + 1 : 127;
      central_dry = false;
      int got = take(c, n);
      vx::op("remove %d = %d", n, got);
      if (used) {
        int want = n < used ? n : used;
        VX_CHECK(got == want && from_central == fc0, "%d of %d cached objects asked for: got %d", n, used, got);
        used -= want;
        if (used < low) low = used;
      } else {
        miss_rem += n;
        VX_CHECK(got == n && from_central - fc0 == n, "asked an empty cache for %d: got %d", n, got);
      }
    } else if (o == 6) {
      if (used) return;
      central_dry = true;
      int got = take(c, B);
      central_dry = false;
      miss_rem += B;
      vx::op("remove from nothing");
      VX_CHECK(got == 0, "%d objects from empty lists", got);
    } else if (o == 7) {
      c.TryPlunder(1);
      vx::op("plunder");
      int want = low;
      if (max == 0) want = 0;
      VX_CHECK(to_central - tc0 == want, "plundering returned %ld objects, %d were unused since the last time", to_central - tc0, want);
      used -= want;
      low = used;
    } else if (o == 8) {
      bool can = c.CanIncreaseCapacity(1);
      bool r = c.IncreaseCacheCapacity(1);
      vx::op("grow = %d", r);
      VX_CHECK(r == (cap + B <= max) && can == r, "growing from %d of %d by %d: %d (announced %d)", cap, max, B, r, can);
      if (r) cap += B;
    } else if (o == 9) {
      bool r = c.ShrinkCache(1);
      vx::op("shrink = %d", r);
      VX_CHECK(r == (cap > B), "shrinking from %d by %d: %d", cap, B, r);
      if (r) {
        cap -= B;
        int out = used > cap ? used - cap : 0;
        VX_CHECK(to_central - tc0 == out, "shrinking to %d with %d cached: %ld went to the central list", cap, used, to_central - tc0);
        used -= out;
        if (used < low) low = used;
      }
    } else {
      // the interval misses: since the last fetch
      size_t m = c.FetchCommitIntervalMisses();
      vx::op("fetch misses");
      static long dummy;
      (void)dummy;
      VX_CHECK((long)m == miss_ins + miss_rem, "%zu misses reported, %ld were missed", m, miss_ins + miss_rem);
      miss_ins = miss_rem = 0;
    }
    vx::step();
    auto s = c.GetStats();
    VX_CHECK((int)c.tc_length() == used && (int)s.used == used, "%zu objects cached, expected %d", c.tc_length(), used);
    VX_CHECK((int)s.capacity == cap && (int)s.max_capacity == max && c.max_capacity() == max, "capacity %zu of %zu, expected %d of %d", (size_t)s.capacity, (size_t)s.max_capacity, cap, max);
    VX_CHECK(c.HasSpareCapacity(1) == (cap - used >= B), "HasSpareCapacity is wrong");
    VX_CHECK(count(kCached) == used, "%d objects are in the cache, it reports %d", count(kCached), used);
    uint64_t h = vx::mix(vx::mix(used, cap), vx::mix(low, cfg - kCaps[0]));
    if (vx::visited(vx::mix(h, miss_ins + miss_rem), depth - d)) return;
  }
  // everything comes out again, once
  int n = used;
  while (used > 0) used -= take(c, used < B ? used : B);
  VX_CHECK(count(kCached) == 0 && c.tc_length() == 0, "%d of %d objects did not come out", count(kCached), n);
}

// ---- limits computed for a class ----
static size_t g_bytes, g_move;
struct SizeOwner : Owner {
  static size_t class_to_size(int c) { return g_bytes; }
  static size_t num_objects_to_move(int c) { return g_move; }
};
static void limits() {
  typedef itc::TransferCache<List, SizeOwner> C;
  g_move = 2 + choose(127);
  for (size_t b = 0; b <= 262144; b = b < 1024 ? b + 8 : b + (b / 64)) {
    g_bytes = b;
    for (int cls = 0; cls < 2; ++cls) {
      auto c = C::CapacityNeeded(cls);
      if (cls == 0 || b == 0) {
        VX_CHECK(c.capacity == 0 && c.max_capacity == 0, "class %d of %zu bytes gets room for %d", cls, b, c.max_capacity);
        continue;
      }
      int m = g_move;
      VX_CHECK(c.capacity >= 0 && c.capacity <= c.max_capacity, "capacity %d of %d", c.capacity, c.max_capacity);
      VX_CHECK(c.max_capacity % m == 0 && c.capacity % m == 0 && c.max_capacity >= m, "capacity %d of %d is not in batches of %d", c.capacity, c.max_capacity, m);
      VX_CHECK(c.max_capacity <= 64 * m && c.capacity <= 16 * m, "capacity %d of %d for batches of %d", c.capacity, c.max_capacity, m);
      VX_CHECK(c.max_capacity == m || c.max_capacity * b <= 1 << 20, "up to %d objects of %zu bytes", c.max_capacity, b);
    }
    vx::step();
  }
  vx::state(g_move);
}

// ---- rebalancing ----
template <int kResize>
struct ManyT {
  static constexpr int kNumBaseClasses = 4;
  static constexpr int kNumClasses = 8;
  static constexpr int kMaxSizeClassesToResize = kResize;
  static constexpr size_t kNormalPartitions = 1, kSecurityPartitions = 1;
  static constexpr bool kHasExpandedClasses = true;
  static constexpr size_t kExpandedClassesStart = 4;
  Cache* c[kNumClasses];
  size_t FetchCommitIntervalMisses(int i) { return c[i]->FetchCommitIntervalMisses(); }
  bool CanIncreaseCapacity(int i) { return c[i]->CanIncreaseCapacity(i); }
  bool ShrinkCache(int i) { return c[i]->ShrinkCache(i); }
  bool IncreaseCacheCapacity(int i) { return c[i]->IncreaseCacheCapacity(i); }
};
namespace tcmalloc::tcmalloc_internal {
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
}
template <int kResize>
static void rebalance() {
  typedef ManyT<kResize> Many;
  reset_world();
  g_batch = 2;
  static const int kCap[5][2] = {{4, 8}, {8, 8}, {2, 8}, {0, 0}, {2, 2}};
  Many m;
  int cap[8], max[8];
  for (int i = 0; i < 8; ++i) {
    const int* k = kCap[i < 4 ? choose(i == 0 ? 5 : 4) : i % 4];
    if (i == 3 && choose(2)) k = kCap[4];
    m.c[i] = new (pool_alloc(sizeof(Cache))) Cache(&owner, i, {k[0], k[1]});
    cap[i] = k[0];
    max[i] = k[1];
  }
  int rounds = vx::thorough() ? 3 : 2;
  for (int r = 0; r < rounds; ++r) {
    int misses[8] = {};
    for (int i = 0; i < 4; ++i) {
      int f = choose(r == 0 ? 3 : 2);
      if (f == 0) continue;
      if (f == 1) {  // one miss by emptiness
        while (m.c[i]->tc_length()) take(*m.c[i], 2);
        take(*m.c[i], 1);
        misses[i] = 1;
      } else {  // filled beyond its capacity
        int room = (int)m.c[i]->GetStats().capacity - (int)m.c[i]->tc_length();
        for (int k = 0; k < room + 3; ++k) give(*m.c[i], 1);
        misses[i] = 3;
      }
    }
    int before[8], total = 0, used0 = 0;
    for (int i = 0; i < 8; ++i) {
      before[i] = m.c[i]->GetStats().capacity;
      total += before[i];
      used0 += m.c[i]->tc_length();
    }
    long tc0 = to_central;
    itc::TryResizingCaches(m);
    vx::step();
    int now = 0, used1 = 0, grew = 0;
    uint64_t h = r;
    int worst_grown = 1 << 30, best_shrunk = -1;
    for (int i = 0; i < 8; ++i) {
      auto s = m.c[i]->GetStats();
      VX_CHECK((int)s.capacity <= max[i] && (int)s.capacity >= 0 && s.used <= s.capacity, "class %d: %zu used, capacity %zu of %d", i, (size_t)s.used, (size_t)s.capacity, max[i]);
      VX_CHECK((int)s.capacity == before[i] || before[i] > 0 || max[i] > 0, "class %d without a cache got one", i);
      now += s.capacity;
      used1 += s.used;
      int dlt = (int)s.capacity - before[i];
      if (i >= 4) VX_CHECK(dlt == 0, "class %d without misses in its group was resized", i);
      VX_CHECK(dlt % 2 == 0, "capacity changed by %d", dlt);
      if (dlt > 0) {
        grew += dlt / 2;
        if (misses[i] < worst_grown) worst_grown = misses[i];
      }
      if (dlt < 0 && misses[i] > best_shrunk) best_shrunk = misses[i];
      h = vx::mix(h, s.capacity * 100 + s.used);
    }
    VX_CHECK(now == total, "rebalancing changed the total capacity from %d to %d", total, now);
    VX_CHECK(grew <= kResize, "%d classes were grown at once", grew);
    VX_CHECK(used0 - used1 == to_central - tc0, "objects lost by rebalancing: %d cached before, %d after, %ld returned", used0, used1, to_central - tc0);
    VX_CHECK(count(kCached) == used1, "%d objects are cached, reported are %d", count(kCached), used1);
    vx::op("rebalanced, %d grown", grew);
    vx::state(h);
  }
}

// ---- shards ----
struct ShardOwner {
  static bool generic, large;
  static void Init() {}
  static bool UseGenericCache() { return generic; }
  static bool EnableCacheForLargeClassesOnly() { return large; }
  static size_t class_to_size(int c) { return c == 1 ? 4096 : c == 2 ? 64 : c == 3 ? 262144 : 0; }
  static size_t num_objects_to_move(int c) { return c >= 1 && c <= 3 ? 2 : 0; }
  void* Alloc(size_t n, std::align_val_t a = kAlignment) { return pool_alloc(n, 64); }
};
bool ShardOwner::generic, ShardOwner::large;
struct Layout {
  int cpu = 0, shards = 3;
  unsigned NumShards() { return shards; }
  int CurrentCpu() { return cpu; }
  unsigned CpuShard(int c) { return c / 2 < shards ? c / 2 : shards - 1; }
};
static void shards() {
  reset_world();
  typedef ShardedTransferCacheManagerBase<ShardOwner, Layout, List> Sharded;
  ShardOwner so;
  Layout lay;
  int mode = choose(4);
  ShardOwner::generic = mode == 1 || mode == 3;
  ShardOwner::large = mode >= 2;
  lay.shards = choose(2) ? 3 : 2;
  Sharded& s = *new (pool_alloc(sizeof(Sharded))) Sharded(&so, &lay);
  VX_CHECK(s.TotalBytes() == 0 && s.TotalObjectsOfClass(1) == 0 && s.tc_length(0, 1) == 0 && !s.shard_initialized(0), "something cached before initialisation");
  s.Plunder();
  s.Init();
  bool on = ShardOwner::large || (ShardOwner::generic && lay.shards >= 3);
  for (int c = 0; c < 4; ++c) {
    bool want = on && ShardOwner::class_to_size(c) >= (ShardOwner::generic ? 0 : 4096);
    if (c) VX_CHECK(s.should_use(c) == want, "mode %d: class %d %s the sharded cache", mode, c, want ? "does not use" : "uses");
  }
  int used[3][4] = {}, low[3][4] = {};
  bool init[3] = {};
  #ifdef NDEBUG
  int depth = vx::thorough() ? 6 : 5;
#else
  int depth = vx::thorough() ? 5 : 4;
#endif
  for (int d = 0; d < depth; ++d) {
    int o = choose(10);
    if (o < 8) {
      lay.cpu = (o & 1) * 3 + choose(2);  // shards 0, 0, 1, 2
      int sh = lay.CpuShard(lay.cpu);
      int c = 1 + choose(3);
      int n = o & 4 ? 2 : 1;
      void* b[4];
      long tc0 = to_central, fc0 = from_central;
      if (o & 2) {  // take
        int got;
#ifdef NDEBUG
        if (n == 1) {
          b[0] = s.Pop(c);
          got = b[0] != nullptr;
        } else
#endif
        got = s.RemoveRange(c, absl::MakeSpan(b, n));
        VX_CHECK(got >= 0 && got <= n, "asked for %d, got %d", n, got);
        for (int k = 0; k < got; ++k) {
          int i = id(b[k]);
          VX_CHECK(at[i] == kCached || at[i] == kCentral, "object %d handed out twice", i);
          at[i] = kUser;
        }
        int w = used[sh][c] ? (n < used[sh][c] ? n : used[sh][c]) : n;
        VX_CHECK(got == w, "took %d of %d cached: got %d", n, used[sh][c], got);
        if (used[sh][c]) {
          VX_CHECK(from_central == fc0, "asked the central list although objects are cached");
          used[sh][c] -= got;
          if (used[sh][c] < low[sh][c]) low[sh][c] = used[sh][c];
        }
      } else {
        for (int k = 0; k < n; ++k) {
          int i = fresh_obj();
          at[i] = kCached;
          b[k] = ptr(i);
        }
#ifdef NDEBUG
        if (n == 1) s.Push(c, b[0]);
        else
#endif
        s.InsertRange(c, absl::MakeSpan(b, n));
        int out = to_central - tc0;
        VX_CHECK(out == 0 || out == n || used[sh][c] > 0, "partly forwarded by an empty shard");
        if (!s.should_use(c)) VX_CHECK(out == n, "a class without sharded cache is cached");
        else if (used[sh][c] == 0) VX_CHECK(out == 0, "an empty shard forwards");
        used[sh][c] += n - out;
      }
      init[sh] = true;
      vx::op("cpu %d class %d: %s %d", lay.cpu, c, o & 2 ? "take" : "put", n);
    } else {
      long tc0 = to_central;
      s.Plunder();
      vx::op("plunder");
      long want = 0;
      for (int i = 0; i < 3; ++i)
        for (int c = 0; c < 4; ++c) {
          want += low[i][c];
          used[i][c] -= low[i][c];
          low[i][c] = used[i][c];
        }
      VX_CHECK(to_central - tc0 == want, "plundering returned %ld objects, %ld were unused", to_central - tc0, want);
    }
    vx::step();
    size_t bytes = 0;
    int active = 0;
    uint64_t h = mode * 2 + lay.shards;
    for (int c = 1; c < 4; ++c) {
      int n = 0;
      for (int i = 0; i < lay.shards; ++i) {
        n += used[i][c];
        VX_CHECK(s.tc_length(i * 2, c) == used[i][c], "shard %d class %d reports %d objects, has %d", i, c, s.tc_length(i * 2, c), used[i][c]);
        h = vx::mix(h, used[i][c] * 16 + low[i][c]);
      }
      bytes += n * ShardOwner::class_to_size(c);
      VX_CHECK(s.TotalObjectsOfClass(c) == n && (int)s.GetStats(c).used == n, "class %d: %d objects reported, %d there", c, s.TotalObjectsOfClass(c), n);
    }
    for (int i = 0; i < lay.shards; ++i) {
      VX_CHECK(s.shard_initialized(i) == init[i], "shard %d initialised: %d", i, s.shard_initialized(i));
      active += init[i];
      h = vx::mix(h, init[i]);
    }
    VX_CHECK(s.TotalBytes() == bytes && s.NumActiveShards() == active, "%zu bytes in %d shards reported, %zu in %d there", s.TotalBytes(), s.NumActiveShards(), bytes, active);
    VX_CHECK(count(kCached) == s.TotalObjectsOfClass(1) + s.TotalObjectsOfClass(2) + s.TotalObjectsOfClass(3), "objects lost");
    if (vx::visited(h, depth - d)) return;
  }
}

// ---- schedules ----
static Cache* mcc;
static int mc_max;
static void probe_sizes() {
  // slot_info_ is what everybody reads without the lock
  auto s = mcc->GetSlotInfo();
  VX_CHECK(s.used >= 0 && s.used <= s.capacity && s.capacity <= mc_max, "at some point %d used, capacity %d of %d", s.used, s.capacity, mc_max);
}
static void threads() {
  reset_world();
  g_batch = 2;
  static const int kInit[][3] = {{4, 8, 2}, {4, 4, 4}, {2, 6, 0}, {4, 6, 3}};  // capacity, max, cached
  int st = choose(4);
  Cache& c = *new (pool_alloc(sizeof(Cache))) Cache(&owner, 1, {kInit[st][0], kInit[st][1]});
  mcc = &c;
  mc_max = kInit[st][1];
  for (int i = 0; i < kInit[st][2]; ++i) give(c, 1);
  if (choose(2)) c.TryPlunder(1), give(c, 1);  // a low-water mark above zero
  mc::reset();
  int cap_delta = 0;
  auto op = [&](int k) {
    if (k == 0) give(c, 2);
    else if (k == 1) take(c, 2);
    else if (k == 2) {
      bool r = c.ShrinkCache(1);
      mc::Off o;
      cap_delta -= 2 * r;
    } else if (k == 3) {
      bool r = c.IncreaseCacheCapacity(1);
      mc::Off o;
      cap_delta += 2 * r;
    } else if (k == 4) c.TryPlunder(1);
    else if (k == 5) {
      auto s = c.GetStats();
      (void)c.HasSpareCapacity(1);
      mc::Off o;
      VX_CHECK((int)s.used >= 0 && s.used <= s.capacity && (int)s.capacity <= mc_max, "statistics show %zu used, capacity %zu of %d", (size_t)s.used, (size_t)s.capacity, mc_max);
    } else if (k == 6) take(c, 1);
    else if (k == 7) give(c, 1);
  };
  static const int kA[][2] = {{0, 1}, {1, 0}, {0, 6}, {1, 7}};
  static const int kB[][2] = {{0, 1}, {2, 3}, {4, 1}, {6, 2}, {3, 0}, {1, 4}};
  static const int kC[] = {4, 2, 0, 5, 1};
  int a = choose(4), b = choose(6), e = choose(5);
  auto ta = [&] { op(kA[a][0]); op(kA[a][1]); };
  auto tb = [&] { op(kB[b][0]); op(kB[b][1]); };
  auto tc = [&] { op(kC[e]); };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg cfg;
  #ifdef NDEBUG
  cfg.preempt = vx::thorough() ? 3 : 2;
#else
  cfg.preempt = vx::thorough() ? 2 : 1;
#endif
  cfg.plain = false;
  mc::probe = probe_sizes;
  mc::go(cfg);
  mc::probe = nullptr;
  auto s = c.GetStats();
  VX_CHECK((int)s.capacity == kInit[st][0] + cap_delta, "capacity %zu, started at %d and changed by %d", (size_t)s.capacity, kInit[st][0], cap_delta);
  VX_CHECK(count(kCached) == (int)s.used, "%d objects are in the cache, it reports %zu", count(kCached), (size_t)s.used);
  vx::state(vx::mix(vx::mix(s.used, s.capacity), st * 1000 + a * 100 + b * 10 + e));
  while (c.tc_length()) take(c, 2);
  VX_CHECK(count(kCached) == 0, "%d objects did not come out", count(kCached));
}

static const vx::Scenario kScenarios[] = {
    {"history", history, 100000},
    {"limits", limits, 10},
    {"rebalance", rebalance<2>, 10000},
    {"rebalance1", rebalance<1>, 10000},
    {"shards", shards, 10000},
    {"threads", threads, 100000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, sizeof kScenarios / sizeof kScenarios[0]);
}

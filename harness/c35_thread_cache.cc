// C35: the thread caches over a counting transfer cache and pthread keys of
// the harness's own: histories with idle and exiting threads, memory running
// out and changes of the total, and every schedule of two threads.
#include <pthread.h>

#include <deque>
#include <map>
#include <vector>

#ifdef VERIF_MC
#include "lib/mc.h"
#else
#include "lib/explore.h"
namespace mc {
inline void yield() {}
inline int self() { return -1; }
struct Off {
  ~Off() {}
};
}
#endif
#include "tcmalloc/common.h"
#include "tcmalloc/internal/percpu_state.h"
#include "tcmalloc/metadata_object_allocator.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/transfer_cache.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
}

// ---- objects: where each is ----
enum Where : unsigned char { kPool, kMoving, kHand, kCached };
static const int kClasses = 4;  // 1..3 used
static const size_t kBytes[kClasses] = {0, 64, 65536, 262144};
static const int kBatch[kClasses] = {0, 3, 2, 2};
static const int kPer = 160;
struct Obj {
  Where at;
  signed char owner;  // thread caching it
};
static Obj obj[kClasses][kPer];
static char* objmem;
static const size_t kSlot = 64;
static int supply;  // 0: none, 1: one object per request, 2: plenty
static char* ptr(int c, int i) { return objmem + (size_t(c) * kPer + i) * kSlot; }
static Obj& of(void* p, int c) {
  size_t v = (char*)p - objmem;
  VX_CHECK((char*)p >= objmem && v < kClasses * kPer * kSlot && v % kSlot == 0, "%p is not an object", p);
  VX_CHECK(int(v / kSlot / kPer) == c, "an object of class %d turns up in class %d", int(v / kSlot / kPer), c);
  return obj[c][v / kSlot % kPer];
}
static void fill(char* p) { memset(p, 0x5a, kSlot); }
__attribute__((no_sanitize("thread"))) static void check_fill(char* p) {
  for (size_t i = 0; i < kSlot; ++i) VX_CHECK(p[i] == 0x5a, "an object in the program's hands was written to");
}

// ---- threads: the pthread calls of the code under test ----
static const int kMe = 4;
static int history_self;  // histories: which thread acts
static bool histories;
static int me() { return histories ? history_self : mc::self() < 0 ? 0 : mc::self(); }
static void* tsd[kMe];
static void (*tsd_destructor)(void*);
static int fake_key_create(pthread_key_t* k, void (*d)(void*)) {
  *k = 7;
  tsd_destructor = d;
  return 0;
}
static int fake_setspecific(pthread_key_t, const void* v) {
  tsd[me()] = const_cast<void*>(v);
  return 0;
}
static pthread_t fake_self() { return 100 + me(); }

// ---- everything global the caches use ----
struct FakeSizes {
  size_t class_to_size(size_t c) const { return c < kClasses ? kBytes[c] : 0; }
  size_t num_objects_to_move(size_t c) const { return c < kClasses ? kBatch[c] : 2; }
};
struct FakeTransfer {
  int RemoveRange(int c, absl::Span<void*> b) {
    mc::yield();
    mc::Off o;
    VX_CHECK(c >= 1 && c < kClasses, "objects of class %d asked for", c);
    VX_CHECK(!b.empty() && b.size() <= kMaxObjectsToMove, "%zu objects asked for at once", b.size());
    size_t want = supply == 0 ? 0 : supply == 1 ? 1 : b.size(), got = 0;
    for (int i = 0; i < kPer && got < want; ++i)
      if (obj[c][i].at == kPool) {
        obj[c][i] = {kCached, (signed char)me()};
        memset(ptr(c, i), 0xcc, kSlot);
        b[got++] = ptr(c, i);
      }
    if (got < want) vx::fail("harness error: objects");
    return got;
  }
  void InsertRange(int c, absl::Span<void*> b) {
    mc::yield();
    mc::Off o;
    VX_CHECK(c >= 1 && c < kClasses, "objects of class %d returned", c);
    VX_CHECK(!b.empty() && b.size() <= kMaxObjectsToMove, "%zu objects returned at once", b.size());
    for (void* p : b) {
      Obj& x = of(p, c);
      VX_CHECK(x.at == kCached && x.owner == me(), "an object goes back to the central lists %s",
               x.at == kPool ? "twice" : x.at == kHand ? "while in use" : "from another thread's cache");
      x.at = kPool;
      memset(p, 0xdd, kSlot);
    }
  }
};
namespace tcmalloc::tcmalloc_internal {
class ThreadCache;
}
template <int>
struct FakeCaches {
  struct Slot {
    alignas(64) char b[64 << 10];
    bool live;
  };
  Slot* slots = nullptr;
  int live = 0, made = 0;
  template <class T = ThreadCache>
  T* New(pthread_t t) {
    static_assert(sizeof(T) <= sizeof(Slot::b), "");
    for (int i = 0; i < 16; ++i)
      if (!slots[i].live) {
        slots[i].live = true;
        ++live;
        ++made;
        memset(slots[i].b, 0xee, sizeof(T));
        return new (slots[i].b) T(t);
      }
    vx::fail("harness error: caches");
    return nullptr;
  }
  template <class T>
  void Delete(T* p) {
    mc::yield();
    mc::Off o;
    for (int i = 0; i < 16; ++i)
      if ((void*)slots[i].b == p) {
        VX_CHECK(slots[i].live, "a thread cache is deleted twice");
        slots[i].live = false;
        --live;
        memset(slots[i].b, 0xee, sizeof(T));
        return;
      }
    vx::fail("%p deleted, which is no thread cache", (void*)p);
  }
  AllocatorStats stats() const { return {size_t(live), size_t(made)}; }
};
static FakeSizes fake_sizes;
static FakeTransfer fake_transfer;
static FakeCaches<0> fake_caches;
struct FakeGlobals {
  FakeSizes& sizemap() { return fake_sizes; }
  FakeTransfer& transfer_cache() { return fake_transfer; }
  FakeCaches<0>& threadcache_allocator() { return fake_caches; }
  void InitIfNecessary() {}
};
static FakeGlobals fake_globals;

#define tc_globals fake_globals
#define pthread_key_create fake_key_create
#define pthread_setspecific fake_setspecific
#define pthread_self fake_self
#define private public
// the keys once more, with the calls above
#undef TCMALLOC_INTERNAL_PERCPU_STATE_H_
#define PerCpuState VerifPerCpuState
#include "tcmalloc/internal/percpu_state.h"
#include "tcmalloc/internal/percpu_state.cc"
#include "tcmalloc/thread_cache.cc"
#undef private
#undef tc_globals
typedef ThreadCache TC;

// ---- the world ----
static TC* saved[kMe];  // histories: what each thread's thread_local_data_ is
static long total;
static std::vector<int>* hand[kClasses];  // in the program's hands, oldest first
static const long kMin = kMinThreadCacheSize, kSteal = 64 << 10;

__attribute__((no_sanitize("thread"))) static void reset_world(long overall) {
  if (!objmem) {
    objmem = (char*)mmap(nullptr, kClasses * kPer * kSlot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    fake_caches.slots = (FakeCaches<0>::Slot*)mmap(nullptr, 16 * sizeof(FakeCaches<0>::Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (auto& h : hand) h = new std::vector<int>;
  }
  for (auto& h : hand) h->clear();
  for (auto& a : obj)
    for (auto& o : a) o = {kPool, -1};
  for (int i = 0; i < 16; ++i) fake_caches.slots[i].live = false;
  fake_caches.live = fake_caches.made = 0;
  supply = 2;
  for (int i = 0; i < kMe; ++i) {
    tsd[i] = nullptr;
    saved[i] = nullptr;
  }
  histories = true;
  history_self = 0;
  TC::thread_heaps_ = TC::next_memory_steal_ = nullptr;
  TC::thread_heap_count_ = 0;
  TC::unclaimed_cache_space_ = kDefaultOverallThreadCacheSize;
  TC::overall_thread_cache_size_.store(kDefaultOverallThreadCacheSize, std::memory_order_relaxed);
  TC::per_thread_cache_size_ = kMaxThreadCacheSize;
  TC::thread_local_data_ = nullptr;
  TC::tsd_inited_ = false;
  total = kDefaultOverallThreadCacheSize;
  (void)overall;
}
static void set_total(long n) {
  TC::set_overall_thread_cache_size(n);
  total = n < kMin ? kMin : n;
}
static void be(int t) {
  saved[history_self] = TC::thread_local_data_;
  history_self = t;
  TC::thread_local_data_ = saved[t];
}

// ---- operations of the current thread ----
static int take(int c) {  // the object, or -1
  void* p = TC::GetCache()->Allocate(c);
  mc::Off o;
  if (!p) {
    for (int i = 0; i < kPer; ++i) VX_CHECK(!(obj[c][i].at == kCached && obj[c][i].owner == me()), "no memory for a request of a class of which the thread has an object cached");
    VX_CHECK(supply == 0, "no memory although there is some");
    return -1;
  }
  Obj& x = of(p, c);
  VX_CHECK(x.at == kCached && x.owner == me(), "an object is handed out %s", x.at == kHand ? "while in use" : x.at == kPool ? "which was returned to the central lists" : "from another thread's cache");
  x.at = kHand;
  x.owner = -1;
  fill((char*)p);
  return ((char*)p - objmem) / kSlot % kPer;
}
static void give(int c, int i) {
  {
    mc::Off o;
    VX_CHECK(obj[c][i].at == kHand, "harness error: object not in hand");
    check_fill(ptr(c, i));
    obj[c][i] = {kCached, (signed char)me()};
  }
  TC::GetCache()->Deallocate(ptr(c, i), c);
}
__attribute__((no_sanitize("thread"))) static void none_cached(int t, const char* what) {
  for (int c = 1; c < kClasses; ++c)
    for (int i = 0; i < kPer; ++i) VX_CHECK(!(obj[c][i].at == kCached && obj[c][i].owner == t), "an object of class %d is still cached by a thread which %s", c, what);
}
static void idle() {
  bool had = TC::tsd_inited_;
  TC::BecomeIdle();
  mc::Off o;
  if (had) none_cached(me(), "is idle");
}
static void leave() {
  void* v = tsd[me()];
  tsd[me()] = nullptr;
  if (v) tsd_destructor(v);
  mc::Off o;
  none_cached(me(), "has exited");
}

#define QUIET __attribute__((no_sanitize("thread")))
// ---- everything compared while nothing runs ----
QUIET static void check_world() {
  TC* hs[16];
  int n = 0;
  long sum = 0;
  uint64_t bytes = 0;
  TC* prev = nullptr;
  for (TC* h = TC::thread_heaps_; h; h = h->next_) {
    VX_CHECK(n < 16, "the list of thread caches does not end");
    bool ok = false;
    for (int i = 0; i < 16; ++i) ok |= (void*)fake_caches.slots[i].b == h && fake_caches.slots[i].live;
    VX_CHECK(ok, "a deleted thread cache is in the list");
    VX_CHECK(h->prev_ == prev, "the list of thread caches is broken");
    prev = h;
    hs[n++] = h;
    sum += h->max_size_;
    VX_CHECK((long)h->max_size_ > 0, "a thread cache has a budget of %ld", (long)h->max_size_);
  }
  VX_CHECK(n == TC::thread_heap_count_ && n == fake_caches.live, "%d thread caches listed, %d counted, %d exist", n, TC::thread_heap_count_, fake_caches.live);
  bool steal_ok = TC::next_memory_steal_ == nullptr;
  for (int i = 0; i < n; ++i) steal_ok |= hs[i] == TC::next_memory_steal_;
  VX_CHECK(steal_ok, "the thread to take budget from next does not exist");
  VX_CHECK((long)TC::overall_thread_cache_size() == total, "the total is %ld, not %ld", (long)TC::overall_thread_cache_size(), total);
  VX_CHECK(sum + TC::unclaimed_cache_space_ == total, "budgets of %ld and %ld unclaimed do not add up to the total of %ld", sum, (long)TC::unclaimed_cache_space_, total);
  int cached[kClasses] = {}, in[kMe][kClasses] = {};
  for (int c = 1; c < kClasses; ++c)
    for (int i = 0; i < kPer; ++i) {
      if (obj[c][i].at == kCached) {
        ++cached[c];
        ++in[(int)obj[c][i].owner][c];
        bytes += kBytes[c];
      } else if (obj[c][i].at == kHand) {
        check_fill(ptr(c, i));
      }
    }
  uint64_t got = 0, counts[kNumClasses] = {};
  AllocatorStats st = TC::GetStats(&got, counts);
  VX_CHECK(got == bytes, "%llu bytes reported in thread caches, objects of %llu are there", (unsigned long long)got, (unsigned long long)bytes);
  VX_CHECK((long)st.in_use == n && (long)st.total == fake_caches.made, "%ld of %ld thread caches reported", (long)st.in_use, (long)st.total);
  for (int c = 0; c < (int)kNumClasses; ++c) VX_CHECK((long)counts[c] == (c < kClasses ? cached[c] : 0), "%ld objects of class %d reported in thread caches, %d are there", (long)counts[c], c, c < kClasses ? cached[c] : 0);
  // each cache on its own: its bytes and, by walking its lists, its objects
  for (int i = 0; i < n; ++i) {
    int t = (int)(hs[i]->tid_ - 100);
    size_t b = 0;
    for (int c = 0; c < (int)kNumClasses; ++c) {
      int k = 0;
      void* p = *reinterpret_cast<void**>(&hs[i]->list_[c]);
      for (; p && k <= kPer; p = *(void**)p, ++k) {
        VX_CHECK(c < kClasses, "class %d has objects", c);
        Obj& x = of(p, c);
        VX_CHECK(x.at == kCached && x.owner == t, "an object in a cache's list is not cached there");
      }
      VX_CHECK(k == (int)hs[i]->list_[c].length(), "a list of %d objects has length %d", k, (int)hs[i]->list_[c].length());
      b += k * (c < kClasses ? kBytes[c] : 0);
    }
    VX_CHECK(b == hs[i]->size_, "a thread cache of %zu bytes counts %zu", b, hs[i]->size_);
  }
}
// how an allocation or release may change the budgets
struct Budgets {
  std::map<TC*, long> m;
  long unclaimed;
};
static Budgets budgets() {
  Budgets b;
  for (TC* h = TC::thread_heaps_; h; h = h->next_) b.m[h] = h->max_size_;
  b.unclaimed = TC::unclaimed_cache_space_;
  return b;
}
static void check_growth(const Budgets& b, bool created) {
  long un = TC::unclaimed_cache_space_;
  if (b.unclaimed > 0 && !created) VX_CHECK(un > -kSteal, "%ld unclaimed, afterwards %ld", b.unclaimed, un);
  if (b.unclaimed <= 0) VX_CHECK(un == b.unclaimed || (created && un == b.unclaimed - kMin), "budget taken out of %ld unclaimed bytes: %ld", b.unclaimed, un);
  for (TC* h = TC::thread_heaps_; h; h = h->next_) {
    auto i = b.m.find(h);
    if (i == b.m.end() || (long)h->max_size_ >= i->second) continue;
    VX_CHECK(i->second > kMin, "budget taken from a thread which has %ld only", i->second);
    VX_CHECK(b.unclaimed <= 0 || un <= 0, "budget taken from a thread with %ld unclaimed", un);
  }
}
QUIET static uint64_t state() {
  uint64_t h = 7;
  int k = 0, steal = -1;
  for (TC* t = TC::thread_heaps_; t; t = t->next_, ++k) {
    if (t == TC::next_memory_steal_) steal = k;
    h = vx::mix(h, (uint64_t)t->tid_ * 64 + t->in_setspecific_);
    h = vx::mix(h, t->max_size_);
    for (int c = 1; c < kClasses; ++c) {
      auto& l = t->list_[c];
      h = vx::mix(h, (uint64_t)l.length() << 40 | (uint64_t)l.max_length() << 24 | l.lowwatermark() << 8 | l.length_overages());
    }
  }
  h = vx::mix(h, steal + 1);
  h = vx::mix(h, TC::unclaimed_cache_space_);
  h = vx::mix(h, total);
  h = vx::mix(h, TC::per_thread_cache_size_);
  h = vx::mix(h, supply);
  for (int c = 1; c < kClasses; ++c) h = vx::mix(h, hand[c]->size());
  for (int i = 0; i < kMe; ++i) h = vx::mix(h, (tsd[i] != nullptr) * 2 + ((i == history_self ? TC::thread_local_data_ : saved[i]) != nullptr));
  return h;
}
static bool settle(const Budgets& b, int had, bool grows) {
  check_world();
  if (grows) check_growth(b, TC::thread_heap_count_ > had);
  return true;
}
static void hold(int c, int i) {
  if (i >= 0) hand[c]->push_back(i);
}
static void drop_newest(int c) {
  int i = hand[c]->back();
  hand[c]->pop_back();
  give(c, i);
}
static void finish() {
  // every object is released by the first thread, then all threads leave
  supply = 2;
  be(0);
  for (int c = 1; c < kClasses; ++c)
    while (!hand[c]->empty()) drop_newest(c);
  vx::op("release all");
  check_world();
  for (int t = 0; t < 3; ++t) {
    be(t);
    if (t == 1) {
      idle();
      vx::op("thread %d idle", t);
      check_world();
    }
    leave();
    TC::thread_local_data_ = nullptr;
    vx::op("thread %d exits", t);
    check_world();
  }
  VX_CHECK(TC::thread_heap_count_ == 0 && TC::unclaimed_cache_space_ == total, "all threads have exited: %d thread caches, %ld of %ld unclaimed", TC::thread_heap_count_, (long)TC::unclaimed_cache_space_, total);
  for (int c = 1; c < kClasses; ++c)
    for (int i = 0; i < kPer; ++i) VX_CHECK(obj[c][i].at == kPool, "all threads have exited and an object of class %d is not back", c);
}
static void grow_budget(int times) {
  int got[128];
  for (int k = 0; k < times; ++k) {
    got[k] = take(3);
    VX_CHECK(got[k] >= 0, "no memory");
  }
  for (int k = 0; k < times; ++k) give(3, got[k]);
}
static bool one_op(int threads, int o) {
  // returns false where the operation has no meaning here
  Budgets b = budgets();
  int had = TC::thread_heap_count_;
  if (o < 3) {
    int i = take(o + 1);
    hold(o + 1, i);
    vx::op("t%d takes class %d = %d", me(), o + 1, i);
    settle(b, had, true);
  } else if (o < 6) {
    int c = o - 2;
    if (hand[c]->empty()) return false;
    drop_newest(c);
    vx::op("t%d releases class %d", me(), c);
    settle(b, had, true);
  } else if (o == 6) {
    for (int k = 0; k < 7; ++k) hold(1, take(1));
    for (int k = 0; k < 7 && !hand[1]->empty(); ++k) drop_newest(1);
    vx::op("t%d takes and releases 7 of class 1", me());
    settle(b, TC::thread_heap_count_, false);
  } else if (o == 7) {
    if (supply == 0) return false;
    grow_budget(6);
    vx::op("t%d takes and releases class 3, six at once", me());
    settle(b, TC::thread_heap_count_, false);
  } else if (o == 8) {
    if (!TC::thread_local_data_) return false;
    idle();
    vx::op("t%d idle", me());
    settle(b, had, false);
  } else if (o == 9) {
    if (!tsd[me()]) return false;
    leave();
    TC::thread_local_data_ = nullptr;
    vx::op("t%d exits", me());
    settle(b, had, false);
  } else if (o == 10) {
    supply = (supply + 1) % 3;
    vx::op("supply %d", supply);
  } else {
    static const long kTotals[] = {0, 1 << 20, 1300000, 8 << 20};
    set_total(kTotals[o - 11]);
    vx::op("total %ld", kTotals[o - 11]);
    settle(b, had, false);
  }
  (void)threads;
  return true;
}
static const int kOps = 15;

QUIET static void history() {
  reset_world(0);
  TC::InitTSD();
  int past = choose(6);
  if (past) {
    set_total(past < 3 ? 1 << 20 : past == 3 ? 2 << 20 : past == 4 ? 0 : 8 << 20);
    be(0);
    grow_budget(past == 5 ? 128 : past == 3 ? 40 : 20);
    if (past >= 2) {
      be(1);
      grow_budget(past == 3 ? 3 : 1);
    }
    if (past == 3) {
      be(2);
      grow_budget(1);
    }
    if (past == 5) {  // budgets which are no multiples of anything
      set_total(1300000);
      be(1);
      grow_budget(10);
    }
    check_world();
    vx::op("past %d", past);
  }
#ifdef NDEBUG
  int depth = vx::thorough() ? 5 : 3;
#else
  int depth = vx::thorough() ? 5 : 4;
#endif
  int threads = past == 3 ? 3 : 2;
  static const int kMine[] = {0, 2, 3, 5, 6, 7, 8, 9};
  for (int d = 0; d < depth; ++d) {
    if (vx::visited(state(), depth - d)) return;
    int c = choose(8 * threads + 5);
    if (c < 8 * threads) be(c / 8);
    if (!one_op(threads, c < 8 * threads ? kMine[c % 8] : 10 + c - 8 * threads)) return;
  }
  finish();
}
// lists growing beyond and shrinking back to a batch: one thread, deep
static void lists() {
  reset_world(0);
  TC::InitTSD();
  int depth = vx::thorough() ? 7 : 5;
  for (int d = 0; d < depth; ++d) {
    if (vx::visited(state(), depth - d)) return;
    int c = 1 + choose(2), o = choose(6);
    static const int kN[] = {1, 2, 3, 5, 9, 17};
    Budgets b = budgets();
    if (choose(2)) {
      for (int k = 0; k < kN[o]; ++k) hold(c, take(c));
      vx::op("take %d of class %d", kN[o], c);
    } else {
      if ((int)hand[c]->size() < kN[o]) return;
      for (int k = 0; k < kN[o]; ++k) drop_newest(c);
      vx::op("release %d of class %d", kN[o], c);
    }
    check_world();
  }
  finish();
}
// requests before the keys exist, then after
static void early() {
  reset_world(0);
  int before = choose(vx::thorough() ? 4 : 3);
  for (int d = 0; d < before; ++d) {
    int o = choose(8);
    if (!one_op(1, o)) return;
  }
  TC::InitTSD();
  vx::op("keys created");
  check_world();
  int depth = vx::thorough() ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    if (vx::visited(state(), depth - d)) return;
    be(choose(2));
    if (!one_op(2, choose(10))) return;
  }
  finish();
}

#ifdef VERIF_MC
// ---- schedules ----
static int sch_obj[2][3];
static void script(int t, int which) {
  TC::thread_local_data_ = nullptr;
  auto T = [](int c) {
    int i = take(c);
    MC_OP("t%d takes class %d = %d", me(), c, i);
    return i;
  };
  auto G = [](int c, int i) {
    give(c, i);
    MC_OP("t%d releases class %d", me(), c);
  };
  if (which == 0) {  // grows
    for (int k = 0; k < 2; ++k) G(3, T(3));
  } else if (which == 1) {  // is idle in between
    G(1, T(1));
    idle();
    MC_OP("t%d idle", me());
    G(3, T(3));
  } else if (which == 2) {  // changes the total
    G(3, T(3));
    {
      TC::set_overall_thread_cache_size(t ? 1 << 20 : 600000);
    }
    MC_OP("t%d sets the total", me());
  } else if (which == 3) {  // looks
    G(2, T(2));
    uint64_t b = 0, n[kNumClasses] = {};
    TC::GetStats(&b, n);
    mc::Off o;
    VX_CHECK(b % 64 == 0 && b <= 64 + 65536 * 4 + 262144 * 4, "%llu bytes reported", (unsigned long long)b);
  } else {
    G(1, T(1));
  }
  if (which != 4 || t == 0) {
    leave();
    MC_OP("t%d exits", me());
  }
  // what it is cannot be seen once the thread is gone; kept for the ones after
  saved[t] = TC::thread_local_data_;
}
static void schedules() {
  reset_world(0);
  TC::InitTSD();
  static const long kTotals[] = {0, 700000, 8 << 20};
  int tot = choose(vx::thorough() ? 3 : 2);
  set_total(kTotals[tot]);
  // thread 2 is there already, with budget to take
  int past = choose(2);
  if (past) {
    be(2);
    grow_budget(tot == 0 ? 20 : 14);
  }
  be(3);
  int a = choose(5), b = choose(5);
  if (b < a) return;
  vx::op("total %ld past %d scripts %d %d", total, past, a, b);
  int which[2] = {a, b};
  auto f0 = [&] { script(0, which[0]); };
  auto f1 = [&] { script(1, which[1]); };
  histories = false;
  mc::reset();
  mc::spawn(f0);
  mc::spawn(f1);
  mc::Cfg cfg;
  cfg.preempt = vx::thorough() ? 3 : 2;
  cfg.race = false;
  cfg.plain = false;
  cfg.max_steps = 20000;
  mc::go(cfg);
  histories = true;
  history_self = 3;
  TC::thread_local_data_ = nullptr;
  total = TC::overall_thread_cache_size();
  if (a != 2 && b != 2) VX_CHECK(total == (kTotals[tot] < kMin ? kMin : kTotals[tot]), "the total changed");
  check_world();
  for (int t = 0; t < 3; ++t) {
    be(t);
    leave();
    TC::thread_local_data_ = nullptr;
    check_world();
  }
  VX_CHECK(TC::thread_heap_count_ == 0 && TC::unclaimed_cache_space_ == total, "all threads have exited: %d thread caches, %ld of %ld unclaimed", TC::thread_heap_count_, (long)TC::unclaimed_cache_space_, total);
}

#endif
int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {
#ifdef VERIF_MC
      {"schedules", schedules, 1}};
#else
      {"histories", history, 1}, {"lists", lists, 1}, {"early", early, 1}};
#endif
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

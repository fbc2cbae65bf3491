// Runtime of mc.h. Compiled without instrumentation.
#include "lib/mc.h"

#include <pthread.h>
#include <semaphore.h>
#include <stddef.h>

#include <type_traits>

namespace mc {
void (*probe)() = nullptr;
void (*resumed)() = nullptr;

namespace {

constexpr int kStack = 256 << 10;

struct VC {
  uint32_t c[kThreads];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < kThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { kNew, kReady, kBlocked, kDone };

struct Thread {
  void* sp;
  char* stack;
  State st;
  void (*f)(void*);
  void* arg;
  void* lock;  // waiting for
  int off;
  VC vc;
  VC acq;  // what relaxed loads have seen, for an acquire fence
  VC rel;  // clock at the last release fence
  bool has_rel;
  uintptr_t fs;
};

Thread T_[kThreads];
int nth, cur;
void* main_sp;
uintptr_t main_fs;
bool active, in_rt;
Cfg cfg;
int left_preempt, left_stale, left_weak;
uint64_t npoints;
void* pc;
VC sc;  // seq_cst fences
int main_off;

// ---- shadow memory ----
struct Byte {
  uint32_t pw_clk;
  uint32_t pw_tid;
  uint32_t aw[kThreads], pr[kThreads], ar[kThreads];
};
struct Cell {
  uintptr_t key;
  uint32_t gen;
  Byte b[8];
};
constexpr int kCells = 1 << 15;
Cell* cells;
uint32_t gen;
int used;

struct Store {
  uint64_t v;
  uint32_t tid, clk;
  bool rel;
  VC vc;  // what an acquire load of it learns
};
constexpr int kHist = 48;
constexpr int kReads = 24;
struct Loc {
  uintptr_t key;
  uint32_t gen;
  int n, first;  // stores st[0..n), absolute index of st[0]
  Store st[kHist];
  struct R {
    uint32_t clk;
    int idx;
  } rd[kThreads][kReads];
  int nrd[kThreads];
};
constexpr int kLocs = 4096;
Loc* locs;

struct Lock {
  void* key;
  uint32_t gen;
  int holder;
  VC vc;
};
constexpr int kLocks = 1024;
Lock locks[kLocks];

uint64_t hsh(uintptr_t a) { return (a * 0x9e3779b97f4a7c15ull) >> 20; }

Cell& cell(uintptr_t k) {
  uint64_t i = hsh(k) & (kCells - 1);
  for (int p = 0; p < kCells; ++p, i = (i + 1) & (kCells - 1)) {
    Cell& c = cells[i];
    if (c.gen != gen) {
      memset(&c, 0, sizeof c);
      c.key = k;
      c.gen = gen;
      return c;
    }
    if (c.key == k) return c;
  }
  in_rt = true;
  vx::fail("harness error: shadow memory full");
}
Loc& loc(uintptr_t k) {
  uint64_t i = hsh(k) & (kLocs - 1);
  for (int p = 0; p < kLocs; ++p, i = (i + 1) & (kLocs - 1)) {
    Loc& c = locs[i];
    if (c.gen != gen) {
      c.key = k;
      c.gen = gen;
      c.n = 0;
      c.first = 0;
      memset(c.nrd, 0, sizeof c.nrd);
      return c;
    }
    if (c.key == k) return c;
  }
  in_rt = true;
  vx::fail("harness error: atomic locations full");
}
Lock& lockrec(void* k) {
  uint64_t i = hsh((uintptr_t)k) & (kLocks - 1);
  for (int p = 0; p < kLocks; ++p, i = (i + 1) & (kLocks - 1)) {
    Lock& c = locks[i];
    if (c.gen != gen) {
      c.key = k;
      c.gen = gen;
      c.holder = -1;
      c.vc.clear();
      return c;
    }
    if (c.key == k) return c;
  }
  in_rt = true;
  vx::fail("harness error: locks full");
}

bool hb(int tid, uint32_t clk) { return clk <= T_[cur].vc.c[tid]; }

[[noreturn]] void race(const char* what, uintptr_t a, int other,
                       const char* owhat) {
  in_rt = true;
  vx::fail("data race: thread %d %s and thread %d %s the same memory without "
           "ordering (pc %p)",
           cur, what, other, owhat, pc);
}

enum Acc { kPR, kPW, kAR, kAW };

void access(uintptr_t a, size_t n, Acc k) {
  if (!cfg.race) return;
  uint32_t now = T_[cur].vc.c[cur];
  while (n) {
    Cell& c = cell(a >> 3);
    size_t o = a & 7;
    size_t m = 8 - o < n ? 8 - o : n;
    for (size_t i = o; i < o + m; ++i) {
      Byte& b = c.b[i];
      if (b.pw_clk && b.pw_tid != (unsigned)cur && !hb(b.pw_tid, b.pw_clk))
        race(k == kPR ? "reads" : k == kPW ? "writes" : k == kAR ? "atomically reads" : "atomically writes", a, b.pw_tid, "writes");
      if (k != kAR) {
        for (int t = 0; t < nth; ++t) {
          if (t == cur) continue;
          if (k != kAW && b.aw[t] && !hb(t, b.aw[t]))
            race(k == kPR ? "reads" : "writes", a, t, "atomically writes");
          if (k != kPR && b.pr[t] && !hb(t, b.pr[t]))
            race(k == kPW ? "writes" : "atomically writes", a, t, "reads");
          if (k == kPW && b.ar[t] && !hb(t, b.ar[t]))
            race("writes", a, t, "atomically reads");
        }
      }
      if (k == kPR) b.pr[cur] = now;
      else if (k == kPW) { b.pw_clk = now; b.pw_tid = cur; }
      else if (k == kAR) b.ar[cur] = now;
      else b.aw[cur] = now;
    }
    a += m;
    n -= m;
  }
}

// ---- coroutines ----
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

inline void set_fs(uintptr_t v) { asm volatile("wrfsbase %0" ::"r"(v)); }
inline uintptr_t get_fs() {
  uintptr_t v;
  asm volatile("rdfsbase %0" : "=r"(v));
  return v;
}

void swtch(int to) {  // to == -1: main
  void** save = cur >= 0 ? &T_[cur].sp : &main_sp;
  cur = to;
  if (to >= 0) {
    if (T_[to].fs) set_fs(T_[to].fs);
    mc_switch(save, T_[to].sp);
    if (resumed && cur >= 0) resumed();
  } else {
    if (main_fs) set_fs(main_fs);
    mc_switch(save, main_sp);
  }
}

void entry() {
  Thread& t = T_[cur];
  if (resumed) resumed();
  in_rt = false;
  t.f(t.arg);
  in_rt = true;
  t.st = kDone;
  // pick another; leaving is not a preemption
  int c[kThreads], n = 0;
  for (int i = 0; i < nth; ++i)
    if (T_[i].st == kReady || T_[i].st == kNew) c[n++] = i;
  if (n == 0) {
    for (int i = 0; i < nth; ++i)
      if (T_[i].st == kBlocked)
        vx::fail("deadlock: thread %d waits for a lock nobody will release", i);
    swtch(-1);
  }
  int k = n > 1 ? vx::choose(n) : 0;
  swtch(c[k]);
  __builtin_trap();
}

void prepare(Thread& t) {
  uintptr_t top = ((uintptr_t)t.stack + kStack) & ~(uintptr_t)15;
  void** p = (void**)top;
  *--p = nullptr;         // return address of entry (alignment)
  *--p = (void*)entry;    // ret target
  for (int i = 0; i < 6; ++i) *--p = nullptr;
  t.sp = p;
}

// Scheduling point of the running thread. `forced`: it cannot go on.
void point(bool forced) {
  if (++npoints > (uint64_t)cfg.max_steps)
    vx::fail("no end after %d scheduling points: livelock", cfg.max_steps);
  if (probe) probe();
  int c[kThreads], n = 0;
  if (!forced) c[n++] = cur;
  for (int i = 0; i < nth; ++i)
    if (i != cur && (T_[i].st == kReady || T_[i].st == kNew)) c[n++] = i;
  if (n == 0) vx::fail("deadlock: every thread waits for a lock");
  if (!forced && (n == 1 || left_preempt == 0)) return;
  int k = n > 1 ? vx::choose(n) : 0;
  if (!forced && k > 0) --left_preempt;
  if (c[k] != cur) {
    swtch(c[k]);
    in_rt = true;
  }
}

// Before an access to an atomic object or a lock.
void point_at(const volatile void* p, bool write) {
  uintptr_t k = (uintptr_t)p;
  if (cfg.record) {
    Record& r = *cfg.record;
    Record::E* e = r.find(k);
    if (!e->key) {
      if (++r.n > Record::kSize / 2) vx::fail("harness error: too many atomic objects");
      e->key = k;
    }
    (write ? e->wr : e->rd) |= 1 << cur;
  }
  if (cfg.only) {
    Record::E* e = cfg.only->find(k);
    uint8_t me = 1 << cur, others = e->wr | (write ? e->rd : 0);
    if (((e->rd | e->wr) & me) && !(others & ~me)) {
      if (++npoints > (uint64_t)cfg.max_steps) vx::fail("no end after %d scheduling points: livelock", cfg.max_steps);
      return;
    }
  }
  point(false);
}

struct Enter {
  Enter() { in_rt = true; }
  ~Enter() { in_rt = false; }
};

inline bool live() { return active && !in_rt && cur >= 0 && T_[cur].off == 0; }

void tick() { T_[cur].vc.c[cur]++; }

bool is_acq(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
         mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
bool is_rel(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
         mo == __ATOMIC_SEQ_CST;
}

// Makes the history agree with memory (first access, or plain writes since).
void sync_loc(Loc& l, uint64_t mem) {
  if (l.n == 0 || l.st[l.n - 1].v != mem) {
    l.first += l.n;
    l.n = 1;
    Store& s = l.st[0];
    s.v = mem;
    s.tid = 0;
    s.clk = 0;
    s.rel = false;
    s.vc.clear();
  }
}
void add_store(Loc& l, uint64_t v, bool rmw, int mo) {
  if (l.n == kHist) {
    memmove(l.st, l.st + 16, sizeof(Store) * (kHist - 16));
    l.n -= 16;
    l.first += 16;
  }
  Thread& t = T_[cur];
  Store& s = l.st[l.n];
  const Store& p = l.st[l.n - 1];
  s.v = v;
  s.tid = cur;
  s.clk = t.vc.c[cur];
  s.rel = false;
  s.vc.clear();
  if (rmw && p.rel) {  // release sequence
    s.rel = true;
    s.vc = p.vc;
  }
  if (is_rel(mo)) {
    s.rel = true;
    s.vc.join(t.vc);
  } else if (t.has_rel) {
    s.rel = true;
    s.vc.join(t.rel);
  }
  l.n++;
}
void saw(Loc& l, int i, int mo) {
  Thread& t = T_[cur];
  const Store& s = l.st[i];
  if (s.rel) {
    if (is_acq(mo)) t.vc.join(s.vc);
    t.acq.join(s.vc);
  }
  int& n = l.nrd[cur];
  if (n == kReads) {
    memmove(l.rd[cur], l.rd[cur] + 8, sizeof(Loc::R) * (kReads - 8));
    n -= 8;
  }
  l.rd[cur][n++] = {t.vc.c[cur], l.first + i};
}

template <typename U>
uint64_t wide(U v) {
  if constexpr (sizeof(U) <= 8) return (uint64_t)v;
  else return (uint64_t)v ^ ((uint64_t)(v >> 64) * 0x9e3779b97f4a7c15ull);
}

template <typename U>
U a_load(const volatile U* p, int mo) {
  if (!live()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  Enter e;
  point_at(p, false);
  tick();
  access((uintptr_t)p, sizeof(U), kAR);
  U m = __atomic_load_n(p, __ATOMIC_RELAXED);
  Loc& l = loc((uintptr_t)p);
  sync_loc(l, wide(m));
  int i = l.n - 1;
  if (sizeof(U) <= 8 && left_stale > 0 && mo != __ATOMIC_SEQ_CST && l.n > 1) {
    // oldest store this thread may still read
    int lo = l.n - 1;
    while (lo > 0 && !hb(l.st[lo].tid, l.st[lo].clk)) --lo;
    for (int t = 0; t < nth; ++t)
      for (int k = l.nrd[t] - 1; k >= 0; --k)
        if (hb(t, l.rd[t][k].clk)) {
          int j = l.rd[t][k].idx - l.first;
          if (j > lo) lo = j;
          break;
        }
    if (lo < l.n - 1) {
      int k = vx::choose(l.n - lo);
      if (k) --left_stale;
      i = l.n - 1 - k;
    }
  }
  saw(l, i, mo);
  return sizeof(U) <= 8 ? (U)l.st[i].v : m;
}
template <typename U>
void a_store(volatile U* p, U v, int mo) {
  if (!live()) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  Enter e;
  point_at(p, true);
  tick();
  access((uintptr_t)p, sizeof(U), kAW);
  Loc& l = loc((uintptr_t)p);
  sync_loc(l, wide(__atomic_load_n(p, __ATOMIC_RELAXED)));
  __atomic_store_n(p, v, __ATOMIC_RELAXED);
  add_store(l, wide(v), false, mo);
  tick();
}
template <typename U, typename F>
U a_rmw(volatile U* p, int mo, F f) {
  if (!live()) {
    U o = __atomic_load_n(p, __ATOMIC_RELAXED);
    while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST,
                                        __ATOMIC_SEQ_CST)) {
    }
    return o;
  }
  Enter e;
  point_at(p, true);
  tick();
  access((uintptr_t)p, sizeof(U), kAR);
  access((uintptr_t)p, sizeof(U), kAW);
  U o = __atomic_load_n(p, __ATOMIC_RELAXED);
  Loc& l = loc((uintptr_t)p);
  sync_loc(l, wide(o));
  saw(l, l.n - 1, mo);
  U n = f(o);
  __atomic_store_n(p, n, __ATOMIC_RELAXED);
  add_store(l, wide(n), true, mo);
  tick();
  return o;
}
template <typename U>
bool a_cas(volatile U* p, U* expect, U v, bool weak, int mo, int fmo) {
  if (!live())
    return __atomic_compare_exchange_n(p, expect, v, false, __ATOMIC_SEQ_CST,
                                       __ATOMIC_SEQ_CST);
  Enter e;
  point_at(p, true);
  tick();
  access((uintptr_t)p, sizeof(U), kAR);
  U o = __atomic_load_n(p, __ATOMIC_RELAXED);
  Loc& l = loc((uintptr_t)p);
  sync_loc(l, wide(o));
  bool ok = o == *expect;
  if (ok && weak && left_weak > 0 && vx::choose(2)) {
    --left_weak;
    ok = false;
  }
  saw(l, l.n - 1, ok ? mo : fmo);
  if (ok) {
    access((uintptr_t)p, sizeof(U), kAW);
    __atomic_store_n(p, v, __ATOMIC_RELAXED);
    add_store(l, wide(v), true, mo);
    tick();
  } else {
    *expect = o;
  }
  return ok;
}
void a_fence(int mo) {
  if (!live()) return;
  Enter e;
  point(false);
  tick();
  Thread& t = T_[cur];
  if (is_acq(mo)) t.vc.join(t.acq);
  if (mo == __ATOMIC_SEQ_CST) {
    t.vc.join(sc);
    sc.join(t.vc);
  }
  if (is_rel(mo)) {
    t.rel = t.vc;
    t.has_rel = true;
  }
  tick();
}

inline __attribute__((always_inline)) void plain(void* a, size_t n, Acc k) {
  if (!active || in_rt || cur < 0) return;
  if (T_[cur].off) return;
  uintptr_t x = (uintptr_t)a;
  // own stack: private
  if (x - (uintptr_t)T_[cur].stack < kStack) return;
  in_rt = true;
  if (cfg.plain) {
    point(false);
    tick();
  }
  if (!cfg.race) {
    in_rt = false;
    return;
  }
  pc = __builtin_return_address(0);
  access(x, n, k);
  in_rt = false;
}

int fs_n;
uintptr_t fs_of[kThreads];

}  // namespace

void reset() {
  if (!cells) {
    cells = (Cell*)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    locs = (Loc*)mmap(nullptr, sizeof(Loc) * kLocs, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char* s = (char*)mmap(nullptr, kStack * kThreads, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (cells == MAP_FAILED || locs == MAP_FAILED || s == MAP_FAILED) _exit(2);
    for (int i = 0; i < kThreads; ++i) T_[i].stack = s + i * kStack;
    if (fs_n == 0) tls_threads(kThreads);
  }
  ++gen;
  nth = 0;
  cur = -1;
  active = false;
  in_rt = false;
  sc.clear();
}

void spawn_raw(void (*f)(void*), void* arg) {
  if (nth == kThreads) vx::fail("harness error: too many threads");
  Thread& t = T_[nth];
  t.st = kReady;
  t.f = f;
  t.arg = arg;
  t.lock = nullptr;
  t.off = 0;
  t.vc.clear();
  t.acq.clear();
  t.rel.clear();
  t.has_rel = false;
  t.vc.c[nth] = 1;
  t.fs = nth < fs_n ? fs_of[nth] : 0;
  prepare(t);
  ++nth;
}

void go(const Cfg& c) {
  cfg = c;
  left_preempt = c.preempt;
  left_stale = c.stale;
  left_weak = c.weak;
  npoints = 0;
  in_rt = true;
  active = true;
  main_fs = fs_n ? get_fs() : 0;
  int k = cfg.first >= 0 ? cfg.first : nth > 1 ? vx::choose(nth) : 0;
  swtch(k);
  active = false;
  in_rt = false;
  cur = -1;
  vx::step(npoints);
}

int self() { return cur; }
uint64_t points() { return npoints; }
Stamp stamp() {
  if (!active || cur < 0) return {0, 0, 0};
  in_rt = true;
  tick();
  ++npoints;
  Stamp s = {cur, T_[cur].vc.c[cur], npoints};
  in_rt = false;
  return s;
}
void learn(int a, int b) {
  T_[a].vc.join(T_[b].vc);
  T_[b].vc.c[b]++;
}
bool before(const Stamp& s) { return hb(s.tid, s.clk); }
bool real_before(const Stamp& a, const Stamp& b) { return a.at < b.at; }
void yield() {
  if (!live()) return;
  Enter e;
  point(false);
}
void off() {
  if (active && cur >= 0) T_[cur].off++;
}
void on() {
  if (active && cur >= 0) T_[cur].off--;
}

// Parked threads lend their thread-local storage to the coroutines.
static sem_t parked;
void tls_threads(int n) {
  sem_init(&parked, 0, 0);
  for (int i = 0; i < n; ++i) {
    pthread_t t;
    pthread_create(&t, nullptr,
                   [](void* p) -> void* {
                     *(uintptr_t*)p = get_fs();
                     sem_post(&parked);
                     for (;;) pause();
                     return nullptr;
                   },
                   &fs_of[i]);
    while (sem_wait(&parked) != 0) {
    }
  }
  fs_n = n;
}

}  // namespace mc

using namespace mc;

extern "C" {

int verif_lock(void* l) {
  if (!live()) return 0;
  Enter e;
  point_at(l, true);
  for (;;) {
    Lock& r = lockrec(l);
    if (r.holder < 0) {
      r.holder = cur;
      tick();
      T_[cur].vc.join(r.vc);
      return 1;
    }
    if (r.holder == cur) vx::fail("deadlock: thread %d takes a lock it holds", cur);
    T_[cur].st = kBlocked;
    T_[cur].lock = l;
    point(true);
  }
}
int verif_trylock(void* l, int* ok) {
  if (!live()) return 0;
  Enter e;
  point_at(l, true);
  Lock& r = lockrec(l);
  *ok = r.holder < 0;
  if (*ok) {
    r.holder = cur;
    tick();
    T_[cur].vc.join(r.vc);
  }
  return 1;
}
int verif_unlock(void* l) {
  if (!live()) return 0;
  Enter e;
  Lock& r = lockrec(l);
  if (r.holder != cur)
    vx::fail("thread %d releases a lock held by %d", cur, r.holder);
  tick();
  r.holder = -1;
  r.vc = T_[cur].vc;
  tick();
  for (int i = 0; i < nth; ++i)
    if (T_[i].st == kBlocked && T_[i].lock == l) {
      T_[i].st = kReady;
      T_[i].lock = nullptr;
    }
  return 1;
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                             \
  void __tsan_read##n(void* a) { plain(a, n, kPR); }                      \
  void __tsan_write##n(void* a) { plain(a, n, kPW); }                     \
  void __tsan_unaligned_read##n(void* a) { plain(a, n, kPR); }            \
  void __tsan_unaligned_write##n(void* a) { plain(a, n, kPW); }           \
  void __tsan_volatile_read##n(void* a) { plain(a, n, kPR); }             \
  void __tsan_volatile_write##n(void* a) { plain(a, n, kPW); }            \
  void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, kPR); }   \
  void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, kPW); }  \
  void __tsan_read##n##_pc(void* a, void*) { plain(a, n, kPR); }          \
  void __tsan_write##n##_pc(void* a, void*) { plain(a, n, kPW); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { plain(a, n, kPR); }
void __tsan_write_range(void* a, size_t n) { plain(a, n, kPW); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) plain(a, 8, kPW); }
void __tsan_vptr_read(void** a) { plain(a, 8, kPR); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  plain((void*)s, n, kPR);
  plain(d, n, kPW);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  plain((void*)s, n, kPR);
  plain(d, n, kPW);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  plain(d, n, kPW);
  return memset(d, c, n);
}

// For units linked with --wrap=memset,--wrap=memcpy,--wrap=memmove.
void* __real_memset(void*, int, size_t) __attribute__((weak));
void* __real_memcpy(void*, const void*, size_t) __attribute__((weak));
void* __real_memmove(void*, const void*, size_t) __attribute__((weak));
void* __wrap_memset(void* d, int c, size_t n) {
  plain(d, n, kPW);
  return __real_memset(d, c, n);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  plain((void*)s, n, kPR);
  plain(d, n, kPW);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  plain((void*)s, n, kPR);
  plain(d, n, kPW);
  return __real_memmove(d, s, n);
}

#define AT(bits, U)                                                           \
  U __tsan_atomic##bits##_load(const volatile U* a, int mo) {                 \
    return a_load<U>(a, mo);                                                  \
  }                                                                           \
  void __tsan_atomic##bits##_store(volatile U* a, U v, int mo) {              \
    a_store<U>(a, v, mo);                                                     \
  }                                                                           \
  U __tsan_atomic##bits##_exchange(volatile U* a, U v, int mo) {              \
    return a_rmw<U>(a, mo, [=](U) { return v; });                             \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_add(volatile U* a, U v, int mo) {             \
    return a_rmw<U>(a, mo, [=](U o) { return (U)(o + v); });                  \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_sub(volatile U* a, U v, int mo) {             \
    return a_rmw<U>(a, mo, [=](U o) { return (U)(o - v); });                  \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_and(volatile U* a, U v, int mo) {             \
    return a_rmw<U>(a, mo, [=](U o) { return (U)(o & v); });                  \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_or(volatile U* a, U v, int mo) {              \
    return a_rmw<U>(a, mo, [=](U o) { return (U)(o | v); });                  \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_xor(volatile U* a, U v, int mo) {             \
    return a_rmw<U>(a, mo, [=](U o) { return (U)(o ^ v); });                  \
  }                                                                           \
  U __tsan_atomic##bits##_fetch_nand(volatile U* a, U v, int mo) {            \
    return a_rmw<U>(a, mo, [=](U o) { return (U) ~(o & v); });                \
  }                                                                           \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile U* a, U* c, U v, \
                                                    int mo, int fmo) {        \
    return a_cas<U>(a, c, v, false, mo, fmo);                                 \
  }                                                                           \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile U* a, U* c, U v,   \
                                                  int mo, int fmo) {          \
    return a_cas<U>(a, c, v, true, mo, fmo);                                  \
  }                                                                           \
  U __tsan_atomic##bits##_compare_exchange_val(volatile U* a, U c, U v,       \
                                               int mo, int fmo) {             \
    a_cas<U>(a, &c, v, false, mo, fmo);                                       \
    return c;                                                                 \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}

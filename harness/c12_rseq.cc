// C12: operations on a per-CPU cache take effect exactly once or not at all,
// wherever they are preempted, migrated, interrupted or fenced.
//
// The harness plays the kernel.  Threads are contexts of their own that run
// the real code one instruction at a time (trap flag); before every
// instruction that touches memory shared through the cache or the thread's
// rseq area, and at every instruction inside or just behind a restartable
// sequence, the explorer decides whether the thread goes on, another one
// runs (on the same CPU, which preempts, or in parallel on another), it is
// interrupted in place, moved to the other CPU, or gets a signal.  Going back
// to user mode does what Linux does: abort the restartable sequence, check
// the signature, rewrite the CPU numbers; membarrier does it to the threads
// running on the CPU meant.
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/ucontext.h>
#include <unistd.h>
#include <new>
#include "lib/explore.h"
#include "tcmalloc/experiment.h"
#include "tcmalloc/internal/percpu.h"
#include "tcmalloc/internal/percpu_tcmalloc.h"
#include "tcmalloc/internal/sysinfo.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
using vx::choose;

namespace tcmalloc {
bool IsExperimentActive(Experiment) { return false; }
namespace tcmalloc_internal::sysinfo_internal {
std::optional<int> NumPossibleCPUsNoCache() { return 2; }
}
}

static const int kClasses = 3, kTok = 24, kThreads = 4;
typedef TcmallocSlab<kClasses> Slab;

// ---- everything the threads share lies in one range ------------------------------
alignas(4096) static char g_shared[16384];
static Slab* g_slab;
static char* g_arena;
static char *g_slabs[2];
static uint64_t kFill = 0xabababababababab;
static int g_shift, g_cap_bonus[kClasses];
static size_t maxcap(size_t c, int shift) { return (c == 1 ? 2 : 1) + (shift > 8) + g_cap_bonus[c]; }
static size_t cap_now(size_t c) { return maxcap(c, g_shift); }

// ---- threads -------------------------------------------------------------------
struct Tls { int vcpu; unsigned slabs_low; char rseq[32]; };
static_assert(sizeof(Tls) == 40, "");
static Tls* live() { return (Tls*)(void*)&tcmalloc_cached_vcpu; }
static kernel_rseq* rs(Tls* t) { return (kernel_rseq*)t->rseq; }
struct Th {
  gregset_t r;
  char fp[8192];
  Tls own, *tls;
  int cpu;
  bool on, done;
  bool inside;  // stands in the code under test
  void (*fn)(int);
  int hand[kTok], nhand;
};
static Th g_t[kThreads];
alignas(64) static char g_stack[kThreads][1 << 15];
alignas(64) static char g_alt[1 << 16];
static int g_n, g_cur;
static bool g_mm;
static gregset_t g_main_r;
static char g_main_fp[8192];
static int g_start, g_fin, g_steps;
static bool g_prev;
// Events of this execution, and the points found after the last of them.
struct Opt { int kind, who; };
struct Pt { uint64_t rip; int occ, no; Opt o[8]; };
struct Ev { uint64_t rip; int occ; Opt o; };
static const int kMaxEv = 4, kMaxPt = 8000;
static Ev g_ev[kMaxEv];
static int g_nev, g_e;
static bool g_record, g_stepping, g_only_switch;
static Pt g_rec[kMaxEv][kMaxPt];
static int g_nrec[kMaxEv];
static int g_fins;      // threads finished since the last event
static int g_hits;      // times the breakpoint was passed
static bool g_over;     // stepping over the breakpoint
static uint8_t* g_bp;
static uint8_t g_bp_old;
static int g_order[kThreads];

static int cid(int cpu) { return g_mm ? 1 - cpu : cpu; }

// What Linux does to a thread that returns to user mode after it was
// preempted, interrupted, moved, or before a signal handler starts.
static void effects(Th& t, greg_t* r) {
  kernel_rseq* a = rs(t.tls);
  struct Cs { uint32_t version, flags; uint64_t start, len, abort; };
  uint64_t p = a->rseq_cs;
  if (p) {
    Cs* cs = (Cs*)p;
    a->rseq_cs = 0;
    uint64_t ip = r[REG_RIP];
    VX_CHECK(cs->version == 0 && cs->flags == 0, "the kernel refuses the descriptor of a restartable sequence: version %u, flags %u", cs->version, cs->flags);
    VX_CHECK(cs->abort - cs->start >= cs->len, "the abort address of a restartable sequence lies inside it");
    if (ip - cs->start < cs->len) {
      VX_CHECK(*(uint32_t*)(cs->abort - 4) == TCMALLOC_PERCPU_RSEQ_SIGNATURE, "the abort address carries no signature: the kernel would kill the process");
      r[REG_RIP] = cs->abort;
    }
  }
  a->cpu_id_start = t.cpu;
  a->cpu_id = t.cpu;
  a->mm_cid = cid(t.cpu);
}

extern "C" long __real_syscall(long, ...);
extern "C" long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr == __NR_rseq) return 0;
  if (nr == __NR_membarrier) {
    if ((int)a == 1 << 8) return 0;
    VX_CHECK((int)a == 1 << 7, "membarrier command %ld", a);
    // Only threads that run are interrupted; others will be when they do.
    bool all = !((int)b & 1) || (int)c < 0;
    for (int i = 0; i < g_n; ++i)
      if (i != g_cur && g_t[i].on && !g_t[i].done && (all || g_t[i].cpu == (int)c)) effects(g_t[i], g_t[i].r);
    return 0;
  }
  return __real_syscall(nr, a, b, c, d, e, f);
}

// ---- which memory does an instruction touch? --------------------------------------
enum { kNone, kShared, kTls };
static int touches(greg_t* r) {
  static const int kReg[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                               REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
  const uint8_t* p = (const uint8_t*)r[REG_RIP];
  int rex = 0;
  bool fs = false, modrm = false;
  for (;; ++p) {
    if (*p == 0x64) { fs = true; continue; }
    if (*p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0xf0 || *p == 0x2e || *p == 0x3e || *p == 0x65) continue;
    break;
  }
  if ((*p & 0xf0) == 0x40) rex = *p++;
  uint8_t o = *p++;
  if (o == 0xc5) { p += 1; ++p; modrm = true; }
  else if (o == 0xc4) { p += 2; ++p; modrm = true; }
  else if (o == 0x0f) {
    uint8_t q = *p++;
    if (q == 0x38 || q == 0x3a) { ++p; modrm = true; }
    else if ((q >= 0x80 && q <= 0x8f) || q == 0x05 || q == 0x0b || q == 0xa2 || q == 0x31 || (q >= 0xc8 && q <= 0xcf) || q == 0x18 || q == 0x0d || q == 0x1f || q == 0x1e) return kNone;
    else modrm = true;
  } else {
    if (o < 0x40) modrm = (o & 7) < 4;
    else if (o == 0x63 || o == 0x69 || o == 0x6b || (o >= 0x80 && o <= 0x8c) || o == 0x8e || o == 0xc0 || o == 0xc1 || o == 0xc6 || o == 0xc7 || (o >= 0xd0 && o <= 0xd3) || o == 0xf6 || o == 0xf7 || o == 0xfe || o == 0xff) modrm = true;
    else if (o == 0xa4 || o == 0xa5 || o == 0xaa || o == 0xab) {
      char* d = (char*)r[REG_RDI];
      char* s = (char*)r[REG_RSI];
      bool a = d >= g_shared && d < g_shared + sizeof g_shared, b = s >= g_shared && s < g_shared + sizeof g_shared && (o == 0xa4 || o == 0xa5);
      return a || b ? kShared : kNone;
    }
  }
  if (!modrm) return kNone;
  uint8_t m = *p++;
  int mod = m >> 6, rm = m & 7;
  if (mod == 3) return kNone;
  uint64_t ea = 0;
  if (rm == 4) {
    uint8_t sib = *p++;
    int idx = ((sib >> 3) & 7) | (rex & 2 ? 8 : 0), base = (sib & 7) | (rex & 1 ? 8 : 0);
    if (idx != 4) ea += uint64_t(r[kReg[idx]]) << (sib >> 6);
    if ((sib & 7) == 5 && mod == 0) ea += *(const int32_t*)p;
    else ea += r[kReg[base]];
  } else if (rm == 5 && mod == 0) {
    ea = (uint64_t)p + 4 + *(const int32_t*)p;  // close enough: the shared range is not addressed so
    if (fs) return kTls;
    return kNone;
  } else {
    ea = r[kReg[rm | (rex & 1 ? 8 : 0)]];
  }
  if (mod == 1) ea += *(const int8_t*)p;
  if (mod == 2) ea += *(const int32_t*)p;
  if (fs) return kTls;
  if (ea + 8 > (uint64_t)g_shared && ea < (uint64_t)(g_shared + sizeof g_shared)) return kShared;
  uint64_t t = (uint64_t)live();
  if (ea + 8 > t && ea < t + sizeof(Tls)) return kTls;
  return kNone;
}

// ---- contexts ------------------------------------------------------------------
static unsigned xsize(char* fp) {
  uint32_t* sw = (uint32_t*)(fp + 464);
  unsigned n = sw[0] == 0x46505853u ? sw[1] : 512;
  VX_CHECK(n <= 8192, "harness error: %u bytes of registers", n);
  return n;
}
static void save(ucontext_t* u, greg_t* r, char* fp) {
  memcpy(r, u->uc_mcontext.gregs, sizeof(gregset_t));
  memcpy(fp, (char*)u->uc_mcontext.fpregs, xsize((char*)u->uc_mcontext.fpregs));
}
static void load(ucontext_t* u, greg_t* r, char* fp) {
  memcpy(u->uc_mcontext.gregs, r, sizeof(gregset_t));
  memcpy((char*)u->uc_mcontext.fpregs, fp, xsize((char*)u->uc_mcontext.fpregs));
}
static Tls g_main_tls;
static void tf(greg_t* r, bool on) {
  if (on) r[REG_EFL] |= 0x100;
  else r[REG_EFL] &= ~0x100ll;
}
static void resume(ucontext_t* u, int i, bool sched) {
  Th& t = g_t[i];
  if (sched) effects(t, t.r);
  t.on = true;
  g_cur = i;
  *live() = *t.tls;
  load(u, t.r, t.fp);
  tf(u->uc_mcontext.gregs, g_stepping && t.inside);
  g_prev = false;
}
// Thread i gets its CPU; whoever ran there does not any more.
static void take_cpu(int i) {
  for (int j = 0; j < g_n; ++j)
    if (j != i && g_t[j].on && g_t[j].cpu == g_t[i].cpu) g_t[j].on = false;
}
static void bp_clear() {
  if (g_bp) *g_bp = g_bp_old;
  g_bp = nullptr;
}
static void bp_set(uint64_t at) {
  g_bp = (uint8_t*)at;
  static uint64_t pages[64];
  static int np;
  uint64_t pg = at & ~4095ull;
  bool have = false;
  for (int i = 0; i < np; ++i) have |= pages[i] == pg;
  if (!have) {
    VX_CHECK(np < 64 && mprotect((void*)pg, 4096, PROT_READ | PROT_WRITE | PROT_EXEC) == 0, "harness error: mprotect");
    pages[np++] = pg;
  }
  g_bp_old = *g_bp;
  *g_bp = 0xcc;
}
// How often each instruction ran since the last event.
struct Occ { uint64_t rip; int n, gen; };
static Occ g_occ[8192];
static int g_gen;
static int occurrence(uint64_t rip) {
  for (unsigned h = (rip * 0x9e3779b97f4a7c15ull) >> 51;; h = (h + 1) & 8191) {
    if (g_occ[h].gen != g_gen) { g_occ[h] = {rip, 1, g_gen}; return 1; }
    if (g_occ[h].rip == rip) return ++g_occ[h].n;
  }
}
// The last event has happened, or there is another to wait for.
static void next_segment() {
  g_fins = g_hits = 0;
  g_prev = false;
  if (g_e < g_nev) {
    if (g_ev[g_e].rip) bp_set(g_ev[g_e].rip);
  } else if (g_record) {
    g_stepping = true;
    ++g_gen;
    g_nrec[g_e] = 0;
  }
}
static void record(uint64_t rip, int occ, const Opt* o, int no) {
  Pt& p = g_rec[g_e][g_nrec[g_e]++];
  VX_CHECK(g_nrec[g_e] < kMaxPt, "harness error: too many points");
  p.rip = rip;
  p.occ = occ;
  p.no = no;
  memcpy(p.o, o, no * sizeof *o);
}
static void perform(ucontext_t* u, Opt o) {
  Th& t = g_t[g_cur];
  greg_t* r = u->uc_mcontext.gregs;
  int i = o.who;
  ++g_e;
  next_segment();
  *t.tls = *live();
  if (o.kind == 1) {
    t.inside = true;
    save(u, t.r, t.fp);
    bool was = g_t[i].on;
    vx::op("thread %d at %llx: %s thread %d on CPU %d", g_cur, (unsigned long long)r[REG_RIP], was ? "meanwhile" : g_t[i].cpu == t.cpu ? "preempted by" : "another CPU runs", i, g_t[i].cpu);
    if (!was) take_cpu(i);
    resume(u, i, !was);
  } else {
    if (o.kind == 3) { t.cpu = 1 - t.cpu; take_cpu(g_cur); }
    vx::op("thread %d at %llx: interrupted, goes on on CPU %d", g_cur, (unsigned long long)r[REG_RIP], t.cpu);
    effects(t, r);
    *live() = *t.tls;
    tf(r, g_stepping);
  }
}

static void trap(int, siginfo_t*, void* v) {
  ucontext_t* u = (ucontext_t*)v;
  if (g_start) {
    g_start = 0;
    save(u, g_main_r, g_main_fp);
    g_main_tls = *live();
    for (int i = 0; i < g_n; ++i) {
      save(u, g_t[i].r, g_t[i].fp);
      greg_t* r = g_t[i].r;
      r[REG_RIP] = (greg_t)g_t[i].fn;
      r[REG_RSP] = (greg_t)(g_stack[i] + sizeof g_stack[i] - 8 - 64);
      r[REG_RDI] = i;
      g_t[i].inside = false;
    }
    g_e = 0;
    g_stepping = false;
    next_segment();
    int first = g_order[0];
    bool was = g_t[first].on;
    take_cpu(first);
    resume(u, first, !was);
    return;
  }
  Th& t = g_t[g_cur];
  if (g_fin) {
    g_fin = 0;
    *t.tls = *live();
    t.done = true;
    t.on = false;
    int i = -1;
    for (int k = g_n; k-- > 0;)
      if (!g_t[g_order[k]].done) i = g_order[k];
    if (i < 0) {
      *live() = g_main_tls;
      load(u, g_main_r, g_main_fp);
      VX_CHECK(g_e == g_nev, "harness error: event %d never happened", g_e);
      bp_clear();
      g_stepping = false;
      g_cur = -1;
      return;
    }
    if (g_t[i].on) {
      resume(u, i, false);
    } else {
      ++g_fins;
      Opt back = {5, i};
      if (g_stepping && !g_only_switch) record(0, g_fins, &back, 1);
      if (g_e < g_nev && !g_ev[g_e].rip && g_fins == g_ev[g_e].occ) {
        g_t[i].cpu = 1 - g_t[i].cpu;
        vx::op("thread %d comes back on CPU %d", i, g_t[i].cpu);
        ++g_e;
        next_segment();
      }
      take_cpu(i);
      resume(u, i, true);
    }
    return;
  }
  greg_t* r = u->uc_mcontext.gregs;
  if (!g_stepping) {
    if (g_over) {  // behind the breakpoint again
      g_over = false;
      bp_set(g_ev[g_e].rip);
      tf(r, false);
      return;
    }
    VX_CHECK(g_bp && (uint64_t)r[REG_RIP] == (uint64_t)g_bp + 1, "harness error: unexpected trap");
    r[REG_RIP] -= 1;
    bp_clear();
    if (++g_hits == g_ev[g_e].occ) {
      perform(u, g_ev[g_e].o);
    } else {
      g_over = true;
      tf(r, true);
    }
    return;
  }
  VX_CHECK(++g_steps < 20000, "the operations do not end");
  int occ = occurrence(r[REG_RIP]);
  int k = touches(r);
  bool in_cs = rs(live())->rseq_cs != 0;
  bool point = k != kNone || (in_cs && g_prev);
  g_prev = k != kNone;
  if (!point) return;
  Opt o[8];
  int no = 0;
  for (int i = 0; i < g_n; ++i)
    if (i != g_cur && !g_t[i].done) o[no++] = {1, i};
  if (g_only_switch) {
    if (k != kShared) no = 0;
  } else if (k == kTls || in_cs) {
    o[no++] = {2, 0};
    o[no++] = {3, 0};
  }
  if (no) record(r[REG_RIP], occ, o, no);
}
__attribute__((noinline)) static void fin() { g_fin = 1; asm volatile("int3" ::: "memory"); __builtin_trap(); }

// Only the code under test is run one instruction at a time.
static inline __attribute__((always_inline)) void on() {
  if (g_stepping) asm volatile("lea -128(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp" ::: "memory", "cc");
}
static inline __attribute__((always_inline)) void off() {
  asm volatile("lea -128(%%rsp), %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp" ::: "memory", "cc");
}
#define RUN(e) ({ on(); auto run_r = (e); off(); run_r; })
#define RUNV(e) do { on(); (e); off(); } while (0)
struct Out { bool was = g_cur >= 0; Out() { off(); } ~Out() { if (was) on(); } };

// ---- objects ---------------------------------------------------------------------
alignas(16) static char g_obj[kTok][16];
static int g_central[kTok * 4], g_ncentral;
static long g_given, g_taken;
static int tok(void* p) {
  size_t d = (char*)p - &g_obj[0][0];
  VX_CHECK(d < sizeof g_obj && d % 16 == 0, "%p came out of the cache and was never put in", p);
  return d / 16;
}
static void absent(int k, const char* how) {
  for (int i = 0; i < g_n; ++i)
    for (int j = 0; j < g_t[i].nhand; ++j) VX_CHECK(g_t[i].hand[j] != k, "object %d comes out (%s) although thread %d holds it", k, how, i);
  for (int j = 0; j < g_ncentral; ++j) VX_CHECK(g_central[j] != k, "object %d comes out (%s) a second time", k, how);
}
static void to_central(void* p, const char* how) {
  int k = tok(p);
  absent(k, how);
  VX_CHECK(g_ncentral < kTok, "harness error");
  g_central[g_ncentral++] = k;
}
static void to_hand(int me, void* p, const char* how) {
  int k = tok(p);
  absent(k, how);
  g_t[me].hand[g_t[me].nhand++] = k;
}
static void* from_hand(int me) {
  VX_CHECK(g_t[me].nhand > 0, "harness error: nothing to put back");
  return g_obj[g_t[me].hand[--g_t[me].nhand]];
}
// an object of class 2 never comes out of class 1
static bool is2(void* p) { return tok(p) >= kTok - 4; }

// ---- what the allocator does with the slabs ------------------------------------------
static size_t shift_cap1(uint8_t s) { return maxcap(1, s); }
static void drained(int cpu, size_t c, void** b, size_t n, size_t cap) {
  Out out;
  VX_CHECK(cpu == 0 || cpu == 1, "drains CPU %d", cpu);
  VX_CHECK(n <= cap && cap <= 6, "drained %zu objects of a capacity of %zu", n, cap);
  for (size_t i = 0; i < n; ++i) { VX_CHECK(is2(b[i]) == (c == 2), "an object changed its class"); to_central(b[i], "drain"); }
  g_taken += cap;
}
static void shrunk(size_t c, void** b, size_t n) {
  Out out;
  for (size_t i = 0; i < n; ++i) { VX_CHECK(is2(b[i]) == (c == 2), "an object changed its class"); to_central(b[i], "shrink"); }
}
static void push1(int me) {
  void* p = from_hand(me);
  for (;;) {
    if (RUN(g_slab->Push(1, p))) return;
    auto [cpu, cached] = RUN(g_slab->CacheCpuSlab());
    if (cpu < 0) break;
    if (cached) continue;
    size_t n = RUN(g_slab->Grow(cpu, 1, 1, shift_cap1));
    g_given += n;
    if (!n) break;
  }
  to_central(p, "push failed");
}
static void pop1(int me) {
  for (;;) {
    void* p = RUN(g_slab->Pop(1));
    if (p) { to_hand(me, p, "pop"); return; }
    auto [cpu, cached] = RUN(g_slab->CacheCpuSlab());
    if (cpu < 0 || !cached) return;
  }
}
static void push_batch(int me) {
  void* b[3] = {from_hand(me), from_hand(me), from_hand(me)};
  void* in[3] = {b[0], b[1], b[2]};
  size_t left = 3;
  for (int round = 0; round < 3 && left; ++round) {
    size_t n = RUN(g_slab->PushBatch(1, b, left));
    VX_CHECK(n <= left, "%zu of %zu objects were put in", n, left);
    left -= n;
    for (size_t i = 0; i < left; ++i) VX_CHECK(b[i] == in[i], "a partial batch changed the objects left over");
    if (!left) break;
    auto [cpu, cached] = RUN(g_slab->CacheCpuSlab());
    if (cpu < 0 || !cached) break;
  }
  for (size_t i = 0; i < left; ++i) to_central(b[i], "batch not taken");
}
static void pop_batch(int me) {
  void* b[4] = {nullptr, nullptr, nullptr, (void*)kFill};
  for (;;) {
    size_t n = RUN(g_slab->PopBatch(1, b, 3));
    VX_CHECK(n <= 3 && b[3] == (void*)kFill, "%zu objects of 3 came out", n);
    for (size_t i = 0; i < n; ++i) to_hand(me, b[i], "pop batch");
    if (n) return;
    auto [cpu, cached] = RUN(g_slab->CacheCpuSlab());
    if (cpu < 0 || !cached) return;
  }
}
static void grow1(int me) {
  auto [cpu, cached] = RUN(g_slab->CacheCpuSlab());
  if (cpu < 0) return;
  g_given += RUN(g_slab->Grow(cpu, 1, 2, shift_cap1));
}
static void uncache(int me) { RUNV(g_slab->UncacheCpuSlab()); pop1(me); }
// by another thread, for CPU 0 or 1
static void drain(int cpu) { RUNV(g_slab->Drain(cpu, drained)); }
static void shrink(int cpu, int n) {
  RUNV(g_slab->StopCpu(cpu));
  g_taken += RUN(g_slab->ShrinkOtherCache(cpu, 1, n, shrunk));
  RUNV(g_slab->StartCpu(cpu));
}
static void steal() {
  RUNV(g_slab->StopCpu(0));
  size_t n = RUN(g_slab->ShrinkOtherCache(0, 1, 1, shrunk));
  g_taken += n;
  RUNV(g_slab->StartCpu(0));
  if (!n) return;
  RUNV(g_slab->StopCpu(1));
  g_given += RUN(g_slab->GrowOtherCache(1, 1, n, shift_cap1));
  RUNV(g_slab->StartCpu(1));
}
static bool populated(size_t) { return true; }
static size_t new_cap(size_t c) { return maxcap(c, 9); }
static void resize() {
  auto i = RUN(g_slab->ResizeSlabs(ToShiftType(9), g_slabs[1], new_cap, populated, drained));
  VX_CHECK(i.old_slabs == g_slabs[0] && i.old_slabs_size == 512, "the old slabs are reported wrongly");
  g_shift = 9;
}
static void bonus(int c, uint16_t cap) { g_cap_bonus[c] = int(cap) - int(c == 1 ? 2 : 1); }
static void update_max() {
  PerSizeClassMaxCapacity m[2] = {};
  m[0].size_class = 1;
  m[0].max_capacity = 4;
  m[1].size_class = 2;
  m[1].max_capacity = 0;
  auto i = RUN(g_slab->UpdateMaxCapacities(g_slabs[1], cap_now, bonus, populated, drained, m, 2));
  VX_CHECK(i.old_slabs == g_slabs[0] && i.old_slabs_size == 512, "the old slabs are reported wrongly");
}

static int g_op[kThreads], g_op2[kThreads];
static const char* kOps[] = {"push", "pop", "push batch", "pop batch", "grow", "uncache, pop", "drain CPU 0", "shrink CPU 0 by 1", "shrink CPU 0 by 3", "move capacity from CPU 0 to 1", "resize the slabs", "change the class limits"};
static const int kLocal = 6, kAll = 12;
static void run_op(int me, int op) {
  switch (op) {
    case 0: push1(me); break;
    case 1: pop1(me); break;
    case 2: push_batch(me); break;
    case 3: pop_batch(me); break;
    case 4: grow1(me); break;
    case 5: uncache(me); break;
    case 6: drain(0); break;
    case 7: shrink(0, 1); break;
    case 8: shrink(0, 3); break;
    case 9: steal(); break;
    case 10: resize(); break;
    case 11: update_max(); break;
  }
}
static void body_of(int me) {
  run_op(me, g_op[me]);
  if (g_op2[me] >= 0) run_op(me, g_op2[me]);
  fin();
}

static void be(int cpu) {  // the calling code runs on this CPU
  Th m = {};
  m.own = *live();
  m.tls = &m.own;
  m.cpu = cpu;
  gregset_t r = {};
  effects(m, r);
  *live() = m.own;
}
static void* arena_alloc(size_t n, std::align_val_t a) {
  uintptr_t p = ((uintptr_t)g_arena + (size_t)a - 1) & ~((size_t)a - 1);
  g_arena = (char*)(p + n);
  VX_CHECK(g_arena <= g_shared + 4096, "harness error");
  return (void*)p;
}
static void setup(int fill0) {
  static bool once;
  if (!once) {
    once = true;
    stack_t ss = {};
    ss.ss_sp = g_alt;
    ss.ss_size = sizeof g_alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = trap;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGTRAP, &sa, nullptr);
  }
  g_n = 0;
  g_ncentral = 0;
  g_given = g_taken = 0;
  for (size_t i = 0; i < sizeof g_shared; i += 8) memcpy(g_shared + i, &kFill, 8);
  memset(g_shared, 0, 4096);
  g_arena = g_shared;
  g_shift = 8;
  g_cap_bonus[1] = g_cap_bonus[2] = 0;
  // slabs of 2 CPUs, with a band of untouchable words around each
  g_slabs[0] = g_shared + 4096 + 512;
  g_slabs[1] = g_shared + 8192 + 1024;
  vcpu_mode = g_mm ? RseqVcpuMode::kMM : RseqVcpuMode::kNone;
  memset((void*)live(), 0, sizeof(Tls));
  rs(live())->cpu_id = kCpuIdUninitialized;
  __rseq_abi.cpu_id = kCpuIdUninitialized;
  VX_CHECK(InitFastPerCpu(), "the restartable sequences were not set up");
  be(0);
  g_slab = new (arena_alloc(sizeof(Slab), std::align_val_t{64})) Slab();
  g_slab->Init(arena_alloc, g_slabs[0], cap_now, ToShiftType(8));
  for (int cpu = 0; cpu < 2; ++cpu) {
    g_slab->InitCpu(cpu, cap_now);
    g_slab->StopCpu(cpu);
    size_t n1 = g_slab->GrowOtherCache(cpu, 1, cpu == 0 ? 2 : 1, shift_cap1);
    size_t n2 = g_slab->GrowOtherCache(cpu, 2, 1, [](uint8_t s) { return maxcap(2, s); });
    VX_CHECK(n1 == (cpu == 0 ? 2 : 1) && n2 == 1, "capacity was not given");
    g_given += n1 + n2;
    g_slab->StartCpu(cpu);
  }
  int next = 0;
  for (int v = 0; v < 2; ++v) {
    be(cid(v));
    g_slab->UncacheCpuSlab();
    VX_CHECK(g_slab->CacheCpuSlab().first == v, "the slab of CPU %d was not found", v);
    int f = v == 0 ? fill0 : 1;
    for (int i = 0; i < f; ++i) VX_CHECK(g_slab->Push(1, g_obj[next + i]), "push into an empty slab failed");
    next += f;
    VX_CHECK(g_slab->Push(2, g_obj[kTok - 1 - v]), "push into an empty slab failed");
  }
}
// Threads: where they start, what they do, what they hold.
static int g_next_tok;
static void thread(int cpu, int op, int op2, bool precached) {
  Th& t = g_t[g_n];
  memset((void*)t.r, 0, sizeof t.r);
  t.cpu = cpu;
  t.done = false;
  t.on = true;  // runs from the beginning unless another one has the CPU
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].cpu == cpu) t.on = false;
  t.fn = body_of;
  t.nhand = 0;
  t.tls = &t.own;
  g_op[g_n] = op;
  g_op2[g_n] = op2;
  memset((void*)live(), 0, sizeof(Tls));
  tcmalloc_cached_vcpu = kCpuIdUninitialized;
  be(cpu);
  tcmalloc_cached_vcpu = cid(cpu);
  if (precached) VX_CHECK(g_slab->CacheCpuSlab().first == cid(cpu), "the CPU's slab was not found");
  t.own = *live();
  ++g_n;
  int need = (op == 0) + (op2 == 0) + 3 * ((op == 2) + (op2 == 2));
  for (int i = 0; i < need; ++i) t.hand[t.nhand++] = g_next_tok++;
}
static void go() {
  g_steps = 0;
  g_fin = 0;
  g_start = 1;
  be(0);
  asm volatile("int3" ::: "memory");
  // every CPU's slab is well formed and gives back what it holds
  be(0);
  for (int cpu = 0; cpu < 2; ++cpu)
    for (int c = 1; c < kClasses; ++c) {
      size_t len = g_slab->Length(cpu, c), cap = g_slab->Capacity(cpu, c);
      VX_CHECK(len <= cap && cap <= cap_now(c), "CPU %d, class %d: %zu objects, capacity %zu, limit %zu", cpu, c, len, cap, cap_now(c));
    }
  for (int cpu = 0; cpu < 2; ++cpu) drain(cpu);
  VX_CHECK(g_given == g_taken, "a capacity of %ld was given to the slabs and %ld came back", g_given, g_taken);
  int seen[kTok] = {};
  uint64_t h = 1;
  for (int i = 0; i < g_n; ++i)
    for (int j = 0; j < g_t[i].nhand; ++j) ++seen[g_t[i].hand[j]], h = vx::mix(h, i * 100 + g_t[i].hand[j]);
  for (int j = 0; j < g_ncentral; ++j) ++seen[g_central[j]], h = vx::mix(h, 1000 + g_central[j]);
  for (int k = 0; k < kTok; ++k) {
    bool used = k < g_next_tok || k >= kTok - 2;
    VX_CHECK(seen[k] == used, "object %d exists %d times", k, seen[k]);
  }
  // nothing outside the slabs was written
  bool two = g_slab->GetShift() == 9;
  for (char* p = g_shared + 4096; p < g_shared + sizeof g_shared; p += 8) {
    uint64_t v;
    memcpy(&v, p, 8);
    bool may = false;
    for (int s = 0; s < 2; ++s)
      for (int cpu = 0; cpu < 2; ++cpu)
        for (int sh = 8; sh <= 9; ++sh) {
          if (s == 0 && sh == 9) continue;
          if (s == 1 && sh == 9 && !two) continue;
          if (s == 1 && sh == 8 && two) continue;
          long d = p - (g_slabs[s] + (cpu << sh));
          // headers, two marks, and at most six slots
          if (d >= 0 && d < 16 + 8 * (2 + 6)) may = true;
        }
    if (!may) VX_CHECK(v == kFill, "the word at offset %ld of the arena, outside every slab, was written", long(p - g_shared));
  }
  h = vx::mix(h, vx::mix(g_steps, g_given));
  vx::state(h);
  vx::step(1);
}

// What the threads do, where they start: chosen by the scenario.
struct Combo { int fill, pre, mm, n, order, cpu[3], op[3], op2; };
static void prepare(const Combo& c) {
  g_mm = c.mm;
  setup(c.fill);
  g_next_tok = c.fill + 1;
  for (int i = 0; i < c.n; ++i) {
    // "CPU 2" is CPU 1, with the thread last seen on CPU 0
    bool moved = c.cpu[i] == 2;
    thread(cid(moved ? 1 : c.cpu[i]), c.op[i], i == 0 ? c.op2 : -1, c.pre && !moved);
    if (moved) ((Tls*)&g_t[i].own)->vcpu = 0;
  }
  static const int kOrder[][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}};
  memcpy(g_order, kOrder[c.order], sizeof kOrder[0]);
}
static int pick(int n) {
  if (n <= 200) return choose(n);
  int hi = choose((n + 199) / 200);
  return hi * 200 + choose(n - hi * 200 < 200 ? n - hi * 200 : 200);
}
static void explore(const Combo& c, int events) {
  static uint64_t key[kMaxEv];
  uint64_t k = vx::hash_bytes(events, &c, sizeof c);
  for (int i = 0; i < c.n; ++i) vx::op("thread %d on CPU %d: %s%s%s", i, c.cpu[i], kOps[c.op[i]], i == 0 && c.op2 >= 0 ? ", then " : "", i == 0 && c.op2 >= 0 ? kOps[c.op2] : "");
  vx::op("%d objects cached%s%s, order %d", c.fill, c.pre ? ", slab known" : "", c.mm ? ", virtual CPUs" : "", c.order);
  g_nev = 0;
  for (int e = 0; e < events; ++e) {
    if (key[e] != k) {  // where can the next event happen?
      prepare(c);
      g_record = true;
      go();
      g_record = false;
      key[e] = k;
    }
    int p = pick(g_nrec[e] + 1);
    if (p == g_nrec[e]) return;
    Pt& pt = g_rec[e][p];
    int o = choose(pt.no);
    g_ev[g_nev++] = {pt.rip, pt.occ, pt.o[o]};
    k = vx::mix(k, p * 100 + o + 1);
  }
  prepare(c);
  go();
}
static void pair(int events, bool remote, bool reduced) {
  Combo c = {};
  c.n = 2;
  c.op2 = -1;
  c.fill = reduced ? 1 : choose(3);
  c.pre = reduced ? 1 : choose(2);
  c.mm = reduced ? 0 : choose(2);
  c.cpu[1] = choose(remote ? 3 : 2);
  c.op[0] = choose(kLocal);
  c.op[1] = remote ? kLocal + choose(kAll - kLocal) : choose(kLocal);
  c.order = remote ? choose(2) : 0;
  if (reduced && remote) {
    if (c.cpu[1] == 2) return;
    c.pre = !c.order;  // the one that starts first may know its slab
  }
  explore(c, events);
}
static void local1() { pair(1, false, false); }
static void remote1() { pair(1, true, false); }
static void local2() { pair(2, false, !vx::thorough()); }
static void remote2() { pair(2, true, !vx::thorough()); }
// More switches, but only before accesses to the shared memory itself.
static void switches() {
  g_only_switch = true;
  Combo c = {};
  c.n = 2;
  c.op2 = -1;
  c.fill = vx::thorough() ? choose(3) : 1;
  c.pre = vx::thorough() ? choose(2) : 0;
  c.order = choose(2);
  c.cpu[1] = vx::thorough() ? choose(2) : 1;
  c.op[0] = choose(kLocal);
  c.op[1] = choose(kAll);
  explore(c, vx::thorough() ? 4 : 3);
}
static void two_ops() {
  Combo c = {};
  c.n = 2;
  c.fill = choose(3);
  c.pre = vx::thorough() ? choose(2) : 1;
  c.op[0] = choose(kLocal);
  c.op2 = choose(kLocal);
  c.op[1] = choose(kAll);
  c.cpu[1] = choose(2);
  explore(c, vx::thorough() ? 2 : 1);
}
static void three() {
  Combo c = {};
  c.n = 3;
  c.op2 = -1;
  c.fill = vx::thorough() ? choose(3) : 1;
  c.pre = 1;
  c.op[0] = choose(kLocal);
  c.op[1] = choose(kLocal);
  c.op[2] = kLocal + choose(kAll - kLocal);
  c.cpu[1] = choose(2);
  c.cpu[2] = 1;
  c.order = choose(6);
  explore(c, vx::thorough() ? 2 : 1);
}

int main(int argc, char** argv) {
  vx::Scenario s[] = {
      {"two local operations, one event", local1, 1000},
      {"local and remote operation, one event", remote1, 2000},
      {"many switches", switches, 2000},
      {"two operations in a row", two_ops, 2000},
      {"three threads", three, 2000},
      {"two local operations, two events", local2, 2000},
      {"local and remote operation, two events", remote2, 2000},
  };
  return vx::explore_main(argc, argv, s, sizeof s / sizeof *s);
}

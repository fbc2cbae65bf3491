// C28: guarded allocations. First the guarded-page allocator by itself (every
// size x alignment, every short history, every misuse at every offset), then
// the whole allocator with every allocation guarded.
#include <setjmp.h>
#include <signal.h>
#include <sys/wait.h>
#include "lib/e2e.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/static_vars.h"
using namespace e2e;
using vx::choose;
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::Profile;
typedef uintptr_t u;

// Readable? (asked of the kernel, no signal involved)
static int g_pipe[2] = {-1, -1};
static bool accessible(u a) {
  if (g_pipe[0] < 0 && pipe(g_pipe)) vx::fail("harness error: pipe");
  char c;
  if (write(g_pipe[1], reinterpret_cast<void*>(a), 1) == 1) {
    if (read(g_pipe[0], &c, 1) != 1) vx::fail("harness error: pipe");
    return true;
  }
  return false;
}
static sigjmp_buf g_jmp;
static volatile u g_fault;
static void on_segv(int, siginfo_t* si, void*) {
  g_fault = reinterpret_cast<u>(si->si_addr);
  siglongjmp(g_jmp, 1);
}
// Runs f; true if it faulted.
template <typename F>
static bool faults(F f) {
  struct sigaction sa, o1, o2;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, &o1);
  sigaction(SIGBUS, &sa, &o2);
  volatile bool r = false;
  if (sigsetjmp(g_jmp, 1) == 0) f(); else r = true;
  sigaction(SIGSEGV, &o1, nullptr);
  sigaction(SIGBUS, &o2, nullptr);
  return r;
}
// Runs f in a copy of the process; true if that died by a signal.
template <typename F>
static bool dies(F f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    signal(SIGSEGV, SIG_DFL);
    signal(SIGABRT, SIG_DFL);
    alarm(5);
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

alignas(64) static char g_buf[sizeof(GuardedPageAllocator)];
static GuardedPageAllocator* G;
static u g_lo, g_hi;  // the mapped range
static size_t g_pg;
static int g_total, g_max;

struct Ga { u p; size_t n, al; int depth; u tag; bool live; };
static Ga g_slot[40];       // last allocation of each slot (n = SIZE_MAX: never used)
static int g_live;

static void start(int mx, int total) {
  g_max = mx;
  g_total = total;
  memset(g_buf, 0, sizeof g_buf);
  G = new (g_buf) GuardedPageAllocator();
  {
    PageHeapSpinLockHolder l;
    G->Init(mx, total);
  }
  g_pg = G->page_size();
  g_live = 0;
  g_lo = g_hi = 0;
  for (auto& s : g_slot) s = {0, SIZE_MAX, 0, 0, 0, false};
  tcmalloc::tcmalloc_internal::StackTrace st;
  memset(&st, 0, sizeof st);
  auto r = G->Allocate(8, std::align_val_t{8}, st);
  VX_CHECK(r.alloc == nullptr && r.status == Profile::Sample::GuardedStatus::NoAvailableSlots, "allocation before allocations are allowed");
  G->AllowAllocations();
}
static void finish() { G->Destroy(); }

static int slot_of(u a) { return int((a - g_lo) / g_pg - 1) / 2; }
static u slot_addr(int s) { return g_lo + (2 * s + 1) * g_pg; }

static int alloc(size_t n, size_t al, bool may_fail = false) {
  static u serial = 0x1000;
  tcmalloc::tcmalloc_internal::StackTrace st;
  memset(&st, 0, sizeof st);
  serial += 16;
  st.depth = 1 + serial / 16 % 5;
  for (int i = 0; i < (int)st.depth; ++i) st.stack[i] = reinterpret_cast<void*>(serial + i);
  size_t avail = G->GetNumAvailablePages();
  VX_CHECK(avail == size_t(g_max - g_live), "%zu pages available with %d of %d in use", avail, g_live, g_max);
  auto r = G->Allocate(n, std::align_val_t{al}, st);
  vx::step();
  if (g_live == g_max) {
    VX_CHECK(!r.alloc && r.status == Profile::Sample::GuardedStatus::NoAvailableSlots, "more than %d guarded allocations", g_max);
    return -1;
  }
  if (may_fail && !r.alloc) {
    VX_CHECK(r.status == Profile::Sample::GuardedStatus::MProtectFailed, "status %d", (int)r.status);
    VX_CHECK(G->GetNumAvailablePages() == avail, "a failed allocation keeps its slot");
    return -2;
  }
  VX_CHECK(r.alloc && r.status == Profile::Sample::GuardedStatus::Guarded, "no guarded allocation although %d of %d pages are in use", g_live, g_max);
  u p = reinterpret_cast<u>(r.alloc);
  if (!g_lo) {
    g_lo = p & ~(g_pg - 1);
    g_hi = g_lo;
    while (G->PointerIsMine(reinterpret_cast<void*>(g_lo - 1))) g_lo -= g_pg;
    while (G->PointerIsMine(reinterpret_cast<void*>(g_hi))) g_hi += g_pg;
    VX_CHECK((g_hi - g_lo) / g_pg == size_t(2 * g_total + 1), "%zu pages are managed for %d slots", (g_hi - g_lo) / g_pg, g_total);
  }
  VX_CHECK(g_lo < p && p + n <= g_hi, "block outside of the managed range");
  VX_CHECK(((p - g_lo) / g_pg) % 2 == 1, "block at page %zu of the range, next to another block's page", (p - g_lo) / g_pg);
  VX_CHECK(p % (al ? al : 1) == 0, "alignment %zu: %#zx", al, (size_t)p);
  VX_CHECK((p & ~(g_pg - 1)) == ((p + (n ? n - 1 : 0)) & ~(g_pg - 1)), "%zu bytes at %#zx cross a page", n, (size_t)p);
  int s = slot_of(p);
  VX_CHECK(!g_slot[s].live, "page of a live block handed out again");
  VX_CHECK(GetMemoryTag(r.alloc) == MemoryTag::kSampled, "not tagged as sampled");
  VX_CHECK(G->PointerIsMine(r.alloc) && G->PointerIsCorrectlyAligned(r.alloc), "block is not recognised");
  g_slot[s] = {p, n, al, (int)st.depth, serial, true};
  ++g_live;
  if (n) memset(reinterpret_cast<void*>(p), 0x41 + s, n);
  return s;
}
static void check_one(int s) {
  Ga& g = g_slot[s];
  if (!g.live) return;
  VX_CHECK(G->GetRequestedSize(reinterpret_cast<void*>(g.p)) == g.n, "requested %zu, recorded %zu", g.n, G->GetRequestedSize(reinterpret_cast<void*>(g.p)));
  for (size_t i = 0; i < g.n; ++i)
    if (*reinterpret_cast<char*>(g.p + i) != char(0x41 + s)) vx::fail("byte %zu of a guarded block changed", i);
}
static void check_pages() {
  if (!g_lo) return;
  for (u a = g_lo; a < g_hi; a += 4096) {
    size_t pg = (a - g_lo) / g_pg;
    bool want = pg % 2 == 1 && g_slot[pg / 2].live && g_slot[pg / 2].n > 0;
    bool got = accessible(a);
    VX_CHECK(got == want, "page %zu of the guarded range is %saccessible (%s)", pg, got ? "" : "not ", pg % 2 == 0 ? "a guard page" : g_slot[pg / 2].live ? "holds a live block" : "holds no live block");
  }
  for (int s = 0; s < g_total; ++s) check_one(s);
}
// What an access at `a` should be reported as.
static void check_class(u a) {
  size_t pg = (a - g_lo) / g_pg, off = (a - g_lo) % g_pg;
  int s;
  if (pg % 2) s = pg / 2;
  else if (pg == 0) s = 0;
  else if ((int)pg == 2 * g_total) s = g_total - 1;
  else s = off < g_pg / 2 ? pg / 2 - 1 : pg / 2;
  GuardedAllocationsStackTrace *at = nullptr, *dt = nullptr;
  auto e = G->GetStackTraces(reinterpret_cast<void*>(a), &at, &dt);
  Ga& g = g_slot[s];
  vx::step();
  if (g.n == SIZE_MAX) {
    VX_CHECK(e == GuardedAllocationsErrorType::kUnknown, "access near a page never used classified %d", (int)e);
    return;
  }
  VX_CHECK((int)at->depth == g.depth && at->stack[0] == reinterpret_cast<void*>(g.tag), "access at page %zu offset %zu is attributed to another allocation", pg, off);
  auto os = G->GetAllocationOffsetAndSize(reinterpret_cast<void*>(a));
  VX_CHECK(os.first == off_t(a - g.p) && os.second == g.n, "offset %ld size %zu, expected %ld %zu", (long)os.first, os.second, (long)(a - g.p), g.n);
  if (!g.live) {
    VX_CHECK(e == GuardedAllocationsErrorType::kUseAfterFree, "access to a released block classified %d", (int)e);
    VX_CHECK(dt->depth > 0, "no release trace");
  } else {
    VX_CHECK(dt->depth == 0, "a release trace for a live block");
    if (a < g.p) VX_CHECK(e == GuardedAllocationsErrorType::kBufferUnderflow, "access before the block classified %d", (int)e);
    else if (a >= g.p + g.n) VX_CHECK(e == GuardedAllocationsErrorType::kBufferOverflow, "access past the block classified %d", (int)e);
  }
}
static void release(int s) {
  check_one(s);
  u p = g_slot[s].p;
  bool f = faults([&] { G->Deallocate(reinterpret_cast<void*>(p)); });
  vx::step();
  VX_CHECK(!f, "a valid release of a %zu byte block faulted", g_slot[s].n);
  g_slot[s].live = false;
  --g_live;
}

// Every size and alignment, on both kinds of slot.
static void sizes() {
  init();
  start(2, 2);
  int l = choose(15);
  size_t al = l == 0 ? 0 : size_t{1} << (l - 1);
  if (al > g_pg) { finish(); return; }
  int part = choose(64);
  vx::op("alignment %zu, sizes %zu modulo 64", al, (size_t)part);
  for (size_t n = part; n <= g_pg; n += 64) {
    int a = alloc(n, al), b = alloc(n, al);
    vx::state(vx::mix(n, al));
    VX_CHECK(alloc(1, 0) == -1, "limit");
    VX_CHECK(a != b, "the same page twice");
    check_one(a);
    check_one(b);
    if (n % 64 == 0 || n + 64 > g_pg || n < 64) check_pages();
    // a write just past a block at the end of its page does not fit any more
    for (int s : {a, b}) {
      Ga& g = g_slot[s];
      if (n == 0) continue;
      size_t left = g.p & (g_pg - 1), right = g_pg - left - n;
      VX_CHECK(left == 0 || right < (al ? al : 1) + 16, "a block of %zu aligned to %zu lies %zu from the start and %zu from the end of its page", n, al, left, right);
    }
    release(choose(1) ? a : b);
    release(a == (g_slot[a].live ? a : -1) ? a : b);
    if (n < 64) { check_pages(); check_class(g_slot[a].p); }
  }
  VX_CHECK(G->GetNumAvailablePages() == 2, "slots are not returned");
  finish();
}

static void history() {
  init();
  static const int kCfg[][2] = {{1, 1}, {1, 2}, {2, 2}, {2, 3}, {3, 4}, {4, 4}};
  int c = choose(6);
  start(kCfg[c][0], kCfg[c][1]);
  static const size_t kS[] = {1, 24, 0, 4000};
  int depth = vx::thorough() ? 8 : 6;
  uint64_t h = c;
  int ids[8], nid = 0;
  bool fail_next = false;
  for (int d = 0; d < depth; ++d) {
    int o = choose(3 + 3);
    h = vx::mix(h, o);
    if (o < 4) {
      vx::op("allocate %zu", kS[o]);
      int s = alloc(kS[o], o == 1 ? 8 : 1, fail_next);
      if (s >= 0) ids[nid++] = s;
    } else if (nid == 0) {
      break;
    } else {
      int k = o == 4 ? 0 : nid - 1;
      vx::op("free %s", o == 4 ? "oldest" : "newest");
      release(ids[k]);
      memmove(ids + k, ids + k + 1, (nid - k - 1) * sizeof(int));
      --nid;
    }
    VX_CHECK(G->GetNumAvailablePages() == size_t(g_max - g_live), "%zu pages available, %d of %d in use", G->GetNumAvailablePages(), g_live, g_max);
    check_pages();
  }
  vx::state(h);
  if (g_lo)
    for (u a = g_lo; a < g_hi; a += g_pg / 8) { check_class(a); check_class(a + g_pg / 8 - 1); }
  while (nid) release(ids[--nid]);
  VX_CHECK(G->GetNumAvailablePages() == (size_t)g_max, "slots are not returned");
  check_pages();
  finish();
}

// mprotect refused at each allocation.
static int g_skip;
static bool refuse(OsCall c, void*, size_t, int) { return c == kMprotect && g_skip-- == 0; }
static void refused() {
  init();
  start(2, 3);
  int when = choose(4), n = choose(3);
  uint64_t h = when * 3 + n;
  vx::op("mprotect refused at allocation %d", when);
  vx::state(h);
  g_skip = when;
  int ids[8], k = 0;
  for (int i = 0; i < 5; ++i) {
    os_hook = refuse;
    int s = alloc(16 + n * 1000, 8, true);
    os_hook = nullptr;
    if (s >= 0) ids[k++] = s;
    check_pages();
    if (k == 2) { release(ids[0]); ids[0] = ids[1]; --k; }
  }
  while (k) release(ids[--k]);
  VX_CHECK(G->GetNumAvailablePages() == 2, "slots are not returned");
  finish();
}

// Writes past a block placed at the end of its page, and double releases.
static void misuse() {
  init();
  start(2, 2);
  static const size_t kN[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 1000, 4090, 5001};
  static const size_t kA[] = {0, 1, 2, 8, 16, 32, 64, 256, 4096};
  size_t n = kN[choose(17)], al = kA[choose(9)];
  int pos = choose(34);  // 32: double free, 33: use after free
  int a = alloc(n, al), b = alloc(n, al);
  vx::state(vx::mix(n, al * 64 + pos));
  // b: right-aligned if its page offset is not zero
  for (int s : {a, b}) {
    Ga g = g_slot[s];
    size_t off = g.p & (g_pg - 1), pad = g_pg - off - n;
    GuardedAllocationsStackTrace *at, *dt;
    if (pos < 32) {
      bool right = off != 0;
      if (!right || pos >= (int)pad) continue;
      vx::op("block of %zu aligned to %zu at page offset %zu: byte %d past its end written", n, al, off, pos);
      volatile char* q = reinterpret_cast<char*>(g.p + n + pos);
      *q = ~*q;
      bool f = faults([&] { G->Deallocate(reinterpret_cast<void*>(g.p)); });
      VX_CHECK(f, "release did not notice");
      VX_CHECK(g_fault >= (g.p & ~(g_pg - 1)) && g_fault < (g.p & ~(g_pg - 1)) + g_pg, "the fault is elsewhere");
      auto e = G->GetStackTraces(reinterpret_cast<void*>(g_fault), &at, &dt);
      VX_CHECK(e == GuardedAllocationsErrorType::kBufferOverflowOnDealloc, "classified %d", (int)e);
    } else if (pos == 32) {
      vx::op("double free of %zu aligned to %zu", n, al);
      release(s);
      bool f = faults([&] { G->Deallocate(reinterpret_cast<void*>(g.p)); });
      VX_CHECK(f, "a double release went unnoticed");
      auto e = G->GetStackTraces(reinterpret_cast<void*>(g_fault), &at, &dt);
      VX_CHECK(e == GuardedAllocationsErrorType::kDoubleFree, "classified %d", (int)e);
      VX_CHECK((int)at->depth == g.depth && at->stack[0] == reinterpret_cast<void*>(g.tag), "attributed to another allocation");
    } else {
      vx::op("use after free of %zu", n);
      release(s);
      bool f = faults([&] { *reinterpret_cast<volatile char*>(g.p) = 1; });
      VX_CHECK(f, "a write to a released block went unnoticed");
      check_class(g.p);
      // the neighbouring guard pages
      for (u q : {(g.p & ~(g_pg - 1)) - 1, (g.p | (g_pg - 1)) + 1}) VX_CHECK(!accessible(q), "guard page is accessible");
    }
    vx::step();
  }
  finish();
}

// ---- whole allocator, every allocation guarded -----------------------------------
static GuardedPageAllocator& gpa() { return tc_globals.guardedpage_allocator(); }
static void e2e_init() {
  init(1);
  static bool done;
  if (done) return;
  done = true;
  guarded_blocks = true;
  MallocExtension::SetGuardedSamplingInterval(0);
  MallocExtension::ActivateGuardedSampling();
}
static void e2e_entries() {
  e2e_init();
  int e = choose(kNumAllocs);
  static const size_t kS[] = {0, 1, 7, 8, 16, 17, 100, 1000, 4097, 8191, 8192};
  static const size_t kA[] = {8, 16, 64, 512, 4096};
  size_t n = kS[choose(11)];
  size_t al = kAllocs[e].aligned ? kA[choose(5)] : 0;
  if (al && n == 0) n = 1;
  vx::op("%s(%zu, %zu)", kAllocs[e].name, n, al);
  vx::state(vx::mix(vx::mix(e, n), al));
  size_t base = in_use(), avail = gpa().GetNumAvailablePages();
  size_t pg = gpa().page_size();
  for (int f = 0; f < kNumFrees; ++f) {
    Block probe{nullptr, n, n, al, e, 0};
    if (!free_matches(kFrees[f], probe)) continue;
    for (int v = 0; v < 2; ++v) {
      if (v == 1 && !kFrees[f].sized) continue;
      Got g = kAllocs[e].fn({n, al});
      int b = adopt(g.p, n, al, e, g.cap);
      vx::step();
      void* p = blk[b].p;
      bool mine = gpa().PointerIsMine(p);
      size_t us = blk[b].usable;
      if (mine) {
        VX_CHECK(gpa().GetRequestedSize(p) == us, "recorded %zu, usable %zu", gpa().GetRequestedSize(p), us);
        if (!kAllocs[e].sized) VX_CHECK(us == n || (n == 0 && us <= 8), "%s(%zu) guarded with %zu bytes", kAllocs[e].name, n, us);
        else VX_CHECK(us == g.cap, "capacity");
        u q = reinterpret_cast<u>(p) & ~(pg - 1);
        VX_CHECK(!accessible(q - 1) && !accessible(q + pg), "a neighbouring page of a guarded block is accessible");
        vx::extra(0);
      }
      VX_CHECK(!mine || gpa().GetNumAvailablePages() == avail - 1, "slot accounting");
      do_free(b, f, false, v ? (g.cap ? g.cap : n) : n);
      if (mine) VX_CHECK(!accessible(reinterpret_cast<u>(p)), "released guarded block is still accessible");
      VX_CHECK(gpa().GetNumAvailablePages() == avail, "slots after release: %zu, before %zu", gpa().GetNumAvailablePages(), avail);
    }
  }
  VX_CHECK(in_use() == base, "in use %zu, before %zu", in_use(), base);
}
// Every allocation of at most a page is guarded while slots last.
static void e2e_fill() {
  e2e_init();
  static const size_t kS[] = {8, 100, 3000};
  size_t n = kS[choose(3)];
  int order = choose(3);
  size_t base = in_use(), avail = gpa().GetNumAvailablePages();
  int guarded = 0;
  int m = find_alloc("malloc");
  vx::op("malloc(%zu) until the slots are used up", n);
  vx::state(n * 3 + order);
  for (size_t i = 0; i < avail + 8; ++i) {
    int b = do_alloc(m, n);
    bool mine = gpa().PointerIsMine(blk[b].p);
    guarded += mine;
    VX_CHECK(mine == (i < avail), "allocation %zu of %zu slots is %sguarded", i, avail, mine ? "" : "not ");
  }
  VX_CHECK(gpa().GetNumAvailablePages() == 0, "slots");
  verify_all();
  while (nblk) free_any(order == 0 ? nblk - 1 : order == 1 ? 0 : nblk / 2);
  VX_CHECK(gpa().GetNumAvailablePages() == avail, "slots after release: %zu, before %zu", gpa().GetNumAvailablePages(), avail);
  VX_CHECK(in_use() == base, "in use %zu, before %zu", in_use(), base);
}
static void e2e_misuse() {
  e2e_init();
  int what = choose(6);
  static const size_t kS[] = {1, 8, 24, 100, 4000};
  size_t n = kS[choose(5)];
  vx::op("misuse %d of malloc(%zu)", what, n);
  vx::state(what * 8 + n);
  for (int i = 0; i < 6; ++i) {  // both kinds of slot
    char* p = static_cast<char*>(malloc(n));
    VX_CHECK(gpa().PointerIsMine(p), "malloc(%zu) is not guarded", n);
    size_t pg = gpa().page_size();
    u off = reinterpret_cast<u>(p) & (pg - 1), pad = pg - off - n;
    vx::step();
    switch (what) {
      case 0: VX_CHECK(dies([&] { free(p); free(p); }), "double free survived"); break;
      case 1: VX_CHECK(dies([&] { free(p); *reinterpret_cast<volatile char*>(p) = 1; }), "use after free survived"); break;
      case 2: if (off && pad) VX_CHECK(dies([&] { p[n] ^= 0x55; free(p); }), "overflow into the padding survived release"); break;
      case 3: VX_CHECK(dies([&] { volatile char* q = p + n + pad; *q = 1; }), "overflow onto the next page survived"); break;
      case 4: VX_CHECK(dies([&] { volatile char* q = p - off - 1; *q = 1; }), "underflow onto the page before survived"); break;
      case 5: VX_CHECK(dies([&] { free(p + (n > 8 ? 8 : 1)); }), "release of an interior pointer survived"); break;
    }
    if (i % 2 == 0) free(p); else { char* q = static_cast<char*>(realloc(p, n + 50)); VX_CHECK(q, "realloc"); free(q); }
  }
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"sizes", sizes, 50}, {"histories", history, 200}, {"refused", refused, 50}, {"misuse", misuse, 100},
                                    {"every entry guarded", e2e_entries, 100}, {"all slots", e2e_fill, 4}, {"misuse of guarded blocks", e2e_misuse, 10}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

// C07: the operating system refuses memory at every possible point.
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;

// Refusal plan: eligible calls number `from` .. `from + len - 1` are refused.
static int g_from, g_len, g_count;
static bool g_active, g_meta;
static int g_refused, g_seen;
static bool hook(OsCall c, void* addr, size_t, int) {
  if (!g_active) return false;
  if (c == kMunmap) return false;     // giving back address space is not asking for memory
  bool meta = tcmalloc::tcmalloc_internal::GetMemoryTag(addr) == tcmalloc::tcmalloc_internal::MemoryTag::kMetadata;
  if (meta != g_meta) return false;
  ++g_seen;
  int n = g_count++;
  if (n < g_from || n - g_from >= g_len) return false;
  ++g_refused;
  return true;
}
constexpr int kForever = 1 << 28;

// Runs a throwing form in a copy: it must give a block or end the process.
static bool dies(int e, Req r) {
  int fd = memfd_create("err", 0);
  pid_t c = fork();
  if (c < 0) vx::fail("harness error: fork");
  if (c == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd, 2);
    Got g = kAllocs[e].fn(r);
    _exit(g.p ? 50 : 51);
  }
  int st;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  struct stat sb;
  fstat(fd, &sb);
  close(fd);
  if (WIFEXITED(st)) {
    VX_CHECK(WEXITSTATUS(st) == 50, "%s(%zu) without memory: %s", kAllocs[e].name, r.size,
             WEXITSTATUS(st) == 51 ? "returned null" : "exited");
    return false;
  }
  VX_CHECK(WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL, "%s(%zu) without memory: signal %d", kAllocs[e].name, r.size, WTERMSIG(st));
  VX_CHECK(sb.st_size > 0, "%s(%zu) without memory: no diagnostic", kAllocs[e].name, r.size);
  return true;
}

struct Op { const char* entry; size_t size, align; int count; };
static const Op kOps[] = {
    {"malloc", 8192, 0, 300}, {"malloc", 1 << 20, 0, 3}, {"malloc", 5 << 20, 0, 1}, {"calloc", 40 << 20, 0, 1},
    {"new nothrow", 64, 0, 200}, {"new cold nothrow", 2048, 0, 40}, {"new align nothrow", 3 << 20, 2 << 20, 1},
    {"posix_memalign", 100000, 1 << 19, 6}, {"memalign", 16, 2 << 20, 1}, {"size_returning hot_cold nothrow", 400000, 0, 3},
    {"alloc_at_least", 200000, 0, 20}, {"malloc", (size_t{1} << 30) + 1, 0, 1}};
constexpr int kNOps = sizeof(kOps) / sizeof(kOps[0]);
static size_t g_base;

// One allocation under refusal; returns whether it failed.
static bool attempt(int e, size_t size, size_t align) {
  const Alloc& a = kAllocs[e];
  if (!a.aligned) align = 0;
  int before = g_refused;
  errno = 0;
  bool huge = size > (64 << 20);
  Got g = a.fn({size, align});
  int er = errno;
  vx::step();
  if (!g.p) {
    VX_CHECK(g_refused > before, "%s(%zu, align %zu) failed although nothing was refused", a.name, size, align);
    if (a.fam == kMallocFam) VX_CHECK(er == ENOMEM, "%s(%zu) failed with errno %d", a.name, size, er);
    VX_CHECK(g.cap == 0, "%s(%zu) failed but states a capacity of %zu", a.name, size, g.cap);
    return true;
  }
  if (a.zeroed && !huge)
    for (size_t o = 0; o < size; o += (size > 4096 ? 4001 : 1)) VX_CHECK(static_cast<char*>(g.p)[o] == 0, "%s(%zu): byte %zu not zero", a.name, size, o);
  adopt(g.p, size, align, e, g.cap);
  return false;
}

static void quiet() {
  if (vx::replaying()) return;
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
}
static void body_impl(bool grow) {
  quiet();
  init();
  pin(0);
  g_base = in_use();
  int nops = vx::thorough() || rseq_possible() ? 2 : 1;
  int seq[3];
  uint64_t h = grow;
  for (int i = 0; i < nops; ++i) { seq[i] = choose(kNOps + (grow ? 0 : 2)); h = vx::mix(h, seq[i]); }
  g_from = choose(vx::thorough() ? 24 : grow ? 4 : 6);
  static const int kLen[] = {kForever, 1, 2, 3};
  g_len = kLen[choose(vx::thorough() ? 4 : grow ? 2 : 3)];
  g_count = g_refused = g_seen = 0;
  os_hook = hook;
  vx::state(vx::mix(vx::mix(h, g_from), g_len));
  // blocks that live through it all
  for (int i = 0; i < 20; ++i) do_alloc(find_alloc("malloc"), 24 + i * 100);
  do_alloc(find_alloc("malloc"), 300000);
  for (int i = 0; i < nops; ++i) {
    if (seq[i] >= kNOps) {
      g_active = true;
      size_t u0 = books().unmapped();
      int r0 = g_refused, s0 = g_seen;
      if (seq[i] == kNOps) {
        vx::op("free half, release");
        for (int k = nblk - 1; k >= 0; k -= 2) free_any(k);
        MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
      } else {
        vx::op("free all large, release");
        for (int k = nblk - 1; k >= 0; --k) if (blk[k].usable > 100000) free_any(k);
        MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
      }
      g_active = false;
      if (g_seen > s0 && g_refused - r0 == g_seen - s0)
        VX_CHECK(books().unmapped() == u0, "every release was refused but returned bytes went from %zu to %zu", u0, books().unmapped());
      verify_all();
      check_books(g_base + model_bytes());
      continue;
    }
    const Op& o = kOps[seq[i]];
    int e = find_alloc(o.entry);
    vx::op("%d x %s(%zu,%zu)", o.count, o.entry, o.size, o.align);
    g_active = true;
    bool failed = false;
    for (int k = 0; k < o.count; ++k) failed |= attempt(e, o.size, o.align);
    if (grow && nblk > 3) {
      // growing a block that cannot be moved leaves it as it was
      Block b = blk[nblk - 1];
      size_t n = b.usable * 2 + (5 << 20);
      if (kAllocs[b.entry].fam == kMallocFam && n < (100 << 20)) {
        int r0 = g_refused;
        errno = 0;
        void* p = realloc(b.p, n);
        int er = errno;
        if (p) {
          g_active = false;
          forget(nblk - 1);
          for (size_t o2 = 0; o2 + 8 <= b.req && o2 < 512; o2 += 8) {
            uint64_t w;
            memcpy(&w, static_cast<char*>(p) + o2, 8);
            VX_CHECK(w == word(b.id, o2), "realloc lost the contents");
          }
          adopt(p, n, 0, find_alloc("malloc"), 0);
          g_active = true;
        } else {
          VX_CHECK(g_refused > r0 && er == ENOMEM, "realloc(%zu) failed, errno %d, refused calls %d", n, er, g_refused - r0);
        }
      }
    }
    g_active = false;
    verify_all();
    check_books(g_base + model_bytes());
    if (failed) {
      // granted again: the same request succeeds
      do_alloc(e, o.size, o.align);
      verify_all();
      check_books(g_base + model_bytes());
    }
  }
  vx::extra(0, g_refused > 0);
  verify_all();
  free_all();
  check_books(g_base);
  os_hook = nullptr;
}
static void body() { body_impl(false); }
static void body_grow() { body_impl(true); }

// The throwing forms end the process with a diagnostic.
static void throwing() {
  init();
  int e = choose(kNumAllocs);
  if (!kAllocs[e].throws) return;
  static const size_t kS[] = {8192, 1 << 20, 40 << 20, size_t{3} << 29, size_t{1} << 45, SIZE_MAX - 100, SIZE_MAX};
  size_t n = kS[choose(7)];
  int a = choose(2);
  vx::op("%s(%zu) without memory", kAllocs[e].name, n);
  vx::state(vx::mix(e, n + a));
  os_hook = hook;
  g_from = 0; g_len = kForever; g_active = true; g_count = 0;
  for (int i = 0; i < (n < 10000 ? (vx::thorough() ? 100 : 40) : 2); ++i) if (dies(e, {n, a ? 1u << 20 : 32u})) vx::extra(1);
  g_active = false;
  // With a whole heap exhausted, not even one block may appear for huge sizes.
  if (n >= (40 << 20)) {
    g_active = true;
    VX_CHECK(dies(e, {n, 32}), "%s(%zu) returned a block although no memory is available", kAllocs[e].name, n);
    g_active = false;
  }
}

// Sizes no system can grant.
static void impossible() {
  quiet();
  init();
  int e = choose(kNumAllocs);
  if (kAllocs[e].throws) return;
  static const size_t kAl[] = {8, 4096, 8192, 1 << 21, 1 << 22, 1 << 30, size_t{1} << 40, size_t{1} << 47, size_t{1} << 63};
  size_t al = kAllocs[e].aligned ? kAl[choose(9)] : 8;
  g_base = in_use();
  vx::op("%s align %zu, impossible sizes", kAllocs[e].name, al);
  vx::state(vx::mix(e, al));
  for (int i = 0; i < 5; ++i) do_alloc(find_alloc("malloc"), 100 + i * 100000);
  static size_t v[400];
  static int nv;
  if (!nv) {
    for (int k = 47; k < 64; ++k) for (int d = -1; d <= 1; ++d) v[nv++] = (size_t{1} << k) + d;
    for (size_t b : {size_t{0}, size_t{4096}, size_t{8192}, size_t{1} << 18, size_t{1} << 20, size_t{1} << 21, size_t{1} << 30, size_t{1} << 42})
      for (size_t d = 0; d < 20; ++d) { v[nv++] = SIZE_MAX - b - d; if (b) v[nv++] = SIZE_MAX - b + d; }
  }
  for (int i = 0; i < nv; ++i) {
    errno = 0;
    Got g = kAllocs[e].fn({v[i], al});
    int er = errno;
    VX_CHECK(g.p == nullptr, "%s(%zu, align %zu) returned %p", kAllocs[e].name, v[i], al, g.p);
    if (kAllocs[e].fam == kMallocFam) VX_CHECK(er == ENOMEM, "%s(%zu, align %zu): errno %d", kAllocs[e].name, v[i], al, er);
    VX_CHECK(g.cap == 0, "%s(%zu) failed but states a capacity of %zu", kAllocs[e].name, v[i], g.cap);
    vx::step();
    if (i < 3) {
      void* p = valloc(v[i]);
      VX_CHECK(!p, "valloc(%zu) returned %p", v[i], p);
    }
  }
  if (al > kHugePageSize) {
    // an alignment beyond a huge page fails, or is honoured
    for (size_t n : {size_t{0}, size_t{1}, size_t{100}, size_t{100000}, size_t{3} << 20}) {
      Got g = kAllocs[e].fn({n, al});
      if (g.p) {
        VX_CHECK(reinterpret_cast<uintptr_t>(g.p) % al == 0, "%s(%zu, align %zu) returned %p", kAllocs[e].name, n, al, g.p);
        if (kAllocs[e].fam == kMallocFam) free(g.p); else ::operator delete(g.p, std::align_val_t(al));
      }
    }
  }
  for (size_t s = SIZE_MAX - 3 * 8192; s >= SIZE_MAX - 3 * 8192 && s != 0; ++s) {
    errno = 0;
    void* p = pvalloc(s);
    VX_CHECK(!p && errno == ENOMEM, "pvalloc(%zu) returned %p, errno %d", s, p, errno);
    if (s == SIZE_MAX) break;
  }
  verify_all();
  free_all();
  check_books(g_base, false);
}

// Metadata memory refused: the process may only stop with a diagnostic or go on unharmed.
static void metadata() {
  init();
  g_from = choose(4);
  int len = choose(2);
  int o = choose(4);
  vx::state(vx::mix(vx::mix(g_from, len), o));
  vx::op("metadata call %d refused, history %d", g_from, o);
  int fd = memfd_create("err", 0);
  pid_t c = fork();
  if (c == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd, 2);
    os_hook = hook;
    g_len = len ? kForever : 1;
    g_meta = true; g_active = true; g_count = 0;
    int e = find_alloc("malloc");
    static void* p[20000];
    for (int i = 0; i < 7000; ++i) {
      size_t n = o == 0 ? 300000 : o == 1 ? 8192 : o == 2 ? (2 << 20) + 1 : 40960;
      if (o != 1 && i > 3500) break;
      p[i] = kAllocs[e].fn({n, 0}).p;
      if (p[i]) memcpy(p[i], &i, sizeof i);
    }
    for (int i = 0; i < 7000; ++i) {
      if (p[i] && memcmp(p[i], &i, sizeof i)) _exit(60);
      free(p[i]);
    }
    _exit(g_refused ? 51 : 50);
  }
  int st;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  vx::step();
  struct stat sb;
  fstat(fd, &sb);
  close(fd);
  if (WIFEXITED(st)) VX_CHECK(WEXITSTATUS(st) <= 51, "contents changed after metadata memory was refused");
  else {
    vx::extra(2);
    VX_CHECK(WTERMSIG(st) != SIGSEGV && WTERMSIG(st) != SIGBUS, "signal %d after metadata memory was refused", WTERMSIG(st));
    VX_CHECK(sb.st_size > 0, "no diagnostic after metadata memory was refused");
  }
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"refusal at call k", body, 1}, {"refusal at call k, growing", body_grow, 1},
      {"throwing forms", throwing, 1}, {"impossible requests", impossible, 1}, {"metadata refused", metadata, 1}};
  return vx::explore_main(argc, argv, sc, 5);
}

// C06: releases that are provably wrong must stop the program.
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;

static int g_err = -1;
// Runs fn in a forked copy; the copy must die of a signal without coming back.
template <typename F>
static void must_die(F fn, const char* what, bool need_text) {
  if (g_err < 0) g_err = memfd_create("err", 0);
  if (ftruncate(g_err, 0)) vx::fail("harness error: ftruncate");
  pid_t c = fork();
  if (c < 0) vx::fail("harness error: fork");
  if (c == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    lseek(g_err, 0, SEEK_SET);
    dup2(g_err, 2);
    alarm(20);
    fn();
    _exit(99);
  }
  int st;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  vx::step();
  struct stat sb;
  fstat(g_err, &sb);
  VX_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 99), "%s was not noticed: the call returned", what);
  VX_CHECK(WIFSIGNALED(st), "%s: the process exited with code %d instead of being stopped", what, WEXITSTATUS(st));
  int sig = WTERMSIG(st);
  VX_CHECK(sig == SIGABRT || sig == SIGTRAP || sig == SIGSEGV || sig == SIGILL || sig == SIGBUS,
           "%s: killed by signal %d", what, sig);
  if (need_text) VX_CHECK(sb.st_size > 0, "%s: no diagnostic was printed (signal %d)", what, sig);
}

static const char* kEntry[] = {"malloc", "new", "new[]", "new align", "memalign", "new cold", "new align cold", "new[] align"};
static const size_t kBig[] = {kMaxSize + 1, 300000, (1 << 20), (2 << 20) - 8192, 2 << 20, (3 << 20) + 1, 9 << 20};
constexpr int kNB = sizeof(kBig) / sizeof(kBig[0]);

static int matching(int e, size_t al, int idx) {
  Block probe = {nullptr, 0, 0, kAllocs[e].aligned ? al : 0, e, 0};
  int n = 0;
  for (int f = 0; f < kNumFrees; ++f)
    if (free_matches(kFrees[f], probe)) {
      if (n == idx) return f;
      ++n;
    }
  return idx < 0 ? n : -1;
}

// Something that happened before, so that pages have a past.
static void* g_keep[400];
static int g_nkeep;
static void past(int h) {
  g_nkeep = 0;
  if (h == 0) return;
  if (h == 1) {  // pages used by multi-page spans of small objects
    for (int i = 0; i < 200; ++i) g_keep[g_nkeep++] = malloc(i % 2 ? 40960 : 20480);
    while (g_nkeep) free(g_keep[--g_nkeep]);
  } else if (h == 2) {  // tiny objects, then everything returned
    for (int i = 0; i < 400; ++i) g_keep[g_nkeep++] = malloc(8192);
    while (g_nkeep) free(g_keep[--g_nkeep]);
  } else {  // other large blocks
    for (int i = 0; i < 8; ++i) g_keep[g_nkeep++] = malloc(kMaxSize + 1 + i * 50000);
    while (g_nkeep) free(g_keep[--g_nkeep]);
  }
  if (g_percpu) for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]);
  else MallocExtension::MarkThreadIdle();
  if (h == 3) MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
}

// Interior and misaligned pointers to large blocks, sampled or not.
static void interior_impl(int64_t sampling) {
  init(sampling);
  int e = find_alloc(kEntry[choose(8)]);
  size_t n = kBig[choose(kNB)];
  size_t al = 64;
  int h = choose(4);
  vx::op("interior pointers to %s(%zu), past %d", kAllocs[e].name, n, h);
  vx::state(vx::mix(vx::mix(e, n), h));
  past(h);
  char* p = static_cast<char*>(kAllocs[e].fn({n, al}).p);
  size_t us = malloc_usable_size(p);
  int nf = matching(e, al, -1);
  const size_t d[] = {1, 4, 7, 8, 16, 24, 4096, kPageSize - 8, kPageSize, kPageSize + 1, kPageSize + 8, 2 * kPageSize,
                      us / 2 & ~size_t{7}, (us / 2 & ~(kPageSize - 1)), us - kPageSize, us - kPageSize + 8, us - 8, us - 1};
  const int nd = sizeof(d) / sizeof(d[0]);
  int k = 0;
  for (int f = 0; f < nf; ++f) {
    int fi = matching(e, al, f);
    for (int i = 0; i < nd; ++i) {
      if (!vx::thorough() && f > 0 && (i + f) % 3) continue;
      char what[200];
      snprintf(what, sizeof what, "%s(block of %s(%zu) + %zu)", kFrees[fi].name, kAllocs[e].name, n, d[i]);
      size_t al2 = al;
      char* q = p + d[i];
      must_die([=] { kFrees[fi].fn(q, n, al2); }, what, true);
      ++k;
    }
  }
  free_matches(kFrees[0], {nullptr, 0, 0, 0, e, 0});
  Block b = {p, n, us, kAllocs[e].aligned ? al : 0, e, 0};
  kFrees[default_free(b)].fn(p, n, al);
}
static void interior() { interior_impl(0); }
static void interior_sampled() { interior_impl(1); }

// A large (or sampled) block released twice.
static void twice_impl(int64_t sampling) {
  init(sampling);
  int e = find_alloc(kEntry[choose(8)]);
  static const size_t kSmallS[] = {1, 8, 100, 1000, 8192, 40000, kMaxSize};
  size_t n = sampling && choose(2) ? kSmallS[choose(7)] : kBig[choose(kNB)];
  size_t al = 64;
  int between = choose(5);
  int ff = choose(matching(e, al, -1));
  vx::op("double release of %s(%zu), between %d", kAllocs[e].name, n, between);
  vx::state(vx::mix(vx::mix(e, n), vx::mix(between, ff)));
  void* l = malloc(kMaxSize + 1);
  char* p = static_cast<char*>(kAllocs[e].fn({n, al}).p);
  void* r = malloc(kMaxSize + 1);
  kFrees[matching(e, al, ff)].fn(p, n, al);
  if (between == 1 || between == 3) { free(l); l = nullptr; }
  if (between == 2 || between == 3) { free(r); r = nullptr; }
  if (between == 4) { free(l); free(r); l = r = nullptr; MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2); }
  int nf = matching(e, al, -1);
  for (int f = 0; f < nf; ++f) {
    int fi = matching(e, al, f);
    char what[200];
    snprintf(what, sizeof what, "%s of a block of %s(%zu) that was already released", kFrees[fi].name, kAllocs[e].name, n);
    must_die([=] { kFrees[fi].fn(p, n, al); }, what, true);
  }
  free(l);
  free(r);
}
static void twice() { twice_impl(0); }
static void twice_sampled() { twice_impl(1); }

// Pointers no allocation can have produced.
static char g_static[100000];
static void wild() {
  init();
  int which = choose(6);
  int f = choose(kNumFrees);
  size_t al = 64;
  static const size_t kN[] = {8, 1000, 100000, kMaxSize, kMaxSize + 1};
  size_t n = kN[choose(5)];
  char stack[300];
  memset(stack, 0, sizeof stack);
  if (kFrees[f].sized && which >= 2) return;   // a sized release trusts the size of an aligned, tagged pointer
  vx::op("%s of a wild pointer, kind %d, size %zu", kFrees[f].name, which, n);
  vx::state(vx::mix(vx::mix(which, f), n));
  char* small = static_cast<char*>(malloc(n));
  for (int i = 0; i < 16; ++i) {
    uintptr_t q = 0;
    bool text = true;
    switch (which) {
      case 0:  // impossible address bits on top of a valid block
        q = reinterpret_cast<uintptr_t>(small) | (uintptr_t{1} << (48 + i));
        break;
      case 1:  // misaligned pointer into a live unsampled block
        if (i % 8 == 0 || (n <= kMaxSize && (size_t)i >= n)) continue;
        q = reinterpret_cast<uintptr_t>(small) + i;
        break;
      case 2:  // never part of the heap
        q = reinterpret_cast<uintptr_t>(g_static) + 16 + i * 4096;
        q &= ~uintptr_t{15};
        text = false;
        break;
      case 3:
        q = (reinterpret_cast<uintptr_t>(stack) & ~uintptr_t{15}) + 16 * i;
        text = false;
        break;
      case 4:  // small integers and unmapped addresses with every tag
        q = i < 8 ? uintptr_t{1} << (4 + i) : (uintptr_t(i - 8) << 42) + 0x123450000;
        text = false;
        break;
      case 5:  // non-canonical
        q = ~uintptr_t{0} << 48 | (uintptr_t(i) << 40) | 0x1230;
        break;
    }
    char what[200];
    snprintf(what, sizeof what, "%s(%#lx, size %zu)", kFrees[f].name, q, n);
    must_die([=] { kFrees[f].fn(reinterpret_cast<void*>(q), n, al); }, what, text);
  }
  free(small);
}

// Sized release of a sampled or a large block with a wrong size.
static void sizes_impl(int64_t sampling) {
  init(sampling);
  int e = choose(kNumAllocs);
  const Alloc& A = kAllocs[e];
  size_t al = A.aligned ? (choose(2) ? 64 : 4096) : 0;
  static const size_t kS[] = {0, 1, 8, 9, 100, 1000, 1024, 8191, 8192, 8193, 40000, kMaxSize, kMaxSize + 1, 300000, 2 << 20, (3 << 20) + 5};
  size_t n = kS[choose(16)];
  if (!sampling && n <= kMaxSize) return;
  vx::op("%s(%zu, align %zu) released with other sizes", A.name, n, al);
  vx::state(vx::mix(vx::mix(e, al), n));
  Got g = A.fn({n, al});
  char* p = static_cast<char*>(g.p);
  size_t us = malloc_usable_size(p);
  Block b = {p, n, us, al, e, 0};
  for (int f = 0; f < kNumFrees; ++f) {
    if (!kFrees[f].sized || !free_matches(kFrees[f], b)) continue;
    static const long kD[] = {-8193, -8192, -8191, -4096, -1000, -64, -16, -9, -8, -7, -2, -1, 1, 2, 7, 8, 9, 16, 64, 1000, 4096, 8191, 8192, 8193, 100000};
    for (long d : kD) {
      if (d < 0 && size_t(-d) > n) continue;
      size_t m = n + d;
      bool wrong;
      if (sampling) {
        // sized: between the requested size and the capacity is fine
        wrong = A.sized ? m < n || m > us : m != n;
      } else {
        // an unsampled large block: only sizes that cannot belong to a span of that many pages
        wrong = m > us || m + kPageSize <= us;
      }
      if (!wrong) continue;
      // Large blocks are not tagged as sampled, and a size that maps to a size
      // class is trusted for untagged pointers.
      if (n > kMaxSize && m <= kMaxSize) continue;
      char what[200];
      snprintf(what, sizeof what, "%s of %s(%zu, align %zu) with size %zu", kFrees[f].name, A.name, n, al, m);
      must_die([=] { kFrees[f].fn(p, m, al ? al : 8); }, what, true);
    }
  }
  kFrees[default_free(b)].fn(p, n, al ? al : 8);
}
static void sizes() { sizes_impl(0); }
static void sizes_sampled() { sizes_impl(1); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {
      {"interior pointers", interior, 10}, {"interior pointers, sampled", interior_sampled, 10},
      {"released twice", twice, 30}, {"released twice, sampled", twice_sampled, 30},
      {"wild pointers", wild, 30},
      {"wrong sizes", sizes, 10}, {"wrong sizes, sampled", sizes_sampled, 10}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

// C04: realloc / reallocarray / calloc against their C contracts.
#include "lib/e2e.h"
#include "tcmalloc/internal/memory_tag.h"
using namespace e2e;
using vx::choose;

static size_t sz(int i) {
  static const size_t base[] = {0, 8, 16, 24, 32, 64, 128, 512, 1000, 1024, 4096, 8192, 10000, 16384, 32768, 65536, 131072, 200000, kMaxSize,
                                kMaxSize + kPageSize, 400000, 1 << 20, 2 << 20, 5 << 20};
  size_t b = base[i / 3];
  int d = i % 3;  // b, b+1, b-1 ; for 0: 1,2,3
  if (b == 0) return 1 + d;
  return d == 0 ? b : d == 1 ? b + 1 : b - 1;
}
constexpr int kSz = 24 * 3;

// A block from entry e, grown/shrunk by realloc.
static int do_realloc(int i, size_t n, bool array) {
  Block b = blk[i];
  size_t keep = n < b.req ? n : b.req;
  uint32_t id = b.id;
  // only the requested bytes are guaranteed to survive; check exactly those
  char* old = b.p;
  size_t old_us = b.usable;
  forget(i);
  char* p = static_cast<char*>(array ? reallocarray(old, n, 1) : realloc(old, n));
  vx::step();
  VX_CHECK(p, "realloc(block of %zu, %zu) failed although memory is available", b.req, n);
  Block tmp = b;
  tmp.p = p;
  tmp.id = id;
  // the pattern was laid out for the old usable size; compare the kept prefix
  each_word(old_us, [&](size_t o) {
    if (o + 8 > keep) return;
    uint64_t w;
    memcpy(&w, p + o, 8);
    VX_CHECK(w == word(id, o), "realloc(%zu -> %zu): byte %zu of the kept prefix changed", b.req, n, o);
  });
  for (size_t o = old_us & ~size_t{7}; o < old_us && o < keep; ++o)
    VX_CHECK(p[o] == char(id + o), "realloc(%zu -> %zu): byte %zu of the kept prefix changed", b.req, n, o);
  if (size_t o = keep & ~size_t{7}; keep % 8 && (old_us <= 16384 || o < 512)) {
    uint64_t w = word(id, o);
    if (o + 8 <= old_us) VX_CHECK(memcmp(p + o, &w, keep % 8) == 0, "realloc(%zu -> %zu): last bytes changed", b.req, n);
  }
  return adopt(p, n, 0, -1, 0);
}
static void finish(size_t base) {
  verify_all();
  while (nblk) {
    char* p = blk[nblk - 1].p;
    forget(nblk - 1);
    free(p);
  }
  size_t now = in_use();
  VX_CHECK(now == base, "in-use bytes %zu after everything was released, %zu before", now, base);
}

static const char* kSrc[] = {"malloc", "calloc", "memalign", "posix_memalign", "alloc_at_least", "realloc(null)"};

static void pairs_impl(int64_t sampling) {
  init(sampling);
  int e = find_alloc(kSrc[choose(sampling ? 3 : 6)]);
  size_t a = sz(choose(kSz)), b = sz(choose(kSz));
  bool arr = choose(2);
  size_t base = in_use();
  vx::op("%s(%zu) then %s to %zu", kAllocs[e].name, a, arr ? "reallocarray" : "realloc", b);
  vx::state(vx::mix(vx::mix(e, a), vx::mix(b, arr)));
  int n0 = do_alloc(find_alloc("malloc"), 40);
  (void)n0;
  int i = do_alloc(e, a, a > 100 ? 256 : 16);
  int n1 = do_alloc(find_alloc("malloc"), a < 100000 ? a : 40);
  (void)n1;
  // find the block again (indices are stable here)
  do_realloc(i, b, arr);
  verify_all();
  finish(base);
}
static void pairs() { pairs_impl(0); }
static void pairs_sampled() { pairs_impl(1); }

// Chains of reallocations of two blocks, interleaved with allocation and free.
static void chain_impl(int64_t sampling, int depth) {
  init(sampling);
  static const size_t kS[] = {8, 100, 4096, 9000, kMaxSize, kMaxSize + 1, 3 << 20};
  size_t base = in_use();
  int e = find_alloc("malloc");
  do_alloc(e, 24);
  do_alloc(e, 5000);
  uint64_t h = sampling;
  for (int d = 0; d < depth; ++d) {
    int o = choose(7 + 2);
    h = vx::mix(h, o);
    if (o < 7) {
      int i = nblk - 1 > 0 ? choose(2) : 0;
      h = vx::mix(h, i);
      vx::op("realloc block %d to %zu", i, kS[o]);
      size_t before = nblk;
      int j = do_realloc(i, kS[o], false);
      (void)j;
      VX_CHECK(nblk == (int)before, "harness error");
    } else if (o == 7) {
      vx::op("malloc(100)");
      do_alloc(e, 100);
    } else {
      vx::op("realloc(p, 0)");
      if (nblk > 1) {
        char* p = blk[nblk - 1].p;
        forget(nblk - 1);
        void* q = realloc(p, 0);
        VX_CHECK(q == nullptr, "realloc(p, 0) returned %p", q);
      }
    }
    verify_all();
  }
  vx::state(h);
  finish(base);
}
static void chain() { chain_impl(0, vx::thorough() ? 6 : 4); }
static void chain_sampled() { chain_impl(1, vx::thorough() ? 5 : 4); }

// Sampling interval large enough that only some reallocations sample.
static void calloc_dirty_impl(int64_t sampling) {
  init(sampling);
  size_t a = sz(choose(kSz)), b = sz(choose(kSz));
  int via = choose(3);
  vx::op("dirty %zu, free, zeroed allocation of %zu", a, b);
  vx::state(vx::mix(vx::mix(a, b), via));
  size_t base = in_use();
  char* d[4];
  for (int i = 0; i < 4; ++i) {
    d[i] = static_cast<char*>(malloc(a));
    memset(d[i], 0xa5, malloc_usable_size(d[i]));
  }
  for (int i = 0; i < 4; ++i) free(d[i]);
  if (via == 2) MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
  for (int i = 0; i < 4; ++i) {
    d[i] = static_cast<char*>(via == 0 ? calloc(b, 1) : via == 1 ? calloc(1, b) : calloc(b, 1));
    VX_CHECK(d[i], "calloc(%zu) failed", b);
    for (size_t o = 0; o < b; ++o)
      if (d[i][o]) vx::fail("calloc(%zu): byte %zu is not zero", b, o);
    memset(d[i], 0x5a, malloc_usable_size(d[i]));
    vx::step();
  }
  for (int i = 0; i < 4; ++i) free(d[i]);
  VX_CHECK(in_use() == base, "in-use bytes changed");
}
static void calloc_dirty() { calloc_dirty_impl(0); }
static void calloc_dirty_sampled() { calloc_dirty_impl(1); }

// Every way of asking for nothing, and products reached through every pair of factors.
static void factors_impl(int64_t sampling) {
  init(sampling);
  static const size_t kP[] = {0, 1, 24, 60, 4096, 5040, 30000, 262144, 262145, 1 << 20};
  size_t base = in_use();
  size_t n = kP[choose(sizeof(kP) / sizeof(kP[0]))];
  int how = choose(4);  // calloc, reallocarray(null), reallocarray(block), realloc
  size_t old = sz(choose(kSz) / 3 * 3);
  // factor pairs of n
  size_t fs[2][16];
  int nf = 0;
  if (n == 0) {
    for (size_t x : {size_t{1}, size_t{3}, size_t{4096}, size_t{1} << 33, SIZE_MAX, size_t{0}}) { fs[0][nf] = x; fs[1][nf++] = 0; fs[0][nf] = 0; fs[1][nf++] = x; }
  } else {
    for (size_t a = 1; a * a <= n && nf < 14; ++a)
      if (n % a == 0) { fs[0][nf] = a; fs[1][nf++] = n / a; fs[0][nf] = n / a; fs[1][nf++] = a; }
  }
  int k = choose(nf);
  size_t a = fs[0][k], b = fs[1][k];
  vx::op("%s(%zu, %zu)", how == 0 ? "calloc" : how == 1 ? "reallocarray(null)" : how == 2 ? "reallocarray(block)" : "realloc(block)", a, b);
  vx::state(vx::mix(vx::mix(a, b), vx::mix(how, old)));
  vx::step();
  if (how == 0 || how == 1) {
    char* d = static_cast<char*>(malloc(n + 1));
    memset(d, 0xa5, n + 1);
    free(d);
    char* p = static_cast<char*>(how == 0 ? calloc(a, b) : reallocarray(nullptr, a, b));
    VX_CHECK(p, "%zu x %zu bytes were refused", a, b);
    if (how == 0)
      for (size_t o = 0; o < n; ++o)
        if (p[o]) vx::fail("calloc(%zu, %zu): byte %zu is not zero", a, b, o);
    adopt(p, n, 0, -1, 0);
  } else {
    int i = do_alloc(find_alloc("malloc"), old);
    char* o = blk[i].p;
    if (n == 0) {
      forget(i);
      void* q = how == 2 ? reallocarray(o, a, b) : realloc(o, 0);
      VX_CHECK(q == nullptr, "reallocation to nothing (%zu x %zu) returned a block", a, b);
    } else {
      Block t = blk[i];
      forget(i);
      size_t keep = n < t.req ? n : t.req;
      char* q = static_cast<char*>(how == 2 ? reallocarray(o, a, b) : realloc(o, n));
      VX_CHECK(q, "%zu x %zu bytes were refused", a, b);
      each_word(t.usable, [&](size_t w) {
        if (w + 8 > keep) return;
        uint64_t v;
        memcpy(&v, q + w, 8);
        VX_CHECK(v == word(t.id, w), "reallocarray(%zu, %zu): byte %zu of the kept prefix changed", a, b, w);
      });
      adopt(q, n, 0, -1, 0);
    }
  }
  finish(base);
}
static void factors() { factors_impl(0); }
static void factors_sampled() { factors_impl(1); }

// Products that do not fit, and requests that cannot be met.
static size_t fac(int i) {
  static size_t v[90];
  static int n;
  if (!n) {
    v[n++] = 0; v[n++] = 1; v[n++] = 2; v[n++] = 3; v[n++] = 8; v[n++] = 1000;
    for (int k = 31; k <= 63; k += (k == 33 ? 13 : k < 46 ? 1 : k < 61 ? 5 : 1)) {
      v[n++] = (size_t{1} << k) - 1;
      v[n++] = size_t{1} << k;
      v[n++] = (size_t{1} << k) + 1;
    }
    for (size_t d = 0; d < 3; ++d) { v[n++] = SIZE_MAX - d; v[n++] = SIZE_MAX / 2 - d; v[n++] = SIZE_MAX / 3 + d; }
    v[n++] = SIZE_MAX - kPageSize; v[n++] = SIZE_MAX - kPageSize + 1; v[n++] = SIZE_MAX - kPageSize + 2;
    v[n++] = SIZE_MAX - kHugePageSize; v[n++] = SIZE_MAX - kHugePageSize + 2;
  }
  if (i < 0) return n;
  return v[i];
}
static void overflow() {
  init();
  int n = fac(-1);
  size_t a = fac(choose(n)), b = fac(choose(n));
  int how = choose(3);
  __uint128_t prod = (__uint128_t)a * b;
  if (prod < (size_t{1} << 46)) return;  // could be met, or merely costs memory
  vx::op("%s(%zu x %zu)", how == 0 ? "calloc" : how == 1 ? "reallocarray(null)" : "reallocarray(block)", a, b);
  vx::state(vx::mix(vx::mix(a, b), how));
  size_t base = in_use();
  int e = find_alloc("malloc");
  for (size_t s : {size_t{100}, size_t{20000}, size_t{400000}}) do_alloc(e, s);
  for (int i = 0; i < 3; ++i) {
    errno = 0;
    void* p = how == 0 ? calloc(a, b) : how == 1 ? reallocarray(nullptr, a, b) : reallocarray(blk[i].p, a, b);
    int er = errno;
    vx::step();
    VX_CHECK(p == nullptr, "a request of %zu x %zu bytes was granted: %p", a, b, p);
    VX_CHECK(er == ENOMEM, "a request of %zu x %zu bytes failed with errno %d", a, b, er);
    VX_CHECK((size_t)malloc_usable_size(blk[i].p) == blk[i].usable, "original block changed");
    if (prod <= SIZE_MAX && how == 2) {
      errno = 0;
      p = realloc(blk[i].p, (size_t)prod);
      VX_CHECK(p == nullptr && errno == ENOMEM, "realloc to %zu: %p, errno %d", (size_t)prod, p, errno);
    }
    verify_all();
  }
  finish(base);
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {
      {"every pair of sizes", pairs, 500}, {"every pair of sizes, sampled", pairs_sampled, 500},
      {"factors", factors, 300}, {"factors, sampled", factors_sampled, 300}, {"chains", chain, 200}, {"chains, sampled", chain_sampled, 200},
      {"zeroed after dirty", calloc_dirty, 100}, {"zeroed after dirty, sampled", calloc_dirty_sampled, 100},
      {"impossible requests", overflow, 200}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

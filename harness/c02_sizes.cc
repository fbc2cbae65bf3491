// C02 (and, with -DVERIF_C03, C03): every size, alignment and entry point.
#include "lib/e2e.h"
#include "tcmalloc/internal/memory_tag.h"
using namespace e2e;
using vx::choose;

static const size_t kAligns[] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096,
                                 8192, 16384, 32768, 65536, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21};
constexpr int kNumAligns = sizeof(kAligns) / sizeof(kAligns[0]);
constexpr size_t kChunk = 4096;
constexpr int kSmallChunks = (kMaxSize + 2 * kPageSize) / kChunk + 1;

static bool power2(size_t a) { return (a & (a - 1)) == 0; }

static void one(int e, size_t size, size_t align, int64_t sampling) {
  const Alloc& a = kAllocs[e];
  Got g = a.fn({size, align});
  char* p = static_cast<char*>(g.p);
  vx::step();
  size_t al = a.aligned ? align : 0;
  VX_CHECK(p != nullptr, "%s(%zu, align %zu) failed although memory is available", a.name, size, al);
  size_t need = default_align(size);
  if (a.aligned) need = al ? al : 8;
  // explicit alignment replaces the default one for C++; for C both hold
  VX_CHECK(reinterpret_cast<uintptr_t>(p) % need == 0, "%s(%zu, align %zu) returned %p, not aligned to %zu",
           a.name, size, al, p, need);
  size_t us = malloc_usable_size(p);
  VX_CHECK(us >= size, "%s(%zu, align %zu): only %zu usable bytes", a.name, size, al, us);
  if (size) { p[0] = 1; p[size - 1] = 2; }
  if (us) p[us - 1] = 3;
#ifdef VERIF_C03
  VX_CHECK(MallocExtension_Internal_GetAllocatedSize(p) == us, "%s(%zu): the two usable-size queries differ", a.name, size);
  if (a.sized)
    VX_CHECK(g.cap == us, "%s(%zu, align %zu): capacity %zu, usable size %zu", a.name, size, al, g.cap, us);
  int flags = a.aligned && align > 1 ? lg(align) : 0;
  if (a.fam == kMallocFam && !a.aligned) flags = 4;  // malloc aligns to 16 unless ...
  // A malloc-family function may round to max_align_t for sizes that fit one.
  size_t est = nallocx(size, flags);
  size_t est0 = MallocExtension_Internal_GetEstimatedAllocatedSize(size);
  if (sampling == 0) {
    VX_CHECK(est == us, "%s(%zu, align %zu): nallocx(.., %d) says %zu, usable size is %zu", a.name, size, al, flags, est, us);
    if (flags == 0) VX_CHECK(est0 == us, "%s(%zu): estimated size %zu, usable size is %zu", a.name, size, est0, us);
  }
  if (sampling) {
    size_t up = (est + kPageSize - 1) / kPageSize * kPageSize;
    VX_CHECK(us <= up, "%s(%zu, align %zu), sampled: usable size %zu, the estimate rounds up to %zu", a.name, size, al, us, up);
  }
  VX_CHECK(est0 >= size && nallocx(size, 0) == est0, "estimates for %zu: %zu, %zu", size, est0, nallocx(size, 0));
#endif
  // free in the plainest matching way
  if (a.fam == kMallocFam) free(p);
  else if (a.aligned) ::operator delete(p, std::align_val_t(align));
  else ::operator delete(p);
}

static void all_small() {
  init();
  int e = choose(kNumAllocs);
  size_t lo = choose(kSmallChunks) * kChunk;
  vx::op("%s, sizes %zu..%zu", kAllocs[e].name, lo, lo + kChunk - 1);
  vx::state(vx::mix(e, lo));
  // unaligned (or default-aligned) request for every size
  size_t al = kAllocs[e].aligned ? (kAllocs[e].fam == kMallocFam ? 8 : 16) : 0;
  for (size_t n = lo; n < lo + kChunk; ++n) one(e, n, al, 0);
}

static int g_aligned[64], g_na;
static void small_aligned() {
  init();
  if (!g_na)
    for (int i = 0; i < kNumAllocs; ++i)
      if (kAllocs[i].aligned) g_aligned[g_na++] = i;
  int e = g_aligned[choose(g_na)];
  size_t al = kAligns[choose(14)];  // up to a page
  size_t lo = choose(kSmallChunks) * kChunk;
  vx::op("%s align %zu, sizes %zu..%zu", kAllocs[e].name, al, lo, lo + kChunk - 1);
  vx::state(vx::mix(vx::mix(e, lo), al));
  // every size up to 32 KiB; above, every size near a multiple of 128 bytes
  for (size_t n = lo; n < lo + kChunk; ++n) {
    if (n > 32768 && !vx::thorough()) {
      size_t r = n % 128;
      if (r > 1 && r < 127) continue;
    }
    one(e, n, al, 0);
  }
}

static size_t big_size(int i) {
  static const size_t base[] = {0, 1, 8, 4096, 8192, 16384, 65536, kMaxSize, 1 << 20, (2 << 20) - 8192, 2 << 20,
                                (2 << 20) + 8192, (3 << 20), 4 << 20, 12 << 20, 16 << 20, 32 << 20, 1 << 30};
  return base[i / 5] + (i % 5) - (base[i / 5] >= 2 ? 2 : 0);
}
constexpr int kBig = 18 * 5;
static void big() {
  init();
  int e = choose(kNumAllocs);
  int ai = kAllocs[e].aligned ? choose(kNumAligns) : 0;
  size_t al = kAllocs[e].aligned ? kAligns[ai] : 0;
  vx::op("%s align %zu, large sizes", kAllocs[e].name, al);
  vx::state(vx::mix(e, al));
  for (int i = 0; i < kBig; ++i) {
    size_t n = big_size(i);
    if (kAllocs[e].zeroed && n > (16 << 20)) continue;
    one(e, n, al, 0);
  }
}

static void special_c() {
  init();
  const size_t os_page = getpagesize();
  size_t lo = choose(70) * 1000;
  for (size_t n = lo; n < lo + 1000; ++n) {
    char* p = static_cast<char*>(valloc(n));
    VX_CHECK(p && reinterpret_cast<uintptr_t>(p) % os_page == 0, "valloc(%zu) returned %p", n, p);
    VX_CHECK(malloc_usable_size(p) >= n, "valloc(%zu): %zu usable bytes", n, malloc_usable_size(p));
    if (n) p[n - 1] = 1;
    free(p);
    p = static_cast<char*>(pvalloc(n));
    size_t want = n ? (n + os_page - 1) / os_page * os_page : os_page;
    VX_CHECK(p && reinterpret_cast<uintptr_t>(p) % os_page == 0, "pvalloc(%zu) returned %p", n, p);
    VX_CHECK(malloc_usable_size(p) >= want, "pvalloc(%zu): %zu usable bytes", n, malloc_usable_size(p));
    p[want - 1] = 1;
    free(p);
    vx::step(2);
  }
  // alignments a function must reject
  if (lo == 0) {
    for (size_t a = 0; a < 5000; ++a) {
      void* q = &q;
      int rc = posix_memalign(&q, a, 100);
      bool ok = a >= sizeof(void*) && power2(a);
      VX_CHECK((rc == 0) == ok, "posix_memalign(align %zu) returned %d", a, rc);
      if (ok) { VX_CHECK(reinterpret_cast<uintptr_t>(q) % a == 0, "posix_memalign(%zu) misaligned", a); free(q); }
      else VX_CHECK(rc == EINVAL && q == &q, "posix_memalign(align %zu): code %d, result pointer changed: %d", a, rc, q != &q);
      if (!(a && power2(a))) {
        errno = 0;
        VX_CHECK(aligned_alloc(a, 100) == nullptr && errno == EINVAL, "aligned_alloc accepted alignment %zu", a);
        errno = 0;
        alloc_result_t r = TCMallocInternalAlignedAllocAtLeast(a, 100);
        VX_CHECK(r.ptr == nullptr && errno == EINVAL, "aligned_alloc_at_least accepted alignment %zu", a);
      }
      vx::step(2);
    }
  }
  vx::state(lo);
}

// Every allocation sampled: the guarantees are the same.
static void sampled() {
  init(1);
  {
    void* p = malloc(1);
    VX_CHECK(tcmalloc::tcmalloc_internal::GetMemoryTag(p) == tcmalloc::tcmalloc_internal::MemoryTag::kSampled,
             "harness error: not sampling");
    free(p);
  }
  int e = choose(kNumAllocs);
  int ai = kAllocs[e].aligned ? choose(16) : 0;
  size_t al = kAllocs[e].aligned ? kAligns[ai] : 0;
  vx::op("%s align %zu, sampled", kAllocs[e].name, al);
  vx::state(vx::mix(e, al));
  for (size_t n = 0; n < 600; ++n) one(e, n, al, 1);
  for (size_t k = 1024; k <= (512 << 10); k += k < 16384 ? 512 : 8192)
    for (int d = -1; d <= 1; ++d) one(e, k + d, al, 1);
}

#ifdef VERIF_C03
// Every usable byte of a block can be written without touching its neighbours.
static void write_all() {
  init();
  static const size_t kS[] = {0, 1, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 48, 64, 65, 80, 96, 112, 128, 129, 144, 160, 176, 192, 208, 224, 240, 256, 257, 288, 320, 384, 400, 512, 513, 640, 768, 896, 1024, 1025, 1152, 1280, 1536, 1792, 2048, 2049, 2304, 2688, 3200, 4096, 4097, 5376, 6528, 8192, 8193, 9344, 10880, 13056, 16384, 16385, 20480, 24576, 32768, 40960, 65536, 98304, 131072, 163840, 204800, 262143, 262144, 262145, 300000};
  size_t n = kS[choose(sizeof(kS) / sizeof(kS[0]))];
  int e = choose(kNumAllocs);
  int c = n > 20000 ? 4 : 40;
  vx::op("%d x %s(%zu) written over the usable size", c, kAllocs[e].name, n);
  vx::state(vx::mix(e, n));
  for (int i = 0; i < c; ++i) {
    int b = do_alloc(e, n, 8 << choose(1));
    // do_alloc filled all usable bytes with a pattern (edges for big ones)
    if (blk[b].usable > 16384) memset(blk[b].p, 0x11, blk[b].usable), fill(blk[b]);
    vx::step();
  }
  verify_all();
  free_all();
}
#endif

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {
      {"every size", all_small, 50}, {"every size with alignments up to a page", small_aligned, 50},
      {"large sizes, all alignments", big, 20, false, 60},
#ifndef VERIF_C03
      {"valloc pvalloc and rejected alignments", special_c, 20},
#else
      {"write all usable bytes", write_all, 20},
#endif
      {"sampled", sampled, 10}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

// C05: every way of releasing a block has the same effect.
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;

static const size_t kAligns[] = {0, 8, 16, 32, 64, 256, 1024, 4096, 8192, 16384, 65536, 1 << 21};
static size_t sz(int i) {
  static const size_t base[] = {0, 8, 16, 32, 64, 128, 176, 512, 1024, 2048, 4096, 8192, 10880, 16384, 32768, 65536, 131072, kMaxSize,
                                kMaxSize + kPageSize, 1 << 20, 2 << 20, 3 << 20};
  size_t b = base[i / 3];
  int d = i % 3;
  if (b == 0) return d;
  return d == 0 ? b : d == 1 ? b + 1 : b - 1;
}
constexpr int kSz = 22 * 3;

static void matrix_impl(int64_t sampling) {
  init(sampling);
  int e = choose(kNumAllocs);
  const Alloc& A = kAllocs[e];
  size_t al = A.aligned ? kAligns[1 + choose(11)] : 0;
  size_t n = sz(choose(kSz));
  vx::op("%s(%zu, align %zu)", A.name, n, al);
  vx::state(vx::mix(vx::mix(e, al), n));
  // releasing null is a no-op
  for (int f = 0; f < kNumFrees; ++f)
    if (strcmp(kFrees[f].name, "realloc(p,0)") != 0) kFrees[f].fn(nullptr, n, al ? al : 8);
  const size_t base = in_use();
  for (int f = 0; f < kNumFrees; ++f) {
    // state the requested size, the reported size, and one in between
    for (int s = 0; s < (kFrees[f].sized ? 3 : 1); ++s) {
      int other = do_alloc(find_alloc("malloc"), 40);
      int i = do_alloc(e, n, al);
      if (!free_matches(kFrees[f], blk[i])) {
        free_any(i);
        free_any(other);
        break;
      }
      // A C++ block may be stated with its reported size only if that was
      // reported at allocation (size-returning) or is what nallocx promises.
      size_t state = n;
      if (s == 1) state = blk[i].usable;
      if (s == 2) state = n + (blk[i].usable - n) / 2;
      if (sampling && state != n && state < blk[i].usable && !A.sized) state = n;
      if (sampling && s == 1 && !A.sized) state = n;  // page rounding of sampled blocks is not a promise
      size_t us = blk[i].usable;
      size_t with = in_use();
      // exact when nothing is sampled; a sampled block accounts for whole pages
      if (!sampling) VX_CHECK(with == base + us + blk[other].usable, "in use %zu, expected %zu + %zu + %zu", with, base, us, blk[other].usable);
      do_free(i, f, false, state);
      vx::step();
      size_t after = in_use();
      if (!sampling)
        VX_CHECK(after == with - us, "%s of %s(%zu, align %zu): in-use bytes went from %zu to %zu, block has %zu",
                 kFrees[f].name, A.name, n, al, with, after, us);
      // available again: two more blocks are disjoint (adopt checks that)
      int x = do_alloc(e, n, al), y = do_alloc(e, n, al);
      verify_all();
      free_any(x > y ? x : y);
      free_any(x > y ? y : x);
      free_all();
      after = in_use();
      VX_CHECK(after == base, "%s of %s(%zu, align %zu): %zu bytes in use at the end, %zu before", kFrees[f].name, A.name, n, al, after, base);
    }
  }
}
static void matrix() { matrix_impl(0); }
static void matrix_sampled() { matrix_impl(1); }

// A freed block is used again: repeating a cycle of many blocks with any
// release function does not grow the heap.
static void recycle() {
  init();
  int e = choose(kNumAllocs);
  const Alloc& A = kAllocs[e];
  size_t al = A.aligned ? kAligns[1 + choose(9)] : 0;
  static const size_t kS[] = {8, 64, 1000, 8192, 40000, kMaxSize + 1};
  size_t n = kS[choose(6)];
  vx::op("%s(%zu, align %zu) recycled", A.name, n, al);
  vx::state(vx::mix(vx::mix(e, al), n + 1));
  int cnt = n > 10000 ? 6 : 60;
  size_t base = in_use(), peak = 0;
  for (int f = 0; f < kNumFrees; ++f) {
    Block probe = {nullptr, n, n, al, e, 0};
    if (!free_matches(kFrees[f], probe)) continue;
    for (int r = 0; r < 6; ++r) {
      for (int i = 0; i < cnt; ++i) do_alloc(e, n, al);
      verify_all();
      if (r % 2) while (nblk) do_free(nblk - 1, f, false, blk[nblk - 1].req);
      else while (nblk) do_free(0, f, true, blk[0].req);
      VX_CHECK(in_use() == base, "in-use bytes %zu, %zu before", in_use(), base);
      size_t hs = prop("generic.heap_size");
      if (r == 2) peak = hs;
      if (r > 2) VX_CHECK(hs <= peak, "heap grew from %zu to %zu bytes while repeating one cycle", peak, hs);
      vx::step(cnt);
    }
  }
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"every allocation and release function", matrix, 40},
      {"sampled", matrix_sampled, 40}, {"recycling", recycle, 10}};
  return vx::explore_main(argc, argv, sc, 3);
}

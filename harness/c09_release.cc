// C09: memory given back to the operating system, for every bounded history.
#include "lib/e2e.h"
#include "tcmalloc/parameters.h"
using namespace e2e;
using vx::choose;
#ifndef MADV_COLLAPSE
#define MADV_COLLAPSE 25
#endif
#ifndef MADV_DONTNEED_LOCKED
#define MADV_DONTNEED_LOCKED 24
#endif

// Every range given back is compared with the live blocks.
static size_t g_given;      // heap bytes given back since the last reset
static size_t g_total;      // ... since the start of the history
static const char* g_what = "";
static void live_overlap(char* a, size_t l) {
  int at = lower(a);
  if (at < nblk && blk[order[at]].p < a + l) {
    const Block& b = blk[order[at]];
    vx::fail("%s gives [%p,+%zu) back to the system, which holds the live block [%p,+%zu)", g_what, a, l, b.p, b.usable);
  }
  if (at > 0) {
    const Block& b = blk[order[at - 1]];
    if (b.p + b.usable > a) vx::fail("%s gives [%p,+%zu) back to the system, which holds the live block [%p,+%zu)", g_what, a, l, b.p, b.usable);
  }
}
static bool before(OsCall c, void* a, size_t l, int adv) {
  if (c == kMunmap) live_overlap(static_cast<char*>(a), l);
  if (c != kMadvise) return false;
  if (adv == MADV_DONTNEED || adv == MADV_DONTNEED_LOCKED || adv == MADV_FREE || adv == MADV_REMOVE)
    live_overlap(static_cast<char*>(a), l);
  return false;
}
static void after(OsCall c, void* a, size_t l, int adv, long rc) {
  if (c != kMadvise || rc != 0) return;
  bool heap = false;  // probes and metadata are not heap memory
  for (int i = 0; i < os_nrange; ++i)
    heap |= a >= os_range[i].p && a < os_range[i].p + os_range[i].n && os_range[i].tag != tcmalloc::tcmalloc_internal::MemoryTag::kMetadata;
  if (!heap) return;
  if (adv == MADV_DONTNEED || adv == MADV_DONTNEED_LOCKED) {
    VX_CHECK(reinterpret_cast<uintptr_t>(a) % kPageSize == 0 && l % kPageSize == 0, "returned range [%p,+%zu) is not made of whole pages", a, l);
    g_given += l;
    g_total += l;
  }
}

static void flush() {
  if (g_percpu) for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]);
  else MallocExtension::MarkThreadIdle();
}

struct Kind { const char* entry; size_t size, align; int count; };
static const Kind kG[3][4] = {
    {{"malloc", 8192, 0, 200}, {"malloc", 40960, 0, 40}, {"new cold", 3000, 0, 60}, {"malloc", 300000, 0, 6}},
    {{"malloc", (2 << 20) + 100, 0, 6}, {"malloc", 5 << 20, 0, 2}, {"new cold", 700000, 0, 4}, {"malloc", 900000, 0, 5}},
    {{"memalign", 100, 1 << 20, 3}, {"malloc", kMaxSize, 0, 12}, {"malloc", 12 << 20, 0, 1}, {"malloc", 64, 0, 500}},
};
static size_t g_base, g_rel0;

// treat: a background treatment may have noted pages that the system does not
// back; a later release reports them too. Residency is compared all the same.
static void check_release(size_t u0, size_t rel0, bool treat = false) {
  size_t given = g_given;
  size_t rel1 = prop("tcmalloc.num_released_total_bytes");
  VX_CHECK(rel1 >= rel0, "released total went back from %zu to %zu", rel0, rel1);
  // What freeing gives back at once is reported together with the next release.
  if (!treat) VX_CHECK(rel1 - g_rel0 <= g_total, "%s: %zu bytes reported as released so far, %zu bytes were given to the system", g_what, rel1 - g_rel0, g_total);
  Books b = check_books(g_base + model_bytes());
  if (!treat && b.unmapped() > u0) VX_CHECK(b.unmapped() - u0 <= given, "%s: returned bytes rose by %zu, %zu bytes were given to the system", g_what, b.unmapped() - u0, given);
}

static void history(int g, int depth) {
  init();
  pin(0);
  const bool lean = !vx::thorough() && !rseq_possible();  // the page heap is the same in both modes
  int mode = lean ? 0 : choose(2);
  MallocExtension::SetSkipSubreleaseShortInterval(mode ? absl::Seconds(60) : absl::ZeroDuration());
  MallocExtension::SetSkipSubreleaseLongInterval(mode ? absl::Seconds(300) : absl::ZeroDuration());
  MallocExtension::SetBackgroundReleaseRate(MallocExtension::BytesPerSecond{size_t{1} << 62});
  g_base = in_use();
  g_rel0 = prop("tcmalloc.num_released_total_bytes");
  os_hook = before;
  os_after = after;
  uint64_t h = g;
  bool treat = false;
  for (int d = 0; d < depth; ++d) {
    int o = choose(d == 0 && depth > 3 ? 4 : 12);
    h = vx::mix(h, o + 20 * mode);
    vx::step();
    Books b0 = books();
    size_t rel0 = prop("tcmalloc.num_released_total_bytes");
    g_given = 0;
    g_what = "an allocation";
    switch (o) {
      case 0: case 1: case 2: case 3: {
        const Kind& k = kG[g][o];
        vx::op("%d x %s(%zu,%zu)", k.count, k.entry, k.size, k.align);
        for (int i = 0; i < k.count; ++i) do_alloc(find_alloc(k.entry), k.size, k.align);
        break;
      }
      case 4: vx::op("free every other"); g_what = "freeing"; for (int i = nblk - 1; i >= 0; i -= 2) free_any(i); break;
      case 5: vx::op("free oldest 3/4"); g_what = "freeing"; { int n = nblk - nblk / 4; while (nblk > nblk / 4 && n-- > 0) free_any(0, true); } break;
      case 6: vx::op("free newest half"); g_what = "freeing"; for (int n = nblk - nblk / 2; n > 0; --n) free_any(nblk - 1); break;
      case 7: vx::op("flush"); g_what = "flushing"; flush(); break;
      case 8: vx::op("release one page"); g_what = "ReleaseMemoryToSystem(page)"; MallocExtension::ReleaseMemoryToSystem(kPageSize); break;
      case 9: vx::op("release 700 KB"); g_what = "ReleaseMemoryToSystem(700 KB)"; MallocExtension::ReleaseMemoryToSystem(700 << 10); break;
      case 10: vx::op("release all"); g_what = "ReleaseMemoryToSystem(all)"; MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2); break;
      case 11: vx::op("background"); g_what = "a background round"; background_once(); break;
    }
    treat |= o == 11;
    check_release(b0.unmapped(), rel0, treat);
    if (o >= 4) verify_all();
  }
  vx::state(h);
  verify_all();
  // what was returned is usable again
  size_t n = g == 0 ? 300 : 20;
  g_what = "an allocation";
  for (size_t i = 0; i < n; ++i) do_alloc(find_alloc("malloc"), kG[g][0].size);
  verify_all();
  g_what = "freeing";
  free_all();
  check_books(g_base);
  os_hook = nullptr;
  os_after = nullptr;
}
static int D() { return vx::thorough() ? 5 : 4; }
static void h0() { history(0, D()); }
static void h1() { history(1, D() - 1); }
static void h2() { history(2, D() - 1); }

// The background round with the treatments of partly resident huge pages on.
static void treated() {
  init();
  pin(0);
  int m = choose(4);
  vx::op("treatments %d", m);
  TCMalloc_Internal_SetUsermodeHugepageCollapse(m & 1);
  TCMalloc_Internal_SetReleasePartialAllocPagesEnabled(m & 2);
  MallocExtension::SetSkipSubreleaseShortInterval(absl::ZeroDuration());
  MallocExtension::SetSkipSubreleaseLongInterval(absl::ZeroDuration());
  MallocExtension::SetBackgroundReleaseRate(MallocExtension::BytesPerSecond{choose(2) ? size_t{1} << 62 : 0});
  g_base = in_use();
  g_rel0 = prop("tcmalloc.num_released_total_bytes");
  os_hook = before;
  os_after = after;
  static const Kind kT[] = {{"malloc", 8192, 0, 220}, {"malloc", 100000, 0, 18}, {"malloc", 900000, 0, 2}};
  uint64_t h = 99;
  bool treat = false;
  int depth = vx::thorough() ? 6 : rseq_possible() ? 4 : 3;
  int a = choose(3);
  for (int i = 0; i < kT[a].count; ++i) do_alloc(find_alloc("malloc"), kT[a].size);
  for (int d = 0; d < depth; ++d) {
    int o = choose(5);
    h = vx::mix(h, o + a * 10 + m * 100);
    vx::step();
    Books b0 = books();
    size_t rel0 = prop("tcmalloc.num_released_total_bytes");
    g_given = 0;
    switch (o) {
      case 0: vx::op("alloc"); g_what = "an allocation"; for (int i = 0; i < kT[a].count; ++i) { int k = do_alloc(find_alloc("malloc"), kT[a].size); (void)k; } break;
      case 1: vx::op("free every other, flush"); g_what = "freeing"; for (int i = nblk - 1; i >= 0; i -= 2) free_any(i); flush(); break;
      case 2: vx::op("free newest quarter, flush"); g_what = "freeing"; for (int n = nblk / 4; n > 0; --n) free_any(nblk - 1); flush(); break;
      case 3: vx::op("background"); g_what = "a background round"; background_once(); break;
      case 4: vx::op("release 1 MB"); g_what = "ReleaseMemoryToSystem(1 MB)"; MallocExtension::ReleaseMemoryToSystem(1 << 20); break;
    }
    treat |= o == 3;
    check_release(b0.unmapped(), rel0, treat);
    if (o) verify_all();
  }
  vx::state(h);
  verify_all();
  free_all();
  check_books(g_base);
  os_hook = nullptr;
  os_after = nullptr;
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"small", h0, 1}, {"large", h1, 1}, {"mixed", h2, 1}, {"treated", treated, 1}};
  return vx::explore_main(argc, argv, sc, 4);
}

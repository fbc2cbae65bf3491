// C08: the published figures over every bounded history.
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;

static void flush() {
  if (g_percpu) for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]);
  else MallocExtension::MarkThreadIdle();
}

struct Kind { const char* entry; size_t size, align; int count; };
static const Kind kA[] = {{"malloc", 8, 0, 70}, {"malloc", 1000, 0, 30}, {"new cold", 3000, 0, 9}, {"memalign", 10000, 4096, 7}, {"malloc", kMaxSize, 0, 3}};
static const Kind kB[] = {{"malloc", kMaxSize + 1, 0, 3}, {"malloc", (2 << 20) - 8192, 0, 1}, {"malloc", (3 << 20) + 1, 0, 1}, {"new cold", 700000, 0, 2}, {"memalign", 40, 1 << 20, 1}};
static const Kind kC[] = {{"malloc", 9 << 20, 0, 1}, {"malloc", 100, 0, 40}, {"malloc", 2 << 20, 0, 2}, {"memalign", 3 << 20, 2 << 20, 1}, {"realloc(null)", 50000, 0, 10}};
static size_t g_base, g_peak[8];

static Helper g_helper;
static void free_all_other(void*) { free_all(); }

static void history(const Kind* k, int depth) {
  init();
  pin(0);
  if (!g_percpu) helper_run(g_helper, [](void*) { free(malloc(8)); }, nullptr);
  g_base = in_use();
  uint64_t h = reinterpret_cast<uint64_t>(k);
  for (int d = 0; d < depth; ++d) {
    int o = choose(12);
    h = vx::mix(h, o);
    vx::step();
    switch (o) {
      case 0: case 1: case 2: case 3: case 4:
        vx::op("%d x %s(%zu,%zu)", k[o].count, k[o].entry, k[o].size, k[o].align);
        for (int i = 0; i < k[o].count; ++i) do_alloc(find_alloc(k[o].entry), k[o].size, k[o].align);
        break;
      case 5: vx::op("free newest half"); for (int i = nblk; i > 0 && nblk > i / 2; --i) free_any(nblk - 1); break;
      case 6: vx::op("free every other"); for (int i = nblk - 1; i >= 0; i -= 2) free_any(i); break;
      case 7: vx::op("free all"); free_all(); break;
      case 8: vx::op("flush"); flush(); break;
      case 9: vx::op("release all"); MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2); break;
      case 10: vx::op("release 3 MB"); MallocExtension::ReleaseMemoryToSystem(3 << 20); break;
      case 11:
        vx::op("another thread frees all");
        if (g_percpu) { pin(1); free_all(); pin(0); }
        else { helper_run(g_helper, free_all_other, nullptr); }
        break;
    }
    check_books(g_base + model_bytes());
  }
  vx::state(h);
  free_all();
  check_books(g_base);
}
static int D() { return vx::thorough() ? 4 : 3; }
static void ha() { history(kA, D()); }
static void hb() { history(kB, D()); }
static void hc() { history(kC, D()); }

// With every allocation sampled the identities still hold and everything is
// returned at the end.
static void sampled() {
  init(1);
  size_t base = in_use();
  uint64_t h = 5;
  for (int d = 0; d < 3; ++d) {
    int o = choose(9);
    h = vx::mix(h, o);
    static const size_t kS[] = {1, 100, 5000, kMaxSize, 300000, 3 << 20};
    if (o < 6) { vx::op("malloc(%zu)", kS[o]); do_alloc(find_alloc(o % 2 ? "malloc" : "new"), kS[o]); }
    else if (o == 6) { vx::op("free newest"); if (nblk) free_any(nblk - 1); }
    else if (o == 7) { vx::op("flush"); flush(); }
    else { vx::op("release"); MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2); }
    vx::step();
    check_books(SIZE_MAX);
    VX_CHECK(in_use() >= base + model_bytes(), "in use %zu, live blocks %zu over %zu", in_use(), model_bytes(), base);
  }
  vx::state(h);
  free_all();
  check_books(base);
}

// Any cycle repeated does not grow the heap.
static void cycle() {
  init();
  pin(0);
  int n = 3;
  int prog[4];
  uint64_t h = 77;
  for (int i = 0; i < n; ++i) { prog[i] = choose(13); h = vx::mix(h, prog[i]); }
  vx::state(h);
  static const Kind k[] = {{"malloc", 24, 0, 300}, {"malloc", 5000, 0, 60}, {"malloc", kMaxSize, 0, 8}, {"malloc", 900000, 0, 4},
                           {"malloc", 3 << 20, 0, 2}, {"new cold", 2048, 0, 60}, {"memalign", 100000, 1 << 18, 3}, {"new cold", 400000, 0, 5}};
  if (!g_percpu) helper_run(g_helper, [](void*) { free(malloc(8)); }, nullptr);
  size_t base = in_use(), peak = 0, most = 0;
  for (int r = 0; r < 12; ++r) {
    for (int i = 0; i < n; ++i) {
      int o = prog[i];
      if (r == 0) vx::op("op %d", o);
      if (o < 8) for (int c = 0; c < k[o].count; ++c) do_alloc(find_alloc(k[o].entry), k[o].size, k[o].align);
      else if (o == 8) { for (int j = nblk - 1; j >= 0; j -= 2) free_any(j); }
      else if (o == 9) flush();
      else if (o == 10) MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
      else if (o == 11) { while (nblk) free_any(0, true); }
      else if (nblk) { // another CPU or thread frees everything
        if (g_percpu) { pin(1); free_all(); pin(0); } else { helper_run(g_helper, free_all_other, nullptr); }
      }
      vx::step();
      if (model_bytes() > most) most = model_bytes();
    }
    free_all();
    Books b = check_books(base, r % 4 == 3);
    // Filling every cache level may take some rounds; after that, six more
    // rounds may not cost another round's worth of memory.
    if (r == 5) peak = b.system();
    if (r > 5) VX_CHECK(b.system() <= peak + most + (4 << 20), "heap grew from %zu to %zu bytes while repeating one cycle that needs %zu", peak, b.system(), most);
  }
  if (g_helper.alive) helper_stop(g_helper);
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"small", ha, 1}, {"large", hb, 1}, {"mixed", hc, 1}, {"sampled", sampled, 1}, {"cycles", cycle, 1}};
  return vx::explore_main(argc, argv, sc, 5);
}

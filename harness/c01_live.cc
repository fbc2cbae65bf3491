// C01: histories of allocation and release against a model of the live blocks.
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;

struct Kind { const char* entry; size_t size, align; int count; };
static Helper g_helper;

struct FreeSet { int n; void* p[kMaxBlocks]; };
static FreeSet g_fs;
static void free_set(void*) {
  for (int i = 0; i < g_fs.n; ++i) free(g_fs.p[i]);
}
static int g_group[64], g_ngroup;  // first id of each group still (partly) live

static void flush() {
  if (g_percpu) {
    for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]);
  } else {
    MallocExtension::MarkThreadIdle();
  }
}
// Frees the blocks whose id lies in [lo, hi) and for which pick(k) holds.
template <typename P>
static void free_ids(uint32_t lo, uint32_t hi, P pick) {
  int k = 0;
  for (int i = 0; i < nblk;) {
    if (blk[i].id >= lo && blk[i].id < hi && pick(k++)) free_any(i, true);
    else ++i;
  }
}

static void history(const Kind* kinds, int nk, int depth, bool cross) {
  init();
  pin(0);
  uint32_t starts[32], ends[32];
  int groups = 0;
  const int nops = nk + 6 + (cross ? 2 : 0);
  uint64_t h = 1;
  for (int d = 0; d < depth; ++d) {
    int o = choose(nops + 1);
    h = vx::mix(h, o);
    if (o == nops) break;  // shorter histories
    vx::step();
    if (o < nk) {
      const Kind& k = kinds[o];
      int e = find_alloc(k.entry);
      vx::op("%d x %s(%zu,%zu)", k.count, k.entry, k.size, k.align);
      starts[groups] = next_id + 1;
      for (int i = 0; i < k.count; ++i) do_alloc(e, k.size, k.align);
      ends[groups++] = next_id + 1;
    } else {
      switch (!cross && o - nk == 5 ? 7 : o - nk) {
        case 0:
          vx::op("free newest group");
          if (groups) { --groups; free_ids(starts[groups], ends[groups], [](int) { return true; }); }
          break;
        case 1:
          vx::op("free oldest group");
          if (groups) {
            free_ids(starts[0], ends[0], [](int) { return true; });
            for (int g = 1; g < groups; ++g) { starts[g - 1] = starts[g]; ends[g - 1] = ends[g]; }
            --groups;
          }
          break;
        case 2:
          vx::op("free every other block");
          free_ids(0, UINT32_MAX, [](int k) { return k % 2 == 0; });
          break;
        case 3:
          vx::op("flush caches");
          flush();
          break;
        case 4:
          vx::op("release memory");
          MallocExtension::ReleaseMemoryToSystem(SIZE_MAX / 2);
          break;
        case 5:  // another thread (and CPU) frees every block of the newest group
          vx::op("other thread frees the newest group");
          if (groups) {
            --groups;
            g_fs.n = 0;
            for (int i = 0; i < nblk;) {
              if (blk[i].id >= starts[groups] && blk[i].id < ends[groups]) {
                verify(blk[i]);
                g_fs.p[g_fs.n++] = blk[i].p;
                forget_ordered(i);
              } else {
                ++i;
              }
            }
            if (g_percpu) { pin(1); free_set(nullptr); pin(0); }
            else helper_run(g_helper, free_set, nullptr);
          }
          break;
        case 6:
          vx::op("other thread exits / other CPU is drained");
          if (g_percpu) MallocExtension::ReleaseCpuMemory(g_cpus[1 % g_ncpus]);
          else helper_stop(g_helper);
          break;
        case 7:
          vx::op("background round");
          background_once();
          break;
      }
    }
    verify_all();
  }
  vx::state(h);
  verify_all();
  free_all();
}

#define N(k) (int)(sizeof(k) / sizeof(k[0]))
static const Kind kTiny[] = {{"malloc", 8, 0, 70}, {"new", 16, 0, 1}, {"malloc", 16, 0, 70}, {"new cold", 8, 0, 40}};
static const Kind kSmall[] = {{"malloc", 1024, 0, 40}, {"new align", 1000, 512, 9}, {"new", 2048, 0, 33}, {"new cold", 2048, 0, 3}};
static const Kind kMid[] = {{"malloc", 8192, 0, 5}, {"memalign", 8192, 8192, 3}, {"malloc", 40000, 0, 9}, {"malloc", kMaxSize, 0, 3}};
static const Kind kLarge[] = {{"malloc", kMaxSize + 1, 0, 3}, {"malloc", (2 << 20) - 8192, 0, 1}, {"malloc", 2 << 20, 0, 1}, {"malloc", (3 << 20) + 1, 0, 2}, {"memalign", 300000, 1 << 16, 2}};
static const Kind kHuge[] = {{"malloc", 3 << 20, 0, 1}, {"malloc", 9 << 20, 0, 1}, {"memalign", 100, 2 << 20, 1}, {"new cold", 1 << 20, 0, 3}, {"malloc", 24 << 20, 0, 1}};
static const Kind kMix[] = {{"malloc", 64, 0, 33}, {"malloc", 5000, 0, 20}, {"malloc", 300000, 0, 2}, {"malloc", 5 << 20, 0, 1}};

static int D(int q) { return vx::thorough() ? q + 1 : q; }
static void tiny() { history(kTiny, N(kTiny), D(5), true); }
static void small() { history(kSmall, N(kSmall), D(5), true); }
static void mid() { history(kMid, N(kMid), D(5), false); }
static void large() { history(kLarge, N(kLarge), D(5), false); }
static void huge() { history(kHuge, N(kHuge), D(4), false); }
static void mixed() { history(kMix, N(kMix), D(5), true); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {
      {"tiny", tiny, 200}, {"small", small, 200}, {"mid", mid, 200},
      {"large", large, 200}, {"huge", huge, 200}, {"mixed", mixed, 200}};
  return vx::explore_main(argc, argv, sc, 6);
}

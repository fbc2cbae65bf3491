// C36: memory kinds are segregated by address.
#include "lib/e2e.h"
#include "tcmalloc/internal/parameter_accessors.h"
using namespace e2e;
using vx::choose;
using tcmalloc::tcmalloc_internal::GetMemoryTag;
using tcmalloc::tcmalloc_internal::MemoryTag;

enum Mode { kOff, kFull, kLight };
static Mode mode() {
  const char* e = getenv("TCMALLOC_HEAP_PARTITIONING");
  if (!e || !strcmp(e, "0")) return kOff;
  return !strcmp(e, "light") ? kLight : kFull;
}
static const int kS0 = 0, kS1 = 1, kC = 2, kN0 = 4, kN1 = 6;
static_assert(int(MemoryTag::kCold) == kC && int(MemoryTag::kNormal) == kN0, "");

// What the kind of a request is, from how it was asked for.
//  token: -1 none, 0, 1; mal: C family.
static int expected_tag(int token, bool mal, bool cold, size_t n, bool sampled) {
  const bool page_level = n > kMaxSize;
  int t;
  switch (mode()) {
    case kOff: t = cold ? kC : kN0; break;
    case kFull: t = token == 0 ? (cold ? kC : kN0) : kN1; break;
    default:
      t = cold ? kC : token == 0 && (mal || page_level) ? kN0 : kN1;
  }
  if (sampled && !page_level) t = mode() == kFull && token != 0 ? kS1 : kS0;
  return t;
}

#define TOKDECL(id) \
  static Got tok##id##_malloc(Req r) { return {__alloc_token_##id##_malloc(r.size), 0}; } \
  static Got tok##id##_calloc(Req r) { return {__alloc_token_##id##_calloc(r.size, 1), 0}; } \
  static Got tok##id##_realloc(Req r) { return {__alloc_token_##id##_realloc(nullptr, r.size), 0}; } \
  static Got tok##id##_reallocarray(Req r) { return {__alloc_token_##id##_reallocarray(nullptr, 1, r.size), 0}; } \
  static Got tok##id##_memalign(Req r) { return {__alloc_token_##id##_memalign(r.align ? r.align : 8, r.size), 0}; } \
  static Got tok##id##_aligned_alloc(Req r) { return {__alloc_token_##id##_aligned_alloc(r.align ? r.align : 8, r.size), 0}; } \
  static Got tok##id##_posix(Req r) { void* p = nullptr; if (__alloc_token_##id##_posix_memalign(&p, r.align < 8 ? 8 : r.align, r.size)) p = nullptr; return {p, 0}; } \
  static Got tok##id##_new(Req r) { return {__alloc_token_##id##__Znwm(r.size), 0}; } \
  static Got tok##id##_newnt(Req r) { return {__alloc_token_##id##__ZnwmRKSt9nothrow_t(r.size, std::nothrow), 0}; } \
  static Got tok##id##_newal(Req r) { return {__alloc_token_##id##__ZnwmSt11align_val_t(r.size, av(r)), 0}; } \
  static Got tok##id##_newalnt(Req r) { return {__alloc_token_##id##__ZnwmSt11align_val_tRKSt9nothrow_t(r.size, av(r), std::nothrow), 0}; } \
  static Got tok##id##_newarr(Req r) { return {__alloc_token_##id##__Znam(r.size), 0}; } \
  static Got tok##id##_newcold(Req r) { return {__alloc_token_##id##__Znwm12__hot_cold_t(r.size, kCold), 0}; } \
  static Got tok##id##_newhot(Req r) { return {__alloc_token_##id##__Znwm12__hot_cold_t(r.size, kHot), 0}; } \
  static Got tok##id##_newcoldnt(Req r) { return {__alloc_token_##id##__ZnwmRKSt9nothrow_t12__hot_cold_t(r.size, std::nothrow, kCold), 0}; } \
  static Got tok##id##_newcoldal(Req r) { return {__alloc_token_##id##__ZnwmSt11align_val_t12__hot_cold_t(r.size, av(r), kCold), 0}; } \
  static Got tok##id##_newcoldalnt(Req r) { return {__alloc_token_##id##__ZnwmSt11align_val_tRKSt9nothrow_t12__hot_cold_t(r.size, av(r), std::nothrow, kCold), 0}; } \
  static Got tok##id##_srn(Req r) { auto a = __alloc_token_##id##___size_returning_new(r.size); return {a.p, a.n}; } \
  static Got tok##id##_srna(Req r) { auto a = __alloc_token_##id##___size_returning_new_aligned(r.size, av(r)); return {a.p, a.n}; } \
  static Got tok##id##_srnc(Req r) { auto a = __alloc_token_##id##___size_returning_new_hot_cold(r.size, kCold); return {a.p, a.n}; } \
  static Got tok##id##_srnac(Req r) { auto a = __alloc_token_##id##___size_returning_new_aligned_hot_cold(r.size, av(r), kCold); return {a.p, a.n}; }
TOKDECL(0)
TOKDECL(1)
struct Entry { const char* name; Got (*fn)(Req); int token; bool mal, cold, aligned; };
#define TOKROW(id) \
  {"token" #id " malloc", tok##id##_malloc, id, 1, 0, 0}, {"token" #id " calloc", tok##id##_calloc, id, 1, 0, 0}, \
  {"token" #id " realloc", tok##id##_realloc, id, 1, 0, 0}, {"token" #id " reallocarray", tok##id##_reallocarray, id, 1, 0, 0}, \
  {"token" #id " memalign", tok##id##_memalign, id, 1, 0, 1}, {"token" #id " aligned_alloc", tok##id##_aligned_alloc, id, 1, 0, 1}, \
  {"token" #id " posix_memalign", tok##id##_posix, id, 1, 0, 1}, {"token" #id " new", tok##id##_new, id, 0, 0, 0}, \
  {"token" #id " new nothrow", tok##id##_newnt, id, 0, 0, 0}, {"token" #id " new align", tok##id##_newal, id, 0, 0, 1}, \
  {"token" #id " new align nothrow", tok##id##_newalnt, id, 0, 0, 1}, {"token" #id " new[]", tok##id##_newarr, id, 0, 0, 0}, \
  {"token" #id " new cold", tok##id##_newcold, id, 0, 1, 0}, {"token" #id " new hot", tok##id##_newhot, id, 0, 0, 0}, \
  {"token" #id " new cold nothrow", tok##id##_newcoldnt, id, 0, 1, 0}, {"token" #id " new align cold", tok##id##_newcoldal, id, 0, 1, 1}, \
  {"token" #id " new align cold nothrow", tok##id##_newcoldalnt, id, 0, 1, 1}, {"token" #id " size_returning_new", tok##id##_srn, id, 0, 0, 0}, \
  {"token" #id " size_returning_new_aligned", tok##id##_srna, id, 0, 0, 1}, {"token" #id " size_returning_new_hot_cold", tok##id##_srnc, id, 0, 1, 0}, \
  {"token" #id " size_returning_new_aligned_hot_cold", tok##id##_srnac, id, 0, 1, 1}
static const Entry kTok[] = {TOKROW(0), TOKROW(1)};
constexpr int kNTok = sizeof(kTok) / sizeof(kTok[0]);
constexpr int kEntries = kNumAllocs + kNTok;
static Entry entry(int i) {
  if (i >= kNumAllocs) return kTok[i - kNumAllocs];
  const Alloc& a = kAllocs[i];
  return {a.name, a.fn, -1, a.fam == kMallocFam, a.cold, a.aligned};
}

// Releases without saying anything about kind or size.
static void release(const Entry& e, void* p, size_t al) {
  bool arr = strstr(e.name, "[]");
  if (e.mal) free(p);
  else if (e.aligned && arr) ::operator delete[](p, std::align_val_t(al));
  else if (e.aligned) ::operator delete(p, std::align_val_t(al));
  else if (arr) ::operator delete[](p);
  else ::operator delete(p);
}

static void check_tag(const Entry& e, size_t n, size_t al, void* vp, int want) {
  char* p = static_cast<char*>(vp);
  VX_CHECK(p, "%s(%zu, align %zu) failed", e.name, n, al);
  size_t us = MallocExtension_Internal_GetAllocatedSize(p);
  VX_CHECK(us >= n, "usable size");
  int got = int(GetMemoryTag(p));
  VX_CHECK(got == want, "%s(%zu, align %zu) returned %p with tag %d; requests of this kind belong to tag %d", e.name, n, al, vp, got, want);
  // every address of the block: the tag changes at page granularity at most
  for (size_t o = 0; o < us; o += us > (8 << 20) ? 1 << 20 : 4096)
    VX_CHECK(int(GetMemoryTag(p + o)) == got, "%s(%zu): byte %zu carries tag %d, byte 0 tag %d", e.name, n, o, int(GetMemoryTag(p + o)), got);
  if (us) VX_CHECK(int(GetMemoryTag(p + us - 1)) == got, "%s(%zu): last byte carries another tag", e.name, n);
  // the page map and the address agree with how a release would treat it
  VX_CHECK(MallocExtension::GetOwnership(p) == MallocExtension::Ownership::kOwned, "not owned");
}

static const size_t kAl[] = {0, 8, 16, 32, 64, 128, 512, 1024, 4096, 8192, 32768, 262144, 1 << 21};

static void sizes_impl(int64_t sampling) {
  init(sampling);
  int e = choose(kEntries);
  Entry E = entry(e);
  int ai = E.aligned ? 1 + choose(12) : 0;
  size_t al = kAl[ai];
  size_t limit = kMaxSize + 2 * kPageSize;
  vx::op("%s every size, align %zu", E.name, al);
  vx::state(vx::mix(e, ai));
  // sizes: all up to 1100, then around every multiple of 64 (page-sized steps
  // where the alignment alone makes a block page-level)
  size_t step = sampling ? 509 : 13;
  if (al > 8192 || (sampling && al)) step = 8191;
  if (vx::thorough()) step = step > 61 ? 127 : 1;
  void* held[8] = {};
  int h = 0;
  bool cold_aligned_unsure = false;
  (void)cold_aligned_unsure;
  for (size_t n = 0; n <= limit; n += n < (sampling || al ? 128 : 1100) ? 1 : (n > kMaxSize ? 4097 : step)) {
    // the neighbours of n at multiples of 64
    Got g = E.fn({n, al});
    // an over-aligned request becomes page-level when no class serves it
    size_t us = g.p ? MallocExtension_Internal_GetAllocatedSize(g.p) : 0;
    size_t kind = n;
    if (al > 8) {  // let the block itself say whether it is page-level
      auto est = n < 1 ? 1 : n;
      size_t nal = nallocx(est, lg(al));
      if (nal > kMaxSize) kind = nal;
      else if (al > 1024 && nal % kPageSize == 0 && !sampling) kind = SIZE_MAX;  // may be either
    }
    (void)us;
    if (n == 0 && E.cold && g.p && !sampling && int(GetMemoryTag(g.p)) != kC) {
      // the empty request has no cold class of its own: hot memory is fine
      check_tag(E, n, al, g.p, expected_tag(E.token, E.mal, false, n, sampling));
    } else if (kind == SIZE_MAX || (sampling && al)) {
      // either representation: the tag must be the one of a small or of a page-level block
      int t1 = expected_tag(E.token, E.mal, E.cold, 8, sampling), t2 = expected_tag(E.token, E.mal, E.cold, kMaxSize + 1, sampling);
      int got = int(GetMemoryTag(g.p));
      check_tag(E, n, al, g.p, got == t2 ? t2 : t1);
    } else {
      check_tag(E, n, al, g.p, expected_tag(E.token, E.mal, E.cold, kind, sampling));
    }
    if (held[h]) release(E, held[h], al);
    held[h] = g.p;
    h = (h + 1) % 8;
    vx::step();
  }
  for (void*& p : held)
    if (p) { release(E, p, al); p = nullptr; }
}
static void sizes() { sizes_impl(0); }
static void sizes_sampled() { sizes_impl(1); }

// Every hint against every threshold.
static void hints() {
  init();
  static const int kThr[] = {0, 1, 2, 3, 127, 128, 129, 254, 255};
  int thr = kThr[choose(9)];
  static const size_t kN[] = {1, 8, 100, 1024, 5000, 40000, kMaxSize, kMaxSize + 1, 3 << 20};
  size_t n = kN[choose(9)];
  TCMalloc_Internal_SetMinHotAccessHint(thr);
  VX_CHECK(TCMalloc_Internal_GetMinHotAccessHint() == thr, "threshold reads back as %d, not %d", TCMalloc_Internal_GetMinHotAccessHint(), thr);
  vx::op("threshold %d size %zu", thr, n);
  vx::state(vx::mix(thr, n));
  for (int h = 0; h < 256; ++h) {
    auto hc = tcmalloc::hot_cold_t{uint8_t(h)};
    bool cold = h < thr;
    Req r = {n, 64};
    void* ps[] = {::operator new(n, hc), ::operator new(n, std::nothrow, hc), ::operator new[](n, hc), ::operator new[](n, std::nothrow, hc),
                  ::operator new(n, av(r), hc), ::operator new(n, av(r), std::nothrow, hc), ::operator new[](n, av(r), hc), ::operator new[](n, av(r), std::nothrow, hc),
                  __size_returning_new_hot_cold(n, hc).p, __size_returning_new_aligned_hot_cold(n, av(r), hc).p,
                  tcmalloc_size_returning_operator_new_hot_cold_nothrow(n, hc).p, tcmalloc_size_returning_operator_new_aligned_hot_cold_nothrow(n, av(r), hc).p};
    Entry E = {"new with hint", nullptr, -1, 0, cold, 0};
    for (void* p : ps) {
      check_tag(E, n, 0, p, expected_tag(-1, false, cold, n, false));
      vx::step();
    }
    for (int i = 0; i < 12; ++i) {
      if (i < 2 || i == 8 || i >= 10) { i == 11 ? ::operator delete(ps[i], av(r)) : ::operator delete(ps[i]); }
      else if (i < 4) ::operator delete[](ps[i]);
      else if (i < 6 || i == 9) ::operator delete(ps[i], av(r));
      else ::operator delete[](ps[i], av(r));
    }
  }
}

// Histories that mix kinds, with caches flushed and memory returned in between.
static void mixing_impl(int64_t sampling) {
  init(sampling);
  pin(0);
  static const size_t kG[3][2] = {{64, 4096}, {8192, 70000}, {kMaxSize, 3 << 20}};
  int g = choose(3);
  static const char* const kinds[] = {"new", "new cold", "token0 malloc", "token0 new cold"};
  static const int batch[] = {40, 9, 3};
  struct L { char* p; size_t n; int tag; const char* what; size_t us; Entry e; };
  static L live[600];
  int nl = 0;
  size_t base = in_use();
  int depth = vx::thorough() ? 5 : 4;
  uint64_t hist = g;
  for (int d = 0; d < depth; ++d) {
    int o = choose(d == depth - 1 ? 9 : 12);
    hist = vx::mix(hist, o);
    if (o < 8) {
      Entry E{};
      for (int i = 0; i < kEntries; ++i)
        if (!strcmp(entry(i).name, kinds[o / 2])) E = entry(i);
      size_t n = kG[g][o % 2];
      vx::op("%d x %s(%zu)", batch[g], E.name, n);
      for (int i = 0; i < batch[g]; ++i) {
        Got r = E.fn({n, 0});
        int want = expected_tag(E.token, E.mal, E.cold, n, sampling);
        check_tag(E, n, 0, r.p, want);
        char* p = static_cast<char*>(r.p);
        size_t us = MallocExtension_Internal_GetAllocatedSize(p);
        for (int k = 0; k < nl; ++k) {
          VX_CHECK(p + us <= live[k].p || live[k].p + live[k].us <= p, "blocks overlap");
          if (live[k].tag != want)
            VX_CHECK((uintptr_t(p) + us - 1) / kPageSize < uintptr_t(live[k].p) / kPageSize ||
                         uintptr_t(p) / kPageSize > (uintptr_t(live[k].p) + live[k].us - 1) / kPageSize,
                     "%s block and %s block share a page", E.name, live[k].what);
        }
        memset(p, want + 1, n < 64 ? n : 64);
        p[n - 1] = want + 1;
        live[nl++] = {p, n, want, E.name, us, E};
      }
    } else if (o == 8 || o == 9) {
      int from = o == 8 ? 0 : 1, st = o == 8 ? 1 : 2, k = 0;
      vx::op(o == 8 ? "free all" : "free every other");
      for (int i = 0; i < nl; ++i) {
        if ((i - from) % st == 0 && i >= from) {
          VX_CHECK(live[i].p[0] == live[i].tag + 1 && live[i].p[live[i].n - 1] == live[i].tag + 1, "contents of a %s block changed", live[i].what);
          VX_CHECK(int(GetMemoryTag(live[i].p)) == live[i].tag, "tag");
          release(live[i].e, live[i].p, 0);
        } else {
          live[k++] = live[i];
        }
      }
      nl = k;
    } else if (o == 10) {
      vx::op("flush");
      MallocExtension::MarkThreadIdle();
      for (int c = 0; c < g_ncpus; ++c) MallocExtension::ReleaseCpuMemory(g_cpus[c]);
    } else {
      vx::op("release");
      MallocExtension::ReleaseMemoryToSystem(SIZE_MAX);
    }
    vx::step();
    vx::state(hist);
    if (!sampling) {
      size_t m = 0;
      for (int i = 0; i < nl; ++i) m += live[i].us;
      VX_CHECK(in_use() == base + m, "bytes in use %zu, expected %zu + %zu", in_use(), base, m);
    }
  }
  while (nl) --nl, release(live[nl].e, live[nl].p, 0);
  VX_CHECK(in_use() == base, "bytes in use at the end %zu, before %zu", in_use(), base);
}
static void mixing() { mixing_impl(0); }
static void mixing_sampled() { mixing_impl(1); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"every entry point and size", sizes, 8}, {"sampled", sizes_sampled, 8},
      {"every hint and threshold", hints, 1}, {"mixed histories", mixing, 40}, {"mixed sampled histories", mixing_sampled, 40}};
  return vx::explore_main(argc, argv, sc, 5);
}

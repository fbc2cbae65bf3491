// C25: the page heap over a modelled system: every span disjoint, aligned,
// tagged and registered; every page live, free or unmapped as the history
// implies; everything free again at the end.
#include <algorithm>
#include <bitset>
#include <map>
#include <new>
#include <set>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/common.h"
#include "tcmalloc/huge_page_aware_allocator.h"
#include "tcmalloc/internal/memory_tag.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
static char* meta_at;
static char* meta_end;
static char* meta_base;
void* Arena::Alloc(size_t n, std::align_val_t a) {
  meta_at = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(meta_at) + size_t(a) - 1) & ~(size_t(a) - 1));
  char* p = meta_at;
  meta_at += n;
  VX_CHECK(meta_at <= meta_end, "harness: out of metadata");
  memset(p, 0xee, n);
  return p;
}
namespace huge_page_allocator_internal {
HugeRegionUsageOption huge_region_option() { return HugeRegionUsageOption::kDefault; }
}
}
extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];

constexpr size_t HP = kPagesPerHugePage.raw_num();
using Bits = std::bitset<HP>;
typedef uintptr_t u;
constexpr size_t kRegionPages = HugeRegion::size().in_pages().raw_num();

struct Hp {
  bool owned = false;
  Bits live, unm;
  int donor = 0;     // pages the donating span keeps here; 0: not donated
  bool donor_gone = false;
};
struct Live { Span* span; size_t at, n; SpanAllocInfo info; bool donated; };

static struct {
  bool subrelease, more_often;
  SubreleaseUnbackedMode mode;
  MemoryTag tag;
  size_t base;   // first huge page the system ever grants
  size_t next;   // next one to be granted
  int answers;   // how the system grants: 0 exactly, 1 with a gap before, 2 more than asked
  int fails_left;
  bool refused_memory, refused_release;
  size_t granted;
  std::vector<Hp> hp;  // from base on
  std::vector<Live> held;
  std::map<size_t, Span*> spans;  // page -> span
  std::map<size_t, void*> trackers;
  std::vector<Span*> given;
  size_t released_now, credit;  // credit: pages given back while deallocating from a partly released huge page
  bool deleting;
  size_t rel[8];
  bool any_refused;
} G;
static Hp& of_page(size_t page) {
  size_t h = page / HP;
  VX_CHECK(h >= G.base && h - G.base < G.hp.size() && G.hp[h - G.base].owned, "page %zx was never granted", page);
  return G.hp[h - G.base];
}
static char span_mem[200][sizeof(Span)] __attribute__((aligned(64)));
static size_t nspans;

struct Fwd {
  static absl::Duration filler_skip_subrelease_short_interval() { return absl::ZeroDuration(); }
  static absl::Duration filler_skip_subrelease_long_interval() { return absl::ZeroDuration(); }
  static bool release_partial_alloc_pages() { return false; }
  static SubreleaseUnbackedMode subrelease_unbacked_hugepages() { return G.mode; }
  static bool hpaa_subrelease() { return G.subrelease; }
  static EnableUnfilteredCollapse enable_unfiltered_collapse() { return EnableUnfilteredCollapse::kDisabled; }
  static bool huge_region_adaptive_release() { return false; }
  static bool release_max_cold_pages() { return false; }
  static ReleaseStalePages release_stale_pages() { return ReleaseStalePages::kDisabled; }
  static MadviseRegionsNoHugepage madvise_cold_regions_nohugepage() { return MadviseRegionsNoHugepage::kDisabled; }
  static Arena& arena() { return arena_; }
  static Arena arena_;
  static void ShrinkToUsageLimit(Length) { VX_CHECK(pageheap_lock.IsHeld(), "limits looked at without the page heap lock"); }
  static void* GetHugepage(HugePage p) { auto it = G.trackers.find(p.first_page().index() / HP); return it == G.trackers.end() ? nullptr : it->second; }
  static void SetHugepage(HugePage p, void* t) { if (t) G.trackers[p.first_page().index() / HP] = t; else G.trackers.erase(p.first_page().index() / HP); }
  static bool Ensure(Range) { return true; }
  static void ClearSpan(PageId p) { G.spans.erase(p.index()); }
  static void SetSpan(PageId p, Span* s) { G.spans[p.index()] = s; }
  static Span* NewSpan(Range r) {
    VX_CHECK(nspans < 200, "harness: too many spans");
    return new (span_mem[nspans++]) Span(r);
  }
  static void DeleteSpan(Span*) {}
  [[noreturn]] static void ReportDoubleFree(void*) { vx::fail("the page heap takes a valid deallocation for a double free"); }
  static AddressRange AllocatePages(size_t bytes, size_t align, MemoryTag tag) {
    VX_CHECK(tag == G.tag, "memory asked for with tag %d instead of %d", int(tag), int(G.tag));
    VX_CHECK(bytes % kHugePageSize == 0 && align % kHugePageSize == 0 && bytes, "asked the system for %zu bytes aligned to %zu", bytes, align);
    if (G.fails_left && choose(2)) {
      --G.fails_left;
      G.refused_memory = G.any_refused = true;
      vx::op("  (no memory)");
      return {nullptr, 0};
    }
    size_t n = bytes / kHugePageSize, a = align / kHugePageSize;
    if (G.answers == 1) G.next += 3;
    G.next = (G.next + a - 1) / a * a;
    if (G.answers == 2) n += 2;
    size_t at = G.next;
    G.next += n;
    G.hp.resize(G.next - G.base);
    for (size_t i = at; i < G.next; ++i) {
      Hp& h = G.hp[i - G.base];
      h.owned = true;
      h.unm.set();
    }
    G.granted += n;
    return {reinterpret_cast<void*>(at << kHugePageShift), n * kHugePageSize};
  }
  static bool BackAllocations() { return true; }
  static int32_t BackSizeThresholdBytes() { return 1 << 30; }
  static void Back(Range r) {
    for (size_t p = r.p.index(); p < r.p.index() + r.n.raw_num(); ++p) of_page(p);
  }
  static MemoryModifyStatus ReleasePages(Range r) {
    size_t a = r.p.index(), n = r.n.raw_num();
    VX_CHECK(n > 0, "nothing is released");
    vx::op("  gives back %zx+%zu", a, n);
    for (size_t p = a; p < a + n; ++p) VX_CHECK(!of_page(p).live[p % HP], "page %zx, in use, is given back to the system", p);
    if (G.fails_left && choose(2)) {
      --G.fails_left;
      G.refused_release = G.any_refused = true;
      vx::op("  (release refused)");
      // A partly released huge page leaves the filler all the same, and its
      // huge page is from then on treated as released.
      if (n == HP && a % HP == 0 && of_page(a).unm.any()) of_page(a).unm.set();
      return {false, 12};
    }
    if (G.deleting && n == HP && a % HP == 0 && of_page(a).unm.any()) G.credit += HP - of_page(a).unm.count();
    for (size_t p = a; p < a + n; ++p) {
      Hp& h = of_page(p);
      if (!h.unm[p % HP]) ++G.released_now;
      h.unm.set(p % HP);
    }
    return {true, 0};
  }
  static MemoryModifyStatus CollapsePages(Range) { return {true, 0}; }
  static void SetAnonVmaName(Range r, std::optional<absl::string_view>) {
    for (size_t p = r.p.index(); p < r.p.index() + r.n.raw_num(); p += HP) of_page(p);
  }
};
ABSL_CONST_INIT Arena Fwd::arena_;
using Heap = huge_page_allocator_internal::HugePageAwareAllocator<Fwd>;
alignas(Heap) static char heap_mem[sizeof(Heap)];
static Heap* H;
#define LOCK PageHeapSpinLockHolder verif_l

static void start(MemoryTag tag, bool more_often, bool subrelease, SubreleaseUnbackedMode mode, int answers) {
  if (!meta_base) {
    meta_base = static_cast<char*>(mmap(nullptr, 256 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    meta_end = meta_base + (256 << 20);
  }
  meta_at = meta_base;
  memset(heap_mem, 0, sizeof(heap_mem));
  verif_clock = 1000000000;
  nspans = 0;
  G = {};
  G.tag = tag, G.more_often = more_often, G.subrelease = subrelease, G.mode = mode, G.answers = answers;
  G.base = G.next = ((u(tag) << kTagShift) + (u(1) << 32)) >> kHugePageShift;
  H = new (heap_mem) Heap({.tag = tag, .use_huge_region_more_often = more_often ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault});
}

// Pages the model says can still be given back, outside of huge pages that
// are neither in the filler nor entirely free (regions).
static size_t free_pages(bool outside_regions) {
  size_t k = 0;
  for (size_t i = 0; i < G.hp.size(); ++i) {
    Hp& h = G.hp[i];
    if (!h.owned) continue;
    if (outside_regions && h.live.any() && !G.trackers.count(G.base + i)) continue;
    k += (~(h.live | h.unm)).count();
  }
  return k;
}
static bool in_region(size_t hp) {
  LOCK;
  return H->region().ActiveRegions() && [&] {
    PageBitmap b;
    return H->region().GetPageAllocationStatus(HugePageContaining(reinterpret_cast<void*>(hp << kHugePageShift)), b);
  }();
}

static void check() {
  size_t live = 0, unm = 0, own = 0, donated = 0, abandoned = 0, small = 0, slack = 0;
  for (auto& h : G.hp) {
    if (!h.owned) continue;
    ++own;
    live += h.live.count(), unm += h.unm.count();
    if (h.donor) ++donated, abandoned += h.donor_gone ? h.donor : 0;
  }
  for (auto& l : G.held) {
    if (l.n <= kMaxPages.raw_num()) small += l.n;
    else slack += (l.n + HP - 1) / HP * HP - l.n;
    auto it = G.spans.find(l.at);
    VX_CHECK(it != G.spans.end() && it->second == l.span, "a live span of %zu pages is not in the page map", l.n);
    VX_CHECK(l.span->first_page().index() == l.at && l.span->num_pages().raw_num() == l.n && l.span->donated() == l.donated, "a live span changed");
  }
  VX_CHECK(G.spans.size() == G.held.size(), "%zu spans registered, %zu live", G.spans.size(), G.held.size());
  LOCK;
  BackingStats s = H->stats();
  size_t fr = own * HP - live - unm;
  VX_CHECK(own == G.granted && s.system_bytes == G.granted * kHugePageSize, "%zu bytes from the system, granted %zu", s.system_bytes, G.granted * kHugePageSize);
  VX_CHECK(s.unmapped_bytes == unm * kPageSize, "%zu unmapped pages, history implies %zu", s.unmapped_bytes / kPageSize, unm);
  VX_CHECK(s.free_bytes == fr * kPageSize, "%zu free pages, history implies %zu", s.free_bytes / kPageSize, fr);
  SmallSpanStats ss;
  LargeSpanStats ls;
  H->GetSmallSpanStats(&ss);
  H->GetLargeSpanStats(&ls);
  size_t a = ls.normal_pages.raw_num(), b = ls.returned_pages.raw_num();
  for (size_t i = 0; i < kMaxPages.raw_num(); ++i) a += i * ss.normal_length[i], b += i * ss.returned_length[i];
  VX_CHECK(a == fr && b == unm, "free spans hold %zu backed and %zu returned pages, history implies %zu and %zu", a, b, fr, unm);
  VX_CHECK((ls.spans > 0) == (ls.normal_pages + ls.returned_pages > Length(0)), "%zu large free spans hold %zu pages", ls.spans, (ls.normal_pages + ls.returned_pages).raw_num());
  VX_CHECK(H->info().small().raw_num() == small && H->info().slack().raw_num() == slack, "%zu small and %zu slack pages, live spans have %zu and %zu", H->info().small().raw_num(), H->info().slack().raw_num(), small, slack);
  VX_CHECK(H->DonatedHugePages().raw_num() == donated, "%zu donated huge pages, history implies %zu", H->DonatedHugePages().raw_num(), donated);
  VX_CHECK(H->AbandonedPages().raw_num() == abandoned, "%zu abandoned pages, history implies %zu", H->AbandonedPages().raw_num(), abandoned);
  auto rs = H->GetReleaseStats();
  VX_CHECK(rs.release_memory_to_system.raw_num() == G.rel[0] && rs.process_background_actions.raw_num() == G.rel[1] && rs.soft_limit_exceeded.raw_num() == G.rel[2] && rs.hard_limit_exceeded.raw_num() == G.rel[3] && rs.total.raw_num() == G.rel[0] + G.rel[1] + G.rel[2] + G.rel[3], "release statistics %zu %zu %zu %zu of %zu, history implies %zu %zu %zu %zu", rs.release_memory_to_system.raw_num(), rs.process_background_actions.raw_num(), rs.soft_limit_exceeded.raw_num(), rs.hard_limit_exceeded.raw_num(), rs.total.raw_num(), G.rel[0], G.rel[1], G.rel[2], G.rel[3]);
  for (size_t i = 0; i < G.hp.size(); ++i) {
    Hp& h = G.hp[i];
    if (!h.owned) continue;
    PageBitmap bm;
    VX_CHECK(H->GetPageAllocationStatus(HugePageContaining(reinterpret_cast<void*>((G.base + i) << kHugePageShift)), bm), "no status for huge page %zu", i);
    if (h.live.none()) VX_CHECK(bm.IsZero(), "free huge page %zu is reported in use", i);
    else if (h.live.all()) VX_CHECK(bm.CountBits() == HP, "huge page %zu, all in use, is reported partly free", i);
    else
      for (size_t p = 0; p < HP; ++p) VX_CHECK(bm.GetBit(p) == h.live[p], "page %zu of huge page %zu is reported %s", p, i, bm.GetBit(p) ? "in use" : "free");
  }
  vx::step(1);
}

static void alloc(size_t n, size_t align, bool dense) {
  SpanAllocInfo info{.objects_per_span = dense ? size_t{64} : size_t{1}, .density = dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  G.refused_memory = false;
  Span* s = align == 1 ? H->New(Length(n), info) : H->NewAligned(Length(n), Length(align), info);
  if (!s) {
    VX_CHECK(align > HP || G.refused_memory, "%zu pages aligned to %zu refused although the system grants memory", n, align);
    return;
  }
  VX_CHECK(align <= HP, "alignment beyond a huge page granted");
  size_t at = s->first_page().index();
  VX_CHECK(s->num_pages().raw_num() == n, "%zu pages instead of %zu", s->num_pages().raw_num(), n);
  VX_CHECK(at % align == 0, "page %zx is not aligned to %zu pages", at, align);
  VX_CHECK(GetMemoryTag(s->start_address()) == G.tag && GetMemoryTag(reinterpret_cast<char*>(s->start_address()) + n * kPageSize - 1) == G.tag, "span with another tag");
  // a huge page without any backed page is mapped as a whole
  for (size_t p = at; p < at + n;) {
    Hp& h = of_page(p);
    if (h.live.none() && h.unm.all()) h.unm.reset();
    size_t e = std::min(at + n, (p / HP + 1) * HP);
    for (; p < e; ++p) {
      VX_CHECK(!h.live[p % HP], "page %zx handed out twice", p);
      h.live.set(p % HP), h.unm.reset(p % HP);
    }
  }
  bool donated = s->donated();
  if (donated) {
    Hp& h = of_page(at + n - 1);
    VX_CHECK(at % HP == 0 && n % HP && !h.donor, "span at %zx of %zu pages cannot be a donor", at, n);
    h.donor = n % HP, h.donor_gone = false;
  } else if (n % HP && (n > HP || align > 1)) {
    VX_CHECK(G.trackers.count(at / HP) || in_region(at / HP), "the rest of a span's last huge page is lost");
  }
  G.held.push_back({s, at, n, info, donated});
}
static void del(size_t k) {
  Live l = G.held[k];
  G.held.erase(G.held.begin() + k);
  for (size_t p = l.at; p < l.at + l.n; ++p) of_page(p).live.reset(p % HP);
  // the pages are accounted for before the system is asked: releases during
  // the deallocation may cover them
  G.deleting = true;
  {
    LOCK;
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
    H->Delete(l.span, l.info);
#else
    H->Delete({Range(PageId(l.at), Length(l.n)), l.span->donated()}, l.info);
#endif
  }
  G.deleting = false;
  Hp& last = of_page(l.at + l.n - 1);
  if (l.donated) last.donor_gone = true;
  for (size_t p = l.at; p < l.at + l.n; p += HP) if (of_page(p).live.none()) of_page(p).donor = 0;
  if (last.live.none()) last.donor = 0;
}
static void release(size_t n, int reason, bool breaking) {
  static const PageReleaseReason why[] = {PageReleaseReason::kReleaseMemoryToSystem, PageReleaseReason::kProcessBackgroundActions, PageReleaseReason::kSoftLimitExceeded, PageReleaseReason::kHardLimitExceeded};
  G.released_now = 0, G.refused_release = false;
  size_t can = free_pages(true), reg = 0;
  if (!breaking)  // free huge pages of regions stay unless regions are used more often; then a fraction goes
    for (size_t i = 0; i < G.hp.size(); ++i)
      if (G.hp[i].owned && G.hp[i].live.none() && !G.hp[i].unm.all() && in_region(G.base + i)) reg += HP;
  size_t got;
  {
    LOCK;
    got = (breaking ? H->ReleaseAtLeastNPagesBreakingHugepages(Length(n), why[reason]) : H->ReleaseAtLeastNPages(Length(n), why[reason])).raw_num();
  }
  VX_CHECK(got == G.released_now || got == G.released_now + G.credit, "claims %zu pages released, %zu were, %zu earlier", got, G.released_now, G.credit);
  if (got != G.released_now) G.credit = 0;
  if ((breaking || G.subrelease || G.tag == MemoryTag::kCold) && !G.refused_release) VX_CHECK(got >= std::min(n, can - reg), "released %zu pages of %zu wanted and %zu possible", got, n, can - reg);
  G.rel[reason] += got;
}
static void finish() {
  G.fails_left = 0;
  for (int i = 0; !G.held.empty(); ++i) del(i % 2 ? 0 : G.held.size() - 1);
  check();
  for (auto& h : G.hp) VX_CHECK(!h.owned || (h.live.none() && !h.donor), "huge page left over");
  VX_CHECK(G.trackers.empty(), "%zu huge pages stay with the filler after everything was deallocated", G.trackers.size());
  if (!G.any_refused) {
    release(1 << 20, 0, true);
    check();
    VX_CHECK(free_pages(false) == 0, "%zu free pages cannot be given back", free_pages(false));
  }
}

static const int kOps = 22;
static void act(int c) {
  switch (c) {
    case 0: vx::op("1 page"), alloc(1, 1, false); break;
    case 1: vx::op("257 pages"), alloc(257, 1, false); break;
    case 2: vx::op("newest freed"); if (!G.held.empty()) del(G.held.size() - 1); break;
    case 3: vx::op("oldest freed"); if (!G.held.empty()) del(0); break;
    case 4: vx::op("everything given back"), release(1 << 18, 0, true); break;
    case 5: vx::op("129 pages"), alloc(129, 1, false); break;
    case 6: vx::op("1 page wanted back"), release(1, 1, false); break;
    case 7: vx::op("255 pages"), alloc(255, 1, false); break;
    case 8: vx::op("128 pages"), alloc(128, 1, false); break;
    case 9: vx::op("middle one freed"); if (!G.held.empty()) del(G.held.size() / 2); break;
    case 10: vx::op("256 pages"), alloc(256, 1, false); break;
    case 11: vx::op("a dense page"), alloc(1, 1, true); break;
    case 12: vx::op("1 page wanted back, breaking huge pages"), release(1, 2, true); break;
    case 13: vx::op("700 pages"), alloc(700, 1, false); break;
    case 14: vx::op("2 pages aligned to 256"), alloc(2, 256, false); break;
    case 15: vx::op("300 pages wanted back"), release(300, 3, false); break;
    case 16: vx::op("all freed"); while (!G.held.empty()) del(0); break;
    case 17: vx::op("513 pages aligned to 64"), alloc(513, 64, false); break;
    case 18: vx::op("two seconds pass"), verif_clock += 2000000; break;
    case 19: vx::op("1 page aligned to 2"), alloc(1, 2, false); break;
    case 20: vx::op("1 page aligned to 512"), alloc(1, 512, false); break;
    case 21: vx::op("more than a region"), alloc(kRegionPages + 1, 1, false); break;
  }
}
static uint64_t where() {
  uint64_t h = G.granted;
  for (auto& x : G.hp) h = vx::mix(h, vx::hash_bytes(x.donor + 1, &x.live, sizeof x.live)), h = vx::mix(h, vx::hash_bytes(x.donor_gone, &x.unm, sizeof x.unm));
  for (auto& l : G.held) h = vx::mix(h, l.at);
  return h;
}
static int setup() {
  int c = choose(vx::thorough() ? 8 : 5);
  static const struct { MemoryTag tag; bool more, sub; SubreleaseUnbackedMode m; int ans; } cfg[] = {
      {MemoryTag::kNormalP0, true, true, SubreleaseUnbackedMode::kDisabled, 0},
      {MemoryTag::kNormalP0, false, true, SubreleaseUnbackedMode::kEnabled, 0},
      {MemoryTag::kCold, true, false, SubreleaseUnbackedMode::kDisabled, 1},
      {MemoryTag::kSampled, false, false, SubreleaseUnbackedMode::kDisabled, 2},
      {MemoryTag::kNormalP1, true, true, SubreleaseUnbackedMode::kEnabled, 2},
      {MemoryTag::kNormalP0, false, true, SubreleaseUnbackedMode::kDisabled, 1},
      {MemoryTag::kNormalP1, true, false, SubreleaseUnbackedMode::kDisabled, 0},
      {MemoryTag::kSampled, true, true, SubreleaseUnbackedMode::kDisabled, 1}};
  auto& g = cfg[c];
  vx::op("tag %d, regions %s, subrelease %d", int(g.tag), g.more ? "often" : "rarely", g.sub);
  start(g.tag, g.more, g.sub, g.m, g.ans);
  return c;
}
static void past(int k) {
  switch (k) {
    case 0: break;
    case 1:  // fragmented, partly released
      vx::op("past: fragmented and partly released");
      for (int i = 0; i < 6; ++i) alloc(100, 1, false);
      for (int i = 0; i < 3; ++i) del(i);
      release(60, 0, true);
      break;
    case 2:  // donated tails in use, one donor gone
      vx::op("past: donated huge pages in use");
      alloc(300, 1, false), alloc(1, 1, false), alloc(300, 1, false), alloc(250, 1, false), alloc(20, 1, false), del(0);
      break;
    case 3:  // enough slack for regions
      vx::op("past: enough slack for a region");
      for (int i = 0; i < 34; ++i) alloc(257, 1, false);
      break;
    case 4:  // a region in use
      vx::op("past: a region in use");
      for (int i = 0; i < 36; ++i) alloc(257, 1, false);
      alloc(300, 1, false), del(34);
      break;
    case 5:  // cached huge pages
      vx::op("past: cached huge pages");
      for (int i = 0; i < 4; ++i) alloc(512, 1, false);
      del(1), del(1);
      break;
  }
  check();
}
#ifdef NDEBUG
constexpr int kDepth = 3;
#else
constexpr int kDepth = 4;
#endif
static void run(int p, int depth, int ops, int fails) {
  int c = setup();
  if (c > 1 && p != 3 && p != 4 && !vx::thorough()) depth = std::min(depth, 3);
  if (depth > 3 && !vx::thorough()) ops = std::min(ops, 20);
  past(p);
  G.fails_left = fails;
  for (int d = 0; d < depth; ++d) {
    act(choose(ops));
    check();
    vx::state(where());
  }
  finish();
}
static void fresh() { run(0, kDepth + vx::thorough(), 22, 0); }
static void used() { static const int p[] = {1, 2, 5}; run(p[choose(3)], kDepth - 1 + vx::thorough(), 20, 0); }
static void region() { run(3 + choose(2), kDepth - 2 + vx::thorough(), 22, 0); }
static void refused() { static const int p[] = {0, 1, 2, 4, 5}; int k = choose(5); run(p[k], (k == 3 ? 2 : 3) + vx::thorough(), 20, 1 + vx::thorough()); }

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"fresh", fresh, 256}, {"used", used, 256}, {"region", region, 64}, {"refused", refused, 256}};
  return vx::explore_main(argc, argv, sc, 4);
}

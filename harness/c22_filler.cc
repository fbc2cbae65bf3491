// C22: the huge-page filler hands out disjoint runs and counts exactly.
#include <algorithm>
#include <bitset>
#include <memory>
#include <set>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/common.h"
#include "tcmalloc/huge_page_filler.h"
#include "tcmalloc/huge_page_tracker.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
}
// Nothing here may depend on the allocator's own state.
extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];

constexpr size_t HP = kPagesPerHugePage.raw_num();
constexpr size_t kBase = 1000;  // first huge page handed to the filler
constexpr size_t kObj = 7;
#ifdef NDEBUG
constexpr int kDepth = 4;
#else
constexpr int kDepth = 5;
#endif
struct Run { size_t at, n; };
using Bits = std::bitset<HP>;
static int64_t g_clock;

struct T {
  std::unique_ptr<PageTracker> pt;
  size_t hp = 0;
  bool dense = false, donated = false, in = true, freed = false, collapsing = false;
  int order = 0;
  std::vector<Run> live;
  Bits rel;
  Bits used_bits() const {
    Bits b;
    for (auto& r : live) for (size_t i = r.at; i < r.at + r.n; ++i) b.set(i);
    return b;
  }
  size_t used() const { size_t k = 0; for (auto& r : live) k += r.n; return k; }
  size_t longest() const {
    Bits b = used_bits();
    size_t m = 0, c = 0;
    for (size_t i = 0; i < HP; ++i) { c = b[i] ? 0 : c + 1; m = std::max(m, c); }
    return m;
  }
};
struct Held { size_t t; Run r; };

struct World;
static World* g_w;
struct Unback : MemoryModifyFunction { bool drops; MemoryModifyStatus operator()(Range r) override; };
struct Collapse : MemoryModifyFunction { MemoryModifyStatus operator()(Range r) override; };
struct Name : MemoryTagFunction { void operator()(Range r, std::optional<absl::string_view> name) override; };
struct Flags : PageFlagsBase {
  std::optional<bool> IsHugepageBacked(const void* a) override;
  std::optional<PageStats> Get(const void*, size_t) override { return {}; }
  PageFlagsBitmaps GetSinglePageBitmaps(const void* a) override;
};
struct Resid : Residency {
  std::optional<Info> Get(const void*, size_t) override { return {}; }
  size_t GetHardwarePagesInHugePage() const override { return kHugePageSize / 4096; }
  SinglePageBitmaps GetUnbackedAndSwappedBitmaps(const void* a) override;
};

struct World {
  Unback held_unback, free_unback;
  Collapse coll;
  Name name;
  Flags flags;
  Resid resid;
  bool enabled;  // broken huge pages count as released
  HugePageFiller<PageTracker> f;
  std::vector<std::unique_ptr<T>> ts;
  std::vector<Held> held;  // oldest first
  size_t unaccounted = 0;
  int fails_left = 0, nest_left = 0;
  bool nesting = false, treating = false, failed = false, in_release = false;
  size_t released_now = 0, last_tracker = ~size_t{0}, last_part = 0;
  bool broke_whole = false;
  int sampled = 0;
  std::vector<PageBitmap> reported;

  explicit World(bool en)
      : enabled(en), f(Clock{.now = [] { return g_clock; }, .freq = [] { return 1e3; }}, MemoryTag::kNormal, held_unback, free_unback, coll, name,
                       en ? SubreleaseUnbackedMode::kEnabled : SubreleaseUnbackedMode::kDisabled) {
    held_unback.drops = false;
    free_unback.drops = true;
    g_w = this;
  }
  T& of(size_t hp) {
    VX_CHECK(hp >= kBase && hp - kBase < ts.size(), "huge page %zu was never given to the filler", hp);
    return *ts[hp - kBase];
  }
  bool broken(const T& t) const { return t.rel.any() || (enabled && !t.pt->unbroken()); }
  SpanAllocInfo info(bool dense) const { return {.objects_per_span = kObj, .density = dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse}; }

  void contribute(size_t n, bool dense, bool donated) {
    auto t = std::make_unique<T>();
    size_t i = ts.size();
    t->hp = kBase + i;
    t->pt = std::make_unique<PageTracker>(HugePage{t->hp}, donated, g_clock);
    auto a = t->pt->Get(Length(n), info(dense));
    VX_CHECK(a.page == HugePage{t->hp}.first_page() && a.previously_unbacked == Length(0), "first run of a fresh huge page");
    t->dense = dense;
    t->donated = donated;
    t->live.push_back({0, n});
    held.push_back({i, {0, n}});
    T* p = t.get();
    ts.push_back(std::move(t));
    f.Contribute(p->pt.get(), donated, info(dense));
    p->pt->SetTagState({.sampled_for_tagging = sampled > 0});
  }
  // Returns false if nothing fits.
  bool get(size_t n, bool dense) {
    bool fits = false;
    for (auto& t : ts) if (t->in && t->dense == dense && t->longest() >= n) fits = true;
    auto r = f.TryGet(Length(n), info(dense));
    VX_CHECK(!!r.pt == fits, r.pt ? "%zu pages handed out, none fit" : "%zu pages refused although they fit", n);
    if (!r.pt) {
      VX_CHECK(!r.from_released && r.page == PageId{0}, "refusal with a page");
      return false;
    }
    T& t = of(r.page.index() / HP);
    VX_CHECK(r.pt == t.pt.get() && t.in, "handed out from another huge page");
    VX_CHECK(t.dense == dense, "%s pages from a %s huge page", dense ? "dense" : "sparse", t.dense ? "dense" : "sparse");
    Run run{r.page.index() % HP, n};
    VX_CHECK(run.at + n <= HP, "run %zu+%zu leaves its huge page", run.at, n);
    Bits u = t.used_bits();
    for (size_t i = 0; i < n; ++i) VX_CHECK(!u[run.at + i], "page %zu of huge page %zu handed out twice", run.at + i, t.hp - kBase);
    VX_CHECK(r.from_released == broken(t), "run reported %s released memory", r.from_released ? "from" : "not from");
    for (size_t i = 0; i < n; ++i) t.rel.reset(run.at + i);
    t.donated = false;
    t.live.push_back(run);
    held.push_back({t.hp - kBase, run});
    return true;
  }
  void alloc(size_t n, bool dense) { if (!get(n, dense)) contribute(n, dense, false); }
  void put(size_t k) {
    Held h = held[k];
    held.erase(held.begin() + k);
    T& t = *ts[h.t];
    for (size_t i = 0; i < t.live.size(); ++i) if (t.live[i].at == h.r.at) { t.live.erase(t.live.begin() + i); break; }
    t.donated = false;
    bool empty = t.live.empty(), pinned = t.pt->DontFreeTracker();
    VX_CHECK(!pinned || treating, "a huge page stays pinned outside of treatment");
    size_t nr = t.rel.count();
    if (empty) t.in = false;
    auto* r = f.Put(t.pt.get(), Range(PageId(t.hp * HP + h.r.at), Length(h.r.n)), info(t.dense));
    VX_CHECK((r != nullptr) == (empty && !pinned), "%s", r ? "a huge page in use was given up" : "an empty huge page was kept");
    if (!empty) return;
    if (r) VX_CHECK(r == t.pt.get(), "another huge page was given up");
    else t.freed = true;
    // Partly released: the rest goes back to the system as well.
    VX_CHECK((nr > 0 && nr < HP) == whole_unback || t.rel.count() == nr, "huge page with %zu released pages", nr);
    if (nr > 0 && nr < HP) VX_CHECK(whole_unback, "a partly released huge page was given up without releasing the rest");
    whole_unback = false;
  }
  bool whole_unback = false;

  size_t releasable() const {
    size_t k = 0;
    for (auto& t : ts) if (t->in && !t->collapsing) k += HP - t->used() - t->rel.count();
    return k;
  }
  size_t free_in_partial() const {
    size_t k = 0;
    for (auto& t : ts) if (t->in && !t->donated && broken(*t)) k += HP - t->used() - t->rel.count();
    return k;
  }
  void release(size_t n, bool partial, bool limit) {
    size_t want = n, can = releasable();
    if (partial && !limit) want = std::max<size_t>(n, HugePageFiller<PageTracker>::kPartialAllocPagesRelease * free_in_partial());
    released_now = last_part = 0, last_tracker = ~size_t{0}, failed = false, in_release = true;
    size_t got = f.ReleasePages(Length(n), SkipSubreleaseIntervals{}, partial, limit).raw_num();
    in_release = false;
    VX_CHECK(got == released_now + unaccounted, "claims %zu pages released: %zu were now, %zu earlier", got, released_now, unaccounted);
    if (!failed) VX_CHECK(got >= std::min(want, can + unaccounted), "released %zu of %zu wanted and %zu possible pages", got, want, can);
    VX_CHECK(got - last_part < std::max<size_t>(want, 1) || last_part == 0, "went on releasing after %zu pages, wanted %zu", got - last_part, want);
    unaccounted = 0;
  }
  // A system call reports success or failure.
  bool answer() {
    if (!fails_left || !choose(2)) return true;
    --fails_left;
    vx::op("  (refused)");
    return false;
  }
  // What another thread does while the page heap lock is not held.
  void nested() {
    if (nesting || !nest_left) return;
    nesting = true;
    int c = choose(6);
    if (c) {
      --nest_left;
      pageheap_lock.lock();
      bool save_rel = in_release;
      bool save_whole = whole_unback;
      whole_unback = false;
      vx::op("  other thread: %d", c);
      if (c == 1) alloc(1, false);
      else if (c == 2 && !held.empty()) put(held.size() - 1);
      else if (c == 3 && !held.empty()) put(0);
      else if (c == 4) release(HP * 100, false, false);
      else if (c == 5 && !held.empty()) while (!held.empty()) put(0);
      in_release = save_rel;
      whole_unback = save_whole;
      pageheap_lock.unlock();
    }
    nesting = false;
  }
  void treat(EnableCollapse ec, EnableUnfilteredCollapse eu, ReleaseStalePages rs) {
    treating = true;
    std::vector<Bits> before;
    for (auto& t : ts) { t->collapsing = false; }
    reported.assign(64, PageBitmap());
    reported_swap.assign(64, 0);
    reported_stale.assign(64, 0);
    asked.assign(64, 0);
    in_treat_release = 0;
    pageheap_lock.lock();
    f.TreatHugepageTrackers(ec, eu, rs, &flags, &resid);
    pageheap_lock.unlock();
    treating = false;
    for (size_t i = 0; i < ts.size(); ++i) {
      T& t = *ts[i];
      VX_CHECK(!t.collapsing && !t.pt->BeingCollapsed(), "collapse never ended");
      if (t.in) VX_CHECK(!t.pt->DontFreeTracker(), "a huge page stays pinned");
      if (!t.in || !asked[i]) continue;
      // Pages found unbacked by the system count as released from here on.
      Bits u = t.used_bits();
      for (size_t p = 0; p < HP; ++p)
        if (enabled && asked[i] == 2 && !u[p] && reported[i].GetBit(p) && !t.rel[p]) t.rel.set(p), ++unaccounted, t.donated = false;
      if (asked[i] == 2 && enabled) t.donated = false;
      bool must = asked[i] == 2 && (reported_swap[i] || (rs == ReleaseStalePages::kEnabled && reported_stale[i]));
      if (must && !failed_treat) VX_CHECK(t.rel.count() == HP - t.used(), "swapped or stale huge page keeps %zu free pages", HP - t.used() - t.rel.count());
      if (must) t.donated = false;
    }
    std::set<PageTracker*> got;
    pageheap_lock.lock();
    while (auto* p = f.FetchFullyFreedTracker()) VX_CHECK(got.insert(p).second, "an emptied huge page is given up twice");
    pageheap_lock.unlock();
    for (auto& t : ts) {
      VX_CHECK(got.count(t->pt.get()) == t->freed, t->freed ? "an emptied huge page was lost" : "a huge page in use was given up");
      t->freed = false;
    }
    failed_treat = false;
  }
  std::vector<int> reported_swap, reported_stale, asked;
  int regained[64] = {};
  bool failed_treat = false, stale_on = false;
  int hbq = 0;
  size_t in_treat_release = 0;

  // Every figure must follow from the history.
  void check() {
    size_t size = 0, used[2] = {}, unm = 0, upart = 0, urel = 0, fp = 0;
    size_t nfull[2] = {}, npart[2] = {}, nrel[2] = {}, ntot[2] = {};
    SmallSpanStats s{}, ws{};
    LargeSpanStats l{}, wl{};
    for (auto& tp : ts) {
      T& t = *tp;
      if (!t.in) continue;
      size_t u = t.used(), r = t.rel.count();
      ++size, ++ntot[t.dense], used[t.dense] += u, unm += r;
      VX_CHECK(t.pt->used_pages().raw_num() == u && t.pt->free_pages().raw_num() == HP - u && t.pt->released_pages().raw_num() == r && t.pt->nallocs() == t.live.size() && t.pt->nobjects() == kObj * t.live.size() && t.pt->longest_free_range().raw_num() == t.longest(), "huge page %zu: %zu used, %zu released, %zu runs; history implies %zu, %zu, %zu", t.hp - kBase, t.pt->used_pages().raw_num(), t.pt->released_pages().raw_num(), t.pt->nallocs(), u, r, t.live.size());
      auto rb = t.pt->released_by_page(), ab = t.pt->allocated_pages_bitmap();
      Bits ub = t.used_bits();
      for (size_t i = 0; i < HP; ++i) VX_CHECK(rb.GetBit(i) == t.rel[i] && ab.GetBit(i) == ub[i], "page %zu of huge page %zu: allocated %d released %d, history implies %d %d", i, t.hp - kBase, ab.GetBit(i), rb.GetBit(i), int(ub[i]), int(t.rel[i]));
      VX_CHECK(t.pt->donated() == t.donated, "huge page %zu %s as donated", t.hp - kBase, t.donated ? "no longer counts" : "still counts");
      if (!t.donated && broken(t)) {
        if (HP - u <= r) ++nrel[t.dense], urel += u;
        else ++npart[t.dense], upart += u;
        fp += HP - u - r;
      } else if (u == HP) ++nfull[t.dense];
      for (size_t i = 0; i < HP;) {
        if (ub[i]) { ++i; continue; }
        size_t e = i;
        while (e < HP && !ub[e] && t.rel[e] == t.rel[i]) ++e;
        size_t n = e - i;
        if (n < kMaxPages.raw_num()) ++(t.rel[i] ? ws.returned_length[n] : ws.normal_length[n]);
        else ++wl.spans, (t.rel[i] ? wl.returned_pages : wl.normal_pages) += Length(n);
        i = e;
      }
    }
    VX_CHECK(f.size().raw_num() == size, "%zu huge pages, history implies %zu", f.size().raw_num(), size);
    VX_CHECK(f.pages_allocated(AccessDensityPrediction::kSparse).raw_num() == used[0] && f.pages_allocated(AccessDensityPrediction::kDense).raw_num() == used[1], "%zu sparse, %zu dense pages in use, history implies %zu, %zu", f.pages_allocated(AccessDensityPrediction::kSparse).raw_num(), f.pages_allocated(AccessDensityPrediction::kDense).raw_num(), used[0], used[1]);
    VX_CHECK(f.used_pages().raw_num() == used[0] + used[1] && f.pages_allocated() == f.used_pages(), "%zu used pages, history implies %zu", f.used_pages().raw_num(), used[0] + used[1]);
    VX_CHECK(f.unmapped_pages().raw_num() == unm, "%zu unmapped pages, history implies %zu", f.unmapped_pages().raw_num(), unm);
    size_t fr = size * HP - used[0] - used[1] - unm;
    VX_CHECK(f.free_pages().raw_num() == fr, "%zu free pages, history implies %zu", f.free_pages().raw_num(), fr);
    auto st = f.stats();
    VX_CHECK(st.system_bytes == size * kHugePageSize && st.free_bytes == fr * kPageSize && st.unmapped_bytes == unm * kPageSize, "published bytes");
    VX_CHECK(f.used_pages_in_released().raw_num() == urel && f.used_pages_in_partial_released().raw_num() == upart && f.used_pages_in_any_subreleased().raw_num() == urel + upart, "used pages in released huge pages: %zu, partly %zu; history implies %zu, %zu", f.used_pages_in_released().raw_num(), f.used_pages_in_partial_released().raw_num(), urel, upart);
    VX_CHECK(f.FreePagesInPartialAllocs().raw_num() == fp, "%zu free pages in partly released huge pages, history implies %zu", f.FreePagesInPartialAllocs().raw_num(), fp);
    double frac = double(used[0] + used[1] - urel - upart) / std::max<size_t>(1, used[0] + used[1]);
    VX_CHECK(f.hugepage_frac() > frac - 1e-9 && f.hugepage_frac() < frac + 1e-9, "%f of used pages on huge pages, history implies %f", f.hugepage_frac(), frac);
    auto g = f.GetStats();
    size_t sum[5] = {};
    for (int d = 0; d < 2; ++d) {
      auto k = d ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse;
      size_t want[5] = {ntot[d], nfull[d], ntot[d] - nfull[d] - npart[d] - nrel[d], nrel[d] + npart[d], npart[d]};
      size_t have[5] = {g.n_total[k].raw_num(), g.n_full[k].raw_num(), g.n_partial[k].raw_num(), g.n_released[k].raw_num(), g.n_partial_released[k].raw_num()};
      for (int i = 0; i < 5; ++i) {
        VX_CHECK(have[i] == want[i], "%s huge pages: figure %d (total, full, partial, released, partly released) is %zu, history implies %zu", d ? "dense" : "sparse", i, have[i], want[i]);
        sum[i] += want[i];
      }
      VX_CHECK(g.n_fully_released[k].raw_num() == nrel[d], "fully released huge pages");
    }
    auto k = AccessDensityPrediction::kPredictionCounts;
    size_t have[5] = {g.n_total[k].raw_num(), g.n_full[k].raw_num(), g.n_partial[k].raw_num(), g.n_released[k].raw_num(), g.n_partial_released[k].raw_num()};
    for (int i = 0; i < 5; ++i) VX_CHECK(have[i] == sum[i], "all huge pages: figure %d is %zu, history implies %zu", i, have[i], sum[i]);
    f.AddSpanStats(&s, &l);
    VX_CHECK(wl.spans == l.spans && wl.returned_pages == l.returned_pages && wl.normal_pages == l.normal_pages, "large free spans: %zu (%zu backed, %zu released pages), history implies %zu (%zu, %zu)", l.spans, l.normal_pages.raw_num(), l.returned_pages.raw_num(), wl.spans, wl.normal_pages.raw_num(), wl.returned_pages.raw_num());
    for (size_t i = 0; i < kMaxPages.raw_num(); ++i)
      VX_CHECK(s.normal_length[i] == ws.normal_length[i] && s.returned_length[i] == ws.returned_length[i], "free spans of %zu pages: %zd backed, %zd released, history implies %zd, %zd", i, ssize_t(s.normal_length[i]), ssize_t(s.returned_length[i]), ssize_t(ws.normal_length[i]), ssize_t(ws.returned_length[i]));
    std::set<PageTracker*> seen;
    pageheap_lock.lock();
    f.ForEachHugePage([&](const PageTracker& p) { VX_CHECK(seen.insert(const_cast<PageTracker*>(&p)).second, "a huge page is listed twice"); });
    pageheap_lock.unlock();
    for (auto& t : ts) VX_CHECK(seen.count(t->pt.get()) == t->in, "huge page %zu %s", t->hp - kBase, t->in ? "is not listed" : "is listed after it was given up");
    VX_CHECK(seen.size() == size, "unknown huge pages are listed");
  }
};

MemoryModifyStatus Unback::operator()(Range r) {
  World& w = *g_w;
  VX_CHECK(r.n > Length(0), "empty range released");
  size_t hp = r.p.index() / HP, at = r.p.index() % HP, n = r.n.raw_num();
  T& t = w.of(hp);
  VX_CHECK(at + n <= HP, "range %zu+%zu released leaves its huge page", at, n);
  VX_CHECK(!t.collapsing, "pages released while their huge page is being collapsed");
  if (drops) {
    VX_CHECK(!t.in && t.live.empty() && n == HP, "%zu+%zu of huge page %zu released while it is in use", at, n, hp - kBase);
    VX_CHECK(!w.whole_unback, "released twice");
    size_t had = t.rel.count();
    bool ok = w.answer();
    pageheap_lock.unlock();
    w.nested();
    pageheap_lock.lock();
    if (ok) w.unaccounted += HP - had;
    w.whole_unback = true;
    return {.success = ok, .error_number = ok ? 0 : ENOMEM};
  }
  VX_CHECK(t.in, "pages of a huge page that was given up are released");
  Bits u = t.used_bits();
  for (size_t i = at; i < at + n; ++i) {
    VX_CHECK(!u[i], "page %zu of huge page %zu is in use and released", i, hp - kBase);
    VX_CHECK(!t.rel[i], "page %zu of huge page %zu is released twice", i, hp - kBase);
  }
  t.donated = false;
  if (!w.answer()) { w.failed = true; if (w.treating) w.failed_treat = true; return {.success = false, .error_number = ENOMEM}; }
  for (size_t i = at; i < at + n; ++i) t.rel.set(i);
  if (w.in_release) {
    if (w.last_tracker != hp) w.last_part = 0;
    w.last_tracker = hp;
    w.last_part += n;
    w.released_now += n;
  } else {
    VX_CHECK(w.treating, "pages released although nobody asked");
    w.unaccounted += n;
  }
  return {.success = true, .error_number = 0};
}
MemoryModifyStatus Collapse::operator()(Range r) {
  World& w = *g_w;
  T& t = w.of(r.p.index() / HP);
  VX_CHECK(r.p.index() % HP == 0 && r.n.raw_num() == HP, "collapse of part of a huge page");
  VX_CHECK(t.rel.none(), "collapse of a partly released huge page");
  t.collapsing = true;
  w.nested();
  t.collapsing = false;
  int c = choose(vx::thorough() ? 3 : 2);
  if (c == 2) g_clock += 40;
  bool ok = c != 1;
  w.regained[t.hp - kBase] = ok;
  if (ok) w.asked[t.hp - kBase] = 1;
  vx::op("  collapse %s", ok ? "succeeds" : "fails");
  return {.success = ok, .error_number = ok ? 0 : EBUSY};
}
void Name::operator()(Range r, std::optional<absl::string_view> name) {
  World& w = *g_w;
  VX_CHECK(r.p.index() % HP == 0 && r.n.raw_num() == HP, "part of a huge page named");
  w.of(r.p.index() / HP);
  if (w.treating && name.has_value() && !pageheap_lock.IsHeld()) w.nested();
}
std::optional<bool> Flags::IsHugepageBacked(const void* a) {
  World& w = *g_w;
  size_t i = w.of(reinterpret_cast<uintptr_t>(a) / kHugePageSize).hp - kBase;
  w.nested();
  int c = choose(vx::thorough() || w.hbq == 0 ? 3 : 2);
  ++w.hbq;
  w.asked[i] = c == 0 ? 2 : 1;
  w.regained[i] = c != 0;
  vx::op("  huge page %zu %s", i, c == 0 ? "is not huge-page backed" : c == 1 ? "is huge-page backed" : "is not known to be huge-page backed");
  if (c == 2) return {};
  return c == 1;
}
Residency::SinglePageBitmaps Resid::GetUnbackedAndSwappedBitmaps(const void* a) {
  World& w = *g_w;
  size_t i = w.of(reinterpret_cast<uintptr_t>(a) / kHugePageSize).hp - kBase;
  SinglePageBitmaps b{};
  b.status = absl::StatusCode::kOk;
  constexpr size_t k = kPageSize / 4096;
  int c = choose(4);
  vx::op("  huge page %zu: residency %d", i, c);
  // unbacked: nothing; half a page less than everything but the first ten
  // pages; a few pages; then also one page swapped.
  w.reported[i] = PageBitmap();
  auto mark = [&](size_t from, size_t n) { b.unbacked.SetRange(from * k, n * k); w.reported[i].SetRange(from, n); };
  if (c == 1) mark(10, HP - 10), b.unbacked.ClearLowestBit(), w.reported[i].ClearLowestBit();
  if (c == 2) mark(0, 1), mark(HP - 5, 5);
  if (c == 3) b.swapped.SetBit(HP * k - 1), mark(3, 2);
  w.reported_swap[i] = c == 3;
  return b;
}
PageFlagsBase::PageFlagsBitmaps Flags::GetSinglePageBitmaps(const void* a) {
  World& w = *g_w;
  size_t i = w.of(reinterpret_cast<uintptr_t>(a) / kHugePageSize).hp - kBase;
  PageFlagsBitmaps b{};
  b.status = absl::StatusCode::kOk;
  if (w.stale_on && choose(2)) b.stale.SetBit(17), w.reported_stale[i] = 1;
  return b;
}

static void step(World& w, int c) {
  pageheap_lock.lock();
  switch (c) {
    case 0: vx::op("1 sparse page"); w.alloc(1, false); break;
    case 1: vx::op("100 sparse pages"); w.alloc(100, false); break;
    case 2: vx::op("255 sparse pages"); w.alloc(255, false); break;
    case 3: vx::op("1 dense page"); w.alloc(1, true); break;
    case 4: vx::op("donate"); w.contribute(150, false, true); break;
    case 5: vx::op("free newest"); if (!w.held.empty()) w.put(w.held.size() - 1); break;
    case 6: vx::op("free oldest"); if (!w.held.empty()) w.put(0); break;
    case 7: vx::op("free every other"); for (size_t k = 0; k < w.held.size(); ++k) w.put(k); break;
    case 8: vx::op("release 1"); w.release(1, false, false); break;
    case 9: vx::op("release 110, partly released first"); w.release(110, true, false); break;
    case 10: vx::op("release everything, limit hit"); w.release(1 << 20, true, true); break;
    case 11: vx::op("255 dense pages"); for (int i = 0; i < 255; ++i) w.alloc(1, true); break;
  }
  pageheap_lock.unlock();
}

static void basic() {
  g_clock = 1000000;
  World w(false);
  int depth = vx::thorough() ? 6 : kDepth;
  w.fails_left = choose(2);
  if (w.fails_left) --depth;
  for (int i = 0; i < depth; ++i) {
    step(w, choose(12));
    w.check();
    vx::step(1);
    g_clock += 10;
  }
  w.fails_left = 0;
  pageheap_lock.lock();
  while (!w.held.empty()) w.put(w.held.size() / 2);
  pageheap_lock.unlock();
  w.check();
}

// Another thread acts while the page heap lock is dropped.
static void emptied() {
  g_clock = 1000000;
  World w(choose(2));
  w.nest_left = 2, w.fails_left = 1;
  step(w, choose(2)), step(w, choose(4)), step(w, 8 + choose(2)), step(w, choose(4) ? 0 : 4);
  w.check();
  for (int i = 0; i < 3; ++i) {
    step(w, 5 + choose(4));
    w.check();
    vx::step(1);
  }
}

static void treatment() {
  g_clock = 1000000;
  World w(choose(2));
  w.sampled = choose(2);
  w.nest_left = 1;
  // the past: one or two huge pages, fresh, donated, partly released, full
  static const int pasts[][4] = {{0, -1, -1, -1}, {4, -1, -1, -1}, {3, 1, -1, -1}, {1, 8, 0, -1}, {2, 0, 8, -1}, {4, 1, 8, -1}, {1, 3, 10, 5}};
  auto& p = pasts[choose(7)];
  for (int c : p) if (c >= 0) step(w, c);
  w.check();
  if (choose(2)) w.fails_left = 1;
  auto ec = choose(2) ? EnableCollapse::kEnabled : EnableCollapse::kDisabled;
  auto rs = choose(2) ? ReleaseStalePages::kEnabled : ReleaseStalePages::kDisabled;
  auto eu = ec == EnableCollapse::kEnabled && choose(2) ? EnableUnfilteredCollapse::kEnabled : EnableUnfilteredCollapse::kDisabled;
  g_clock += 400 * 1000;
  w.stale_on = rs == ReleaseStalePages::kEnabled;
  w.treat(ec, eu, rs);
  w.check();
  vx::step(1);
  int c = choose(vx::thorough() ? 4 : 2);
  static const int after[] = {5, 10, 0, 7};
  step(w, after[c]);
  w.check();
  if (vx::thorough()) {
    g_clock += choose(2) * 400 * 1000;
    w.nest_left = 0;
    w.treat(ec, eu, rs);
    w.check();
  }
  w.fails_left = w.nest_left = 0;
  pageheap_lock.lock();
  w.release(1 << 20, false, false);
  while (!w.held.empty()) w.put(0);
  pageheap_lock.unlock();
  w.check();
}

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"basic", basic, 256}, {"emptied", emptied, 256}, {"treatment", treatment, 256}};
  return vx::explore_main(argc, argv, sc, 3);
}

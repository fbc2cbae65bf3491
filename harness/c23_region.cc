// C23: huge regions hand out disjoint runs and track backing exactly.
#include <algorithm>
#include <memory>
#include <set>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/huge_region.h"
#include "tcmalloc/stats.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

constexpr size_t HP = kPagesPerHugePage.raw_num();
constexpr size_t NH = HugeRegion::kNumHugePages;
constexpr size_t TOTAL = NH * HP;
struct Run { size_t at, n; };
#ifdef NDEBUG
constexpr int kDepth = 3;
#else
constexpr int kDepth = 4;
#endif

// What history implies about one region: page numbers relative to its start.
struct RegionModel {
  size_t base;  // first huge page
  std::vector<char> backed = std::vector<char>(NH, 0), in_flight = std::vector<char>(NH, 0);
  std::vector<Run> live;  // oldest first
  explicit RegionModel(size_t b) : base(b) {}
  size_t used_in(size_t h) const {
    size_t u = 0;
    for (auto& r : live) {
      size_t a = std::max(r.at, h * HP), e = std::min(r.at + r.n, (h + 1) * HP);
      if (a < e) u += e - a;
    }
    return u;
  }
  std::vector<Run> sorted() const {
    auto v = live;
    for (size_t h = 0; h < NH; ++h) if (in_flight[h]) v.push_back({h * HP, HP});
    std::sort(v.begin(), v.end(), [](Run a, Run b) { return a.at < b.at; });
    return v;
  }
  std::vector<Run> gaps() const {
    std::vector<Run> g;
    size_t at = 0;
    for (auto& r : sorted()) {
      VX_CHECK(r.at >= at && r.at + r.n <= TOTAL, "pages %zu+%zu overlap another run or leave the region", r.at, r.n);
      if (r.at > at) g.push_back({at, r.at - at});
      at = r.at + r.n;
    }
    if (at < TOTAL) g.push_back({at, TOTAL - at});
    return g;
  }
  size_t longest() const {
    size_t m = 0;
    for (auto& g : gaps()) m = std::max(m, g.n);
    return m;
  }
  // A run was handed out; was any of its huge pages unbacked?
  bool take(size_t at, size_t n) {
    for (size_t h = at / HP; h <= (at + n - 1) / HP; ++h) VX_CHECK(h < NH && !in_flight[h], "pages %zu+%zu handed out while being released", at, n);
    live.push_back({at, n});
    gaps();
    bool rel = false;
    for (size_t h = at / HP; h <= (at + n - 1) / HP; ++h) rel |= !backed[h], backed[h] = 1;
    return rel;
  }
  size_t free_backed() const {
    size_t k = 0;
    std::vector<char> u(NH, 0);
    for (auto& r : live) for (size_t h = r.at / HP; h <= (r.at + r.n - 1) / HP; ++h) u[h] = 1;
    for (size_t h = 0; h < NH; ++h) k += backed[h] && !u[h] && !in_flight[h];
    return k;
  }
  template <class R>
  void check(const R& r) const {
    size_t used = 0, nb = 0;
    for (auto& l : live) used += l.n;
    for (char b : backed) nb += b;
    VX_CHECK(r.used_pages().raw_num() == used, "%zu pages used, history implies %zu", r.used_pages().raw_num(), used);
    VX_CHECK(r.unmapped_pages().raw_num() == (NH - nb) * HP, "%zu pages unmapped, history implies %zu", r.unmapped_pages().raw_num(), (NH - nb) * HP);
    VX_CHECK(r.free_pages().raw_num() == nb * HP - used, "%zu pages free, history implies %zu", r.free_pages().raw_num(), nb * HP - used);
    VX_CHECK(r.backed().raw_num() == nb, "%zu huge pages backed, history implies %zu", r.backed().raw_num(), nb);
    VX_CHECK(r.free_backed().raw_num() == free_backed(), "%zu huge pages free and backed, history implies %zu", r.free_backed().raw_num(), free_backed());
    auto st = r.stats();
    VX_CHECK(st.system_bytes == NH * kHugePageSize && st.free_bytes == (nb * HP - used) * kPageSize && st.unmapped_bytes == (NH - nb) * kHugePageSize, "published bytes");
    SmallSpanStats s{}, ws{};
    LargeSpanStats l{}, wl{};
    r.AddSpanStats(&s, &l);
    for (auto& g : gaps())
      for (size_t at = g.at; at < g.at + g.n;) {
        size_t h = at / HP, e = h;
        while (e < NH && backed[e] == backed[h] && e * HP < g.at + g.n) ++e;
        size_t n = std::min(e * HP, g.at + g.n) - at;
        bool rel = !backed[h];
        if (n < kMaxPages.raw_num()) ++(rel ? ws.returned_length[n] : ws.normal_length[n]);
        else ++wl.spans, (rel ? wl.returned_pages : wl.normal_pages) += Length(n);
        at += n;
      }
    VX_CHECK(wl.spans == l.spans && wl.returned_pages == l.returned_pages && wl.normal_pages == l.normal_pages, "large free spans: %zu (%zu backed, %zu released pages), history implies %zu (%zu, %zu)", l.spans, l.normal_pages.raw_num(), l.returned_pages.raw_num(), wl.spans, wl.normal_pages.raw_num(), wl.returned_pages.raw_num());
    for (size_t i = 0; i < kMaxPages.raw_num(); ++i)
      VX_CHECK(s.normal_length[i] == ws.normal_length[i] && s.returned_length[i] == ws.returned_length[i], "free spans of %zu pages: %zd backed, %zd released, history implies %zd, %zd", i, ssize_t(s.normal_length[i]), ssize_t(s.returned_length[i]), ssize_t(ws.normal_length[i]), ssize_t(ws.returned_length[i]));
    // page status: of every huge page in use, the first few and the last
    std::set<size_t> look = {0, 1, 2, 3, NH - 1};
    for (auto& x : live) look.insert({x.at / HP, (x.at + x.n - 1) / HP});
    for (size_t h : look) {
      PageBitmap b;
      VX_CHECK(r.GetPageAllocationStatus(HugePageContaining(PageId((base + h) * HP)), b), "the region disowns its huge page %zu", h);
      size_t want = used_in(h);
      VX_CHECK(b.CountBits() == want, "huge page %zu: %zu pages reported allocated, history implies %zu", h, b.CountBits(), want);
      for (auto& x : live)
        for (size_t p : {x.at, x.at + x.n - 1}) if (p / HP == h) VX_CHECK(b.GetBit(p % HP), "page %zu is reported free", p);
    }
    PageBitmap b;
    VX_CHECK(!r.GetPageAllocationStatus(HugePageContaining(PageId((base - 1) * HP)), b) && !r.GetPageAllocationStatus(HugePageContaining(PageId((base + NH) * HP)), b), "the region claims its neighbour");
    VX_CHECK(!r.contains(PageId(base * HP - 1)) && r.contains(PageId(base * HP)) && r.contains(PageId((base + NH) * HP - 1)) && !r.contains(PageId((base + NH) * HP)), "contains");
  }
};

struct Sys : MemoryModifyFunction {
  std::vector<RegionModel*> regions;
  bool fail = false;
  size_t done = 0, failed = 0;
  MemoryModifyStatus operator()(Range r) override {
    size_t h0 = r.p.index() / HP, n = r.n.raw_num() / HP;
    VX_CHECK(r.p.index() % HP == 0 && r.n.raw_num() % HP == 0 && n, "asked to release part of a huge page");
    RegionModel* m = nullptr;
    for (auto* x : regions) if (h0 >= x->base && h0 + n <= x->base + NH) m = x;
    VX_CHECK(m, "asked to release memory outside the region");
    for (size_t h = h0 - m->base; h < h0 - m->base + n; ++h) {
      VX_CHECK(m->used_in(h) == 0, "asked to release huge page %zu, which has %zu live pages", h, m->used_in(h));
      VX_CHECK(m->backed[h], "asked to release huge page %zu, which is not backed", h);
      VX_CHECK(!m->in_flight[h], "huge page %zu released twice at once", h);
      m->in_flight[h] = 1;
    }
    bool f = fail;
    for (size_t h = h0 - m->base; h < h0 - m->base + n; ++h) {
      m->in_flight[h] = 0;
      if (!f) m->backed[h] = 0;
    }
    if (f) {
      ++failed;
      return {false, EAGAIN};
    }
    done += n;
    return {true, 0};
  }
};
struct Tag : MemoryTagFunction {
  size_t n = 0;
  void operator()(Range r, std::optional<absl::string_view> name) override { ++n; }
};

static Sys* g_sys;
static RegionModel* g_m;
static HugeRegion* g_r;
static const size_t kGets[] = {1, HP / 2, HP - 1, HP, HP + 1, 2 * HP + HP / 2, 300 * HP};

static void get(size_t n) {
  bool rel = false, had = g_m->longest() >= n;
  PageId p;
  bool ok = g_r->MaybeGet(Length(n), &p, &rel);
  VX_CHECK(ok == had, "%zu pages: %s, the longest free run has %zu", n, ok ? "granted" : "refused", g_m->longest());
  if (!ok) return;
  VX_CHECK(p.index() >= g_m->base * HP, "run before the region");
  bool was = g_m->take(p.index() - g_m->base * HP, n);
  VX_CHECK(was == rel, "%zu pages at %zu: reported as %s, but %s of its huge pages was released", n, p.index() - g_m->base * HP, rel ? "released" : "backed", was ? "one" : "none");
}
static void put(size_t k, bool release) {
  Run x = g_m->live[k];
  g_m->live.erase(g_m->live.begin() + k);
  g_r->Put(Range(PageId(g_m->base * HP + x.at), Length(x.n)), release);
}

static void region() {
  size_t base = choose(2) ? 1000 : NH;
  size_t past = choose(3);
  Sys sys;
  Tag tag;
  RegionModel m(base);
  g_sys = &sys, g_m = &m;
  sys.regions = {&m};
  alignas(HugeRegion) static char mem[sizeof(HugeRegion)];
  g_r = new (mem) HugeRegion(HugeRange::Make(HugePageContaining(PageId(base * HP)), NHugePages(NH)), sys, tag);
  m.check(*g_r);
  if (past >= 1) {  // a mix of small and large runs; then with holes
    for (size_t n : {HP / 2, HP, HP / 3, 2 * HP + 5, size_t(1), HP, 3 * HP}) get(n);
    if (past == 2) put(1, false), put(2, false), put(3, true);
  }
  m.check(*g_r);
  vx::op("past %zu", past);
  int depth = vx::thorough() ? 6 : kDepth;
  for (int d = 0; d < depth; ++d) {
    size_t c = choose(18);
    vx::op("%zu", c);
    if (c < 7) get(kGets[c]);
    else if (c < 13) {
      if (m.live.empty()) return;
      size_t k = (c - 7) / 2;
      put(k == 0 ? 0 : k == 1 ? m.live.size() - 1 : m.live.size() / 2, c % 2);
    } else if (c < 17) {
      static const size_t want[] = {1, 2 * HP, 1 << 20};
      size_t n = c == 16 ? HP + 1 : want[c - 13];
      size_t had = m.free_backed(), f = sys.failed, before = sys.done;
      size_t got = g_r->Release(Length(n), c == 16 || d % 2).raw_num();
      VX_CHECK(got == sys.done - before, "%zu huge pages reported released, the system was given %zu", got, sys.done - before);
      size_t enough = std::min(had, (n + HP - 1) / HP);
      VX_CHECK(sys.failed != f || got == enough, "asked to release %zu pages with %zu huge pages free: released %zu huge pages", n, had, got);
    } else {
      sys.fail = !sys.fail;
      vx::op("releasing %s", sys.fail ? "fails" : "works");
    }
    m.check(*g_r);
    vx::step(1);
  }
  sys.fail = false;
  while (!m.live.empty()) put(m.live.size() / 2, m.live.size() % 2);
  g_r->Release(Length(1 << 20), false);
  m.check(*g_r);
  VX_CHECK(m.longest() == TOTAL && g_r->unmapped_pages().raw_num() == TOTAL, "not everything came back");
}

using Set = HugeRegionSet<HugeRegion>;
static Set* g_set;
static RegionModel* g_ms[3];
static HugeRegion* g_rs[3];
static size_t g_n;
struct Held { int region; Run r; };
static std::vector<Held> g_held;
static void sget(size_t n) {
  bool rel = false, had = false;
  for (size_t i = 0; i < g_n; ++i) had |= g_ms[i]->longest() >= n;
  PageId p;
  bool ok = g_set->MaybeGet(Length(n), &p, &rel);
  VX_CHECK(ok == had, "%zu pages: %s by the set", n, ok ? "granted" : "refused");
  if (!ok) return;
  for (size_t i = 0; i < g_n; ++i)
    if (p.index() / HP >= g_ms[i]->base && p.index() / HP < g_ms[i]->base + NH) {
      bool was = g_ms[i]->take(p.index() - g_ms[i]->base * HP, n);
      VX_CHECK(was == rel, "%zu pages reported as %s", n, rel ? "released" : "backed");
      g_held.push_back({int(i), g_ms[i]->live.back()});
      return;
    }
  vx::fail("the set handed out pages of no region");
}
static void sput(size_t k) {
  Held h = g_held[k];
  g_held.erase(g_held.begin() + k);
  auto& l = g_ms[h.region]->live;
  for (size_t i = 0; i < l.size(); ++i) if (l[i].at == h.r.at) { l.erase(l.begin() + i); break; }
  VX_CHECK(g_set->MaybePut(Range(PageId(g_ms[h.region]->base * HP + h.r.at), Length(h.r.n))), "the set disowns a run it handed out");
}
static void region_set() {
  bool more = choose(2);
  Sys sys;
  Tag tag;
  Set set(more ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault);
  g_set = &set;
  g_held.clear();
  g_n = 0;
  alignas(HugeRegion) static char mem[3][sizeof(HugeRegion)];
  std::unique_ptr<RegionModel> ms[3];
  auto add = [&] {
    ms[g_n].reset(new RegionModel(g_n == 0 ? 3000 : g_n == 1 ? 600 : 4000));
    g_ms[g_n] = ms[g_n].get();
    sys.regions.push_back(g_ms[g_n]);
    g_rs[g_n] = new (mem[g_n]) HugeRegion(HugeRange::Make(HugePageContaining(PageId(g_ms[g_n]->base * HP)), NHugePages(NH)), sys, tag);
    set.Contribute(g_rs[g_n]);
    ++g_n;
  };
  size_t low = 0;  // fewest huge pages free and backed since the last release
  auto check = [&] {
    BackingStats want{};
    size_t fb = 0;
    SmallSpanStats s{};
    LargeSpanStats l{}, wl{};
    for (size_t i = 0; i < g_n; ++i) {
      g_ms[i]->check(*g_rs[i]);
      fb += g_ms[i]->free_backed();
      want += g_rs[i]->stats();
      SmallSpanStats t{};
      g_rs[i]->AddSpanStats(&t, &wl);
      PageBitmap b;
      VX_CHECK(set.GetPageAllocationStatus(HugePageContaining(PageId((g_ms[i]->base + 1) * HP)), b) && b.CountBits() == g_ms[i]->used_in(1), "page status through the set");
    }
    PageBitmap b;
    VX_CHECK(!set.GetPageAllocationStatus(HugePageContaining(PageId(10 * HP)), b), "the set claims foreign memory");
    VX_CHECK(!set.MaybePut(Range(PageId(10 * HP), Length(1))), "the set takes foreign memory");
    VX_CHECK(set.free_backed().raw_num() == fb, "the set counts %zu huge pages free and backed, its regions have %zu", set.free_backed().raw_num(), fb);
    auto st = set.stats();
    VX_CHECK(st.system_bytes == want.system_bytes && st.free_bytes == want.free_bytes && st.unmapped_bytes == want.unmapped_bytes, "the set's published bytes");
    set.AddSpanStats(&s, &l);
    VX_CHECK(l.spans == wl.spans && l.normal_pages == wl.normal_pages && l.returned_pages == wl.returned_pages, "the set's free spans");
    low = std::min(low, fb);
    VX_CHECK(set.ActiveRegions() == g_n, "%zu regions", set.ActiveRegions());
  };
  add();
  size_t more_regions = choose(3);
  if (more_regions) {
    add();
    for (size_t n : {HP / 2, 2 * HP + 7, 500 * HP, 100 * HP, HP, HP}) sget(n);
    if (more_regions == 2) add(), sget(400 * HP), sget(400 * HP);
  }
  check();
  int depth = vx::thorough() ? 5 : kDepth;
  for (int d = 0; d < depth; ++d) {
    size_t c = choose(14);
    vx::op("%zu", c);
    if (c < 5) sget(c == 0 ? 1 : c == 1 ? HP : c == 2 ? HP + 1 : c == 3 ? 300 * HP : 2 * HP);
    else if (c < 8) {
      if (g_held.empty()) return;
      sput(c == 5 ? 0 : c == 6 ? g_held.size() - 1 : g_held.size() / 2);
    } else if (c < 12) {
      size_t n = c == 8 ? 1 : c == 9 ? 2 * HP : c == 10 ? 1 << 20 : 3 * HP;
      bool adaptive = c == 9 || c == 11, hit = c != 11;
      size_t had = set.free_backed().raw_num(), before = sys.done, f = sys.failed;
      size_t got = set.ReleasePages(Length(n), adaptive, hit).raw_num();
      {
        VX_CHECK(got == (sys.done - before) * HP, "%zu pages reported released, the system was given %zu huge pages", got, sys.done - before);
        if (hit) VX_CHECK(sys.failed != f || got / HP == std::min(had, (n + HP - 1) / HP), "asked to release %zu pages with %zu huge pages free: released %zu pages", n, had, got);
        else VX_CHECK(sys.failed != f || got / HP == low, "released %zu pages, the fewest huge pages free since the last time were %zu", got, low);
        low = set.free_backed().raw_num();
      }
    } else if (c == 12) {
      sys.fail = !sys.fail;
    } else {
      if (g_n == 3) return;
      add();
    }
    check();
    vx::step(1);
  }
  sys.fail = false;
  while (!g_held.empty()) sput(g_held.size() / 2);
  check();
  set.ReleasePages(Length(1 << 24), false, true);
  check();
  for (size_t i = 0; i < g_n; ++i) VX_CHECK(g_rs[i]->unmapped_pages().raw_num() == TOTAL, "not everything was released");
}

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"region", region, 64}, {"set", region_set, 64}};
  return vx::explore_main(argc, argv, sc, 2);
}

// C34: sliding-window statistics report the true window extremes.
#include <algorithm>
#include <deque>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_page_subrelease.h"
#include "tcmalloc/internal/timeseries_tracker.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

static int64_t g_now;
static double g_freq;
static Clock clk() { return Clock{.now = [] { return g_now; }, .freq = [] { return g_freq; }}; }

// What a tracker with `slots` slots may still know: one record for every epoch
// in which it was told something, the last `slots` of them.
template <class V>
struct History {
  struct Rec { int64_t epoch, delta; std::vector<V> vals; };
  size_t slots;
  int64_t ticks;
  std::deque<Rec> recs;
  History(size_t s, int64_t t) : slots(s), ticks(t) { restart(); }
  void restart() { recs.assign(1, Rec{g_now / ticks, 1, {}}); }
  bool touch() {
    int64_t e = g_now / ticks;
    if (e < recs.back().epoch) { restart(); return false; }
    if (e == recs.back().epoch) return false;
    recs.push_back({e, e - recs.back().epoch, {}});
    if (recs.size() > slots) recs.pop_front();
    return true;
  }
  bool report(V v) { bool r = touch(); recs.back().vals.push_back(v); return r; }
  // The records of the last n epochs up to the latest, newest first.
  std::vector<const Rec*> last(int64_t n) const {
    std::vector<const Rec*> r;
    for (auto it = recs.rbegin(); it != recs.rend(); ++it) if (recs.back().epoch - it->epoch < n) r.push_back(&*it);
    return r;
  }
};
static int64_t epochs(double t, double len) { return t < 0 ? int64_t{1} << 60 : int64_t(ceil(t / len - 1e-9)); }

// --- the generic tracker -------------------------------------------------
struct Bag {
  int n = 0, sum = 0;
  static Bag Nil() { return {}; }
  void Report(int v) { ++n, sum += v; }
  bool empty() const { return n == 0; }
};

template <size_t N>
static void generic() {
  g_freq = 1000;
  constexpr int64_t L = 10;
  int64_t start = choose(2) ? 0 : (int64_t{1} << 62);
  g_now = start + choose(2) * 9;
  TimeSeriesTracker<Bag, int, N> t(clk(), absl::Milliseconds(L));
  History<int> h(N, L);
  int depth = vx::thorough() ? 8 : 6;
  auto same = [](const Bag& b, const typename History<int>::Rec& r) {
    int s = 0;
    for (int v : r.vals) s += v;
    return b.n == int(r.vals.size()) && b.sum == s;
  };
  auto check = [&] {
    for (int64_t q : {1, 9, 10, 11, 19, 20, 21, 30, 31, 50, 1000, -1}) {
      auto want = h.last(q < 0 ? int64_t{1} << 60 : (q + L - 1) / L);
      size_t i = 0;
      t.IterBackwards([&](size_t seq, size_t delta, const Bag& b) {
        VX_CHECK(i < want.size(), "a window of %lld ms: more than the %zu records it covers", (long long)q, want.size());
        VX_CHECK(seq == i && int64_t(delta) == want[i]->delta && same(b, *want[i]), "a window of %lld ms: record %zu covers %zu epochs with %d values, history implies %lld and %zu", (long long)q, i, delta, b.n, (long long)want[i]->delta, want[i]->vals.size());
        ++i;
      }, q < 0 ? absl::InfiniteDuration() : absl::Milliseconds(q));
      VX_CHECK(i == want.size(), "a window of %lld ms: %zu records of %zu", (long long)q, i, want.size());
    }
    t.IterBackwards([&](size_t, size_t, const Bag&) { VX_CHECK(false, "an empty window has a record"); }, absl::ZeroDuration());
    size_t i = 0, k = h.recs.size();
    int64_t lastseq = -1;
    t.Iter([&](size_t seq, size_t delta, const Bag& b) {
      while (i < k && h.recs[i].vals.empty()) ++i;
      VX_CHECK(i < k && same(b, h.recs[i]) && int64_t(delta) == h.recs[i].delta && seq == N - k + i && int64_t(seq) > lastseq, "record %zu of the whole series", seq);
      lastseq = seq;
      ++i;
    });
    while (i < k && h.recs[i].vals.empty()) ++i;
    VX_CHECK(i == k, "the series lost a record");
    auto m = t.GetMostRecentRecord();
    VX_CHECK(int64_t(m.epoch_taken) == h.recs.back().delta, "the previous record was taken %zu epochs ago, history implies %lld", m.epoch_taken, (long long)h.recs.back().delta);
    if (k > 1) VX_CHECK(same(m.data, h.recs[k - 2]), "the previous record");
    else if (N > 1) VX_CHECK(m.data.empty(), "a record out of nowhere");
  };
  check();
  for (int i = 0; i < depth; ++i) {
    static const int64_t dt[] = {0, 1, 9, 10, 11, 25, 200, -15};
    int c = choose(9);
    if (c == 8) {
      vx::op("update time base");
      t.UpdateTimeBase();
      h.touch();
    } else {
      g_now = std::max<int64_t>(0, g_now + dt[c]);
      vx::op("%+lld ms, report", (long long)dt[c]);
      bool got = t.Report(1 << i), want = h.report(1 << i);
      VX_CHECK(got == want, "a new epoch is %s", got ? "announced without reason" : "not announced");
    }
    check();
    vx::step(1);
  }
}

// --- epoch borders for arbitrary clocks ------------------------------------
static void borders() {
  static const double freqs[] = {1, 3, 1000, 1e6, 2.4e9, 3.7e9, 1e9 + 7};
  static const double lens[] = {1e-3, 1, 7, 60, 600, 1.0 / 3};
  g_freq = freqs[choose(7)];
  double len = lens[choose(6)];
  auto d = absl::Seconds(1) * len;
  int64_t ticks = int64_t(absl::ToDoubleSeconds(d) * g_freq);
  if (ticks < 1) return;
  std::vector<int64_t> ks = {0, 1, 2, 3, 5, 1000, 12345678};
  int64_t most = INT64_MAX / ticks;
  for (int64_t k : {most / 3, most / 2, most - 2, most - 1, most}) ks.push_back(k);
  for (int b = 8; b < 63; b += 3) if ((int64_t{1} << b) <= most) ks.push_back(int64_t{1} << b);
  for (int64_t k : ks) {
    if (k < 1 || k > most) continue;
    for (int64_t a : {int64_t{1}, ticks}) {
      // from a-before to the border, then within the epoch
      if (k * ticks < a) continue;
      g_now = k * ticks - a;
      TimeSeriesTracker<Bag, int, 4> t(clk(), d);
      VX_CHECK(!t.Report(1), "epoch changes while the clock stands");
      g_now = k * ticks - 1;
      VX_CHECK(!t.Report(1), "epoch %lld of %lld ticks ends early", (long long)k - 1, (long long)ticks);
      g_now = k * ticks;
      VX_CHECK(t.Report(1), "epoch %lld of %lld ticks starts late", (long long)k, (long long)ticks);
      if (g_now > INT64_MAX - ticks) continue;
      g_now += ticks - 1;
      VX_CHECK(!t.Report(1), "epoch %lld of %lld ticks ends early", (long long)k, (long long)ticks);
      vx::step(4);
    }
  }
}

// --- extremes ---------------------------------------------------------------
static void minmax() {
  g_freq = 1000;
  constexpr int64_t L = 10;
  g_now = 1000000 + choose(2) * 9;
  MinMaxTracker<> t(clk(), absl::Milliseconds(16 * L));
  History<size_t> h(16, L);
  auto rep = [&](size_t v) { t.Report(NHugePages(v)); h.report(v); };
  auto check = [&] {
    for (int64_t q : {1, 10, 11, 20, 30, 60, 150, 155, 160, 161, 400, -1}) {
      size_t mx = 0, mn = SIZE_MAX;
      for (auto* r : h.last(q < 0 ? int64_t{1} << 60 : (q + L - 1) / L)) for (size_t v : r->vals) mx = std::max(mx, v), mn = std::min(mn, v);
      if (mn == SIZE_MAX) mn = 0;
      auto d = q < 0 ? absl::InfiniteDuration() : absl::Milliseconds(q);
      VX_CHECK(t.MaxOverTime(d).raw_num() == mx, "maximum over %lld ms is %zu, history implies %zu", (long long)q, t.MaxOverTime(d).raw_num(), mx);
      VX_CHECK(t.MinOverTime(d).raw_num() == mn, "minimum over %lld ms is %zu, history implies %zu", (long long)q, t.MinOverTime(d).raw_num(), mn);
    }
  };
  check();
  // a past of several epochs, falling and rising
  int past = choose(5);
  static const int lens[] = {0, 3, 14, 15, 33};
  for (int i = 0; i < lens[past]; ++i) g_now += L, rep(50 + (i * 7) % 31), check();
  int depth = vx::thorough() ? 5 : 3;
  static const int64_t dt[] = {0, 1, 10, 50, 150, 170};
  static const size_t vals[] = {40, 200, 0, 60};
  for (int i = 0; i < depth; ++i) {
    int a = choose(6), b = choose(4);
    g_now += dt[a];
    vx::op("+%lld ms, report %zu", (long long)dt[a], vals[b]);
    rep(vals[b]);
    check();
    vx::step(1);
  }
}

// --- demand and skipped releases --------------------------------------------
struct St { size_t pages, free, unmapped, sub; };
template <size_t N>
static void demand() {
  g_freq = 1000;
  constexpr int64_t L = 60;
  constexpr int64_t kSummary = 4 * L, kCap = 3 * L;
  g_now = 600000;
  using Tr = SubreleaseStatsTracker<N>;
  Tr t(clk(), absl::Milliseconds(N * L), absl::Milliseconds(kSummary), absl::Milliseconds(kCap));
  History<St> h(N, L);
  // decisions not to release, grouped by the epoch they were made in
  struct Skip { int64_t epoch; size_t pages = 0, count = 0, peak = 0; bool confirmed = false; };
  std::deque<Skip> skips;
  std::vector<int64_t> told{g_now / L};  // epochs the record of decisions knows
  size_t tot_p = 0, tot_c = 0, ok_p = 0, ok_c = 0, pend_p = 0, pend_c = 0;
  auto keep = [&](int64_t e) {
    if (told.back() != e) told.push_back(e);
    if (told.size() > N) told.erase(told.begin());
    while (!skips.empty() && skips.front().epoch < told.front()) skips.pop_front();
  };
  auto report = [&](St s) {
    bool moved = h.report(s);
    int64_t now = g_now / L;
    if (moved && pend_c > 0) {
      size_t peak = s.pages;
      auto& prev = h.recs[h.recs.size() - 2];
      if (h.recs.back().delta <= kSummary / L) for (auto& v : prev.vals) peak = std::max(peak, v.pages);
      keep(now);
      pend_p = pend_c = 0;
      for (auto& k : skips) {
        if (k.epoch == now || now - k.epoch >= kSummary / L + 1 || k.confirmed) continue;
        if (k.peak <= peak) k.confirmed = true, ok_p += k.pages, ok_c += k.count;
        else pend_p += k.pages, pend_c += k.count;
      }
    }
    typename Tr::SubreleaseStats r;
    r.num_pages = Length(s.pages), r.free_pages = Length(s.free), r.unmapped_pages = Length(s.unmapped), r.num_pages_subreleased = Length(s.sub);
    t.Report(r);
  };
  auto skip = [&](size_t p, size_t peak) {
    t.ReportSkippedSubreleasePages(Length(p), Length(peak));
    if (p == 0) return;
    int64_t now = g_now / L;
    keep(now);
    if (skips.empty() || skips.back().epoch != now) skips.push_back({now});
    skips.back().pages += p, ++skips.back().count, skips.back().peak = std::max(skips.back().peak, peak);
    tot_p += p, ++tot_c, pend_p += p, ++pend_c;
  };
  auto maxof = [&](int64_t q, auto f) {
    size_t m = 0;
    for (auto* r : h.last(q < 0 ? int64_t{1} << 60 : (q + L - 1) / L)) {
      if (r->vals.empty()) continue;
      size_t lo = SIZE_MAX, hi = 0;
      for (auto& v : r->vals) lo = std::min(lo, v.pages), hi = std::max(hi, v.pages);
      m = std::max(m, f(lo, hi));
    }
    return m;
  };
  constexpr int64_t W = N * L;
  auto check = [&] {
    for (int64_t q : {int64_t{1}, L, L + 1, 2 * L, 3 * L, W, W + 500}) {
      size_t want = maxof(std::min(q, W), [](size_t, size_t hi) { return hi; });
      VX_CHECK(t.GetRecentPeak(absl::Milliseconds(q)).raw_num() == want, "peak demand over %lld ms is %zu, history implies %zu", (long long)q, t.GetRecentPeak(absl::Milliseconds(q)).raw_num(), want);
      size_t mf = SIZE_MAX, mb = SIZE_MAX;
      for (auto* r : h.last((q + L - 1) / L)) for (auto& v : r->vals) mf = std::min(mf, v.free + v.unmapped), mb = std::min(mb, v.free);
      if (mf == SIZE_MAX) mf = mb = 0;
      auto g = t.min_free_pages(absl::Milliseconds(q));
      VX_CHECK(g.free.raw_num() == mf && g.free_backed.raw_num() == mb, "fewest free pages over %lld ms: %zu, backed %zu; history implies %zu, %zu", (long long)q, g.free.raw_num(), g.free_backed.raw_num(), mf, mb);
      for (int64_t sh : {int64_t{0}, L, 2 * L, W + 500}) {
        int64_t s1 = q ? std::min(sh ? std::min(sh, q) : sh, W) : sh, l1 = std::min(q, W);
        size_t fl = s1 == 0 ? 0 : maxof(s1, [](size_t lo, size_t hi) { return hi - lo; });
        size_t tr = maxof(l1, [](size_t lo, size_t) { return lo; });
        size_t cap = maxof(kCap, [](size_t, size_t hi) { return hi; });
        VX_CHECK(t.GetRecentDemand(absl::Milliseconds(sh), absl::Milliseconds(q)).raw_num() == std::min(cap, fl + tr), "demand with intervals %lld, %lld ms is %zu, history implies %zu", (long long)sh, (long long)q, t.GetRecentDemand(absl::Milliseconds(sh), absl::Milliseconds(q)).raw_num(), std::min(cap, fl + tr));
      }
    }
    size_t mb = SIZE_MAX;
    for (auto* r : h.last(kSummary / L)) for (auto& v : r->vals) mb = std::min(mb, v.free);
    VX_CHECK(t.RealizedFragmentation().raw_num() == (mb == SIZE_MAX ? 0 : mb), "realized fragmentation");
    auto a = t.total_skipped(), b = t.correctly_skipped(), c = t.pending_skipped();
    VX_CHECK(a.pages.raw_num() == tot_p && a.count == tot_c, "%zu releases skipped, %zu were reported", a.count, tot_c);
    VX_CHECK(b.pages.raw_num() == ok_p && b.count == ok_c, "%zu skipped releases (%zu pages) confirmed, history implies %zu (%zu)", b.count, b.pages.raw_num(), ok_c, ok_p);
    VX_CHECK(c.pages.raw_num() == pend_p && c.count == pend_c, "%zu skipped releases (%zu pages) pending, history implies %zu (%zu)", c.count, c.pages.raw_num(), pend_c, pend_p);
  };
  check();
  int past = choose(3);
  static const int lens[] = {0, 5, 17};
  for (int i = 0; i < lens[past]; ++i) g_now += L, report({100 + size_t(i * 5) % 17, 30, 20, 0});
  check();
  int depth = vx::thorough() ? 6 : 5;
  static const int64_t dt[] = {0, L, 4 * L, 5 * L};
  for (int i = 0; i < depth; ++i) {
    int c = choose(10);
    if (c < 8) {
      static const St vals[] = {{90, 40, 5, 1}, {120, 10, 15, 0}};
      g_now += dt[c / 2];
      vx::op("+%lld ms, %zu pages used", (long long)dt[c / 2], vals[c % 2].pages);
      report(vals[c % 2]);
    } else {
      vx::op("skip a release at a peak of %d", c == 8 ? 95 : 118);
      // as the callers do: the demand is brought up to date first
      report({c == 8 ? size_t{91} : size_t{90}, 25, 3, 0});
      skip(c == 8 ? 7 : 11, c == 8 ? 95 : 118);
    }
    check();
    vx::step(1);
  }
}

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"series1", generic<1>, 256}, {"series2", generic<2>, 256}, {"series3", generic<3>, 256}, {"borders", borders, 8}, {"minmax", minmax, 256}, {"demand4", demand<4>, 256}, {"demand16", demand<16>, 256}};
  return vx::explore_main(argc, argv, sc, 7);
}

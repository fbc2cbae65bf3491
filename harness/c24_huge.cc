// C24: ranges of huge pages in the address map, the huge allocator and the
// huge cache equal the set the history implies.
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/huge_address_map.h"
#include "tcmalloc/huge_allocator.h"
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/stats.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

struct Meta : MetadataAllocator {
  size_t used = 0;
  std::vector<void*> all;
  void* operator()(size_t bytes) override {
    used += bytes;
    void* p = malloc(bytes);
    memset(p, 0xee, bytes);
    all.push_back(p);
    return p;
  }
  ~Meta() { for (void* p : all) free(p); }
};
using Set = std::set<size_t>;  // huge page numbers
static std::vector<std::pair<size_t, size_t>> runs(const Set& s) {
  std::vector<std::pair<size_t, size_t>> v;
  for (size_t p : s)
    if (!v.empty() && v.back().first + v.back().second == p) ++v.back().second;
    else v.push_back({p, 1});
  return v;
}
static size_t num(HugePage p) { return reinterpret_cast<uintptr_t>(p.start_addr()) >> kHugePageShift; }
static HugePage page(size_t n) { return HugePageContaining(reinterpret_cast<void*>(n << kHugePageShift)); }
static HugeRange range(size_t at, size_t n) { return HugeRange::Make(page(at), NHugePages(n)); }

// The subtree holds exactly pages in (lo, hi), in order, with a true longest.
static size_t subtree(HugeAddressMap::Node* n, size_t lo, size_t hi, size_t& nodes) {
  if (!n) return 0;
  ++nodes;
  size_t a = num(n->range().start()), l = n->range().len().raw_num();
  VX_CHECK(a >= lo && a + l <= hi, "tree order: node [%zu,+%zu) outside [%zu,%zu)", a, l, lo, hi);
  size_t m = std::max(l, std::max(subtree(n->left(), lo, a, nodes), subtree(n->right(), a + l, hi, nodes)));
  VX_CHECK(n->longest().raw_num() == m, "longest range below [%zu,+%zu) is %zu, the map says %zu", a, l, m, n->longest().raw_num());
  return m;
}
static void check_map(HugeAddressMap& m, const Set& s, size_t lo, size_t hi) {
  auto want = runs(s);
  VX_CHECK(m.nranges() == want.size(), "%zu ranges, history implies %zu", m.nranges(), want.size());
  VX_CHECK(m.total_mapped().raw_num() == s.size(), "%zu huge pages, history implies %zu", m.total_mapped().raw_num(), s.size());
  size_t i = 0;
  for (auto* n = m.first(); n; n = n->next(), ++i) {
    VX_CHECK(i < want.size() && num(n->range().start()) == want[i].first && n->range().len().raw_num() == want[i].second,
             "range %zu is [%zu,+%zu)%s", i, num(n->range().start()), n->range().len().raw_num(), i < want.size() ? ", history implies another" : ", history implies no more");
  }
  VX_CHECK(i == want.size(), "iteration stops after %zu of %zu ranges", i, want.size());
  size_t nodes = 0;
  subtree(m.root(), 0, ~size_t(0), nodes);
  VX_CHECK(nodes == want.size(), "%zu nodes in the tree for %zu ranges", nodes, want.size());
  for (size_t p = lo; p <= hi; ++p) {
    auto* n = m.Predecessor(page(p));
    const std::pair<size_t, size_t>* w = nullptr;
    for (auto& r : want) if (r.first <= p) w = &r;
    VX_CHECK(!n == !w && (!n || num(n->range().start()) == w->first), "predecessor of %zu is %s", p, n ? "the wrong range" : "missing");
  }
  m.Check();
}

static const size_t kHighest = (size_t(1) << (kAddressBits - kHugePageShift)) - 20;

static void map_histories() {
  size_t base = choose(2) ? kHighest : 1;
  size_t U = vx::thorough() ? 10 : 8;
  Meta meta;
  HugeAddressMap m(meta);
  Set s;
  int depth = vx::thorough() ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    // free intervals to insert, then ranges to remove
    std::vector<std::pair<size_t, size_t>> ins;
    for (size_t i = 0; i < U; ++i)
      for (size_t l = 1; i + l <= U && !s.count(base + i + l - 1); ++l) ins.push_back({base + i, l});
    auto r = runs(s);
    size_t c = choose(ins.size() + r.size());
    if (c < ins.size()) {
      vx::op("insert %zu+%zu", ins[c].first, ins[c].second);
      m.Insert(range(ins[c].first, ins[c].second));
      for (size_t k = 0; k < ins[c].second; ++k) s.insert(ins[c].first + k);
    } else {
      auto x = r[c - ins.size()];
      vx::op("remove %zu+%zu", x.first, x.second);
      m.Remove(m.Predecessor(page(x.first + x.second / 2)));
      for (size_t k = 0; k < x.second; ++k) s.erase(x.first + k);
    }
    check_map(m, s, base ? base - 1 : 0, base + U);
    vx::step(1);
  }
}
// Bigger trees: separate pages in every order, then every order of filling
// three of the gaps or removing, so that merges happen deep in the tree.
static void map_trees() {
  size_t N = vx::thorough() ? 7 : 6;
  size_t base = 5;
  Meta meta;
  HugeAddressMap m(meta);
  Set s;
  std::vector<size_t> left;
  for (size_t i = 0; i < N; ++i) left.push_back(i);
  while (!left.empty()) {
    size_t c = choose(left.size());
    size_t p = base + left[c] * 3, n = 1 + left[c] % 2;
    left.erase(left.begin() + c);
    vx::op("insert %zu+%zu", p, n);
    m.Insert(range(p, n));
    for (size_t k = 0; k < n; ++k) s.insert(p + k);
  }
  check_map(m, s, base - 1, base + 3 * N);
  for (int d = 0; d < (vx::thorough() ? 4 : 3); ++d) {
    auto r = runs(s);
    std::vector<std::pair<size_t, size_t>> gaps;
    for (size_t i = 0; i + 1 < r.size(); ++i) gaps.push_back({r[i].first + r[i].second, r[i + 1].first - r[i].first - r[i].second});
    size_t c = choose(gaps.size() + r.size());
    if (c < gaps.size()) {
      vx::op("fill %zu+%zu", gaps[c].first, gaps[c].second);
      m.Insert(range(gaps[c].first, gaps[c].second));
      for (size_t k = 0; k < gaps[c].second; ++k) s.insert(gaps[c].first + k);
    } else {
      auto x = r[c - gaps.size()];
      vx::op("remove %zu+%zu", x.first, x.second);
      m.Remove(m.Predecessor(page(x.first + x.second - 1)));
      for (size_t k = 0; k < x.second; ++k) s.erase(x.first + k);
    }
    check_map(m, s, base - 1, base + 3 * N);
    vx::step(1);
  }
}

// The system: grants address space where the harness wants, or refuses.
struct Vm : VirtualAllocator {
  size_t next = 40, low = 30;
  int mode = 0;  // 0 right after the last, 1 with a gap, 2 below, 3 too much, 4 refuse
  Set granted;
  AddressRange operator()(size_t bytes, size_t align) override {
    VX_CHECK(bytes % kHugePageSize == 0 && bytes && align == kHugePageSize, "asked the system for %zu bytes aligned to %zu", bytes, align);
    size_t n = bytes / kHugePageSize;
    if (mode == 4) return {nullptr, 0};
    if (mode == 3) n += 2;
    size_t at;
    if (mode == 2 && low > n) {
      low -= n;
      at = low;
    } else {
      if (mode == 1) next += 1;
      at = next;
      next += n;
    }
    for (size_t k = 0; k < n; ++k) {
      VX_CHECK(granted.insert(at + k).second, "harness: granted twice");
    }
    return {reinterpret_cast<void*>(at << kHugePageShift), n * kHugePageSize};
  }
};
static const char* kModes[] = {"next", "gap", "below", "too much", "refused"};

struct Blk { size_t at, n; };

static void check_alloc(HugeAllocator& a, const Vm& vm, const Set& free_pages) {
  VX_CHECK(a.system().raw_num() == vm.granted.size(), "system total %zu, granted %zu", a.system().raw_num(), vm.granted.size());
  VX_CHECK(a.size().raw_num() == free_pages.size(), "%zu huge pages free in the allocator, history implies %zu", a.size().raw_num(), free_pages.size());
  auto st = a.stats();
  VX_CHECK(st.system_bytes == vm.granted.size() * kHugePageSize && st.unmapped_bytes == free_pages.size() * kHugePageSize && st.free_bytes == 0, "allocator's published bytes");
  LargeSpanStats l{};
  SmallSpanStats sm{};
  a.AddSpanStats(&sm, &l);
  VX_CHECK(l.spans == runs(free_pages).size() && l.returned_pages == Length(free_pages.size() * kPagesPerHugePage.raw_num()) && l.normal_pages == Length(0), "allocator's free spans: %zu of %zu pages, history implies %zu", l.spans, l.returned_pages.raw_num(), runs(free_pages).size());
  for (size_t p = 1; p < vm.next + 3; ++p)
    VX_CHECK(a.Contains(page(p)) == !!free_pages.count(p), "huge page %zu is %sfree, the allocator says otherwise", p, free_pages.count(p) ? "" : "not ");
}

static void allocator() {
  Meta meta;
  Vm vm;
  HugeAllocator a(vm, meta);
  Set fr;
  std::vector<Blk> live;
  int depth = vx::thorough() ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    static const size_t ns[] = {1, 2, 5};
    size_t c = choose(3 + 2 * std::min<size_t>(live.size(), 3));
    if (c < 3) {
      size_t n = ns[c];
      // the system's answer matters only if the allocator asks
      bool fits = false;
      for (auto& r : runs(fr)) fits |= r.second >= n;
      vm.mode = fits ? 4 : choose(5);
      vx::op("get %zu (%s)", n, kModes[vm.mode]);
      size_t before = vm.granted.size();
      HugeRange r = a.Get(NHugePages(n));
      for (size_t p : vm.granted) if (before != vm.granted.size()) {
        bool used = fr.count(p);
        for (auto& b : live) used |= p >= b.at && p < b.at + b.n;
        if (!used) fr.insert(p);
      }
      if (!r.valid()) {
        VX_CHECK(!fits && vm.mode == 4, "get %zu failed though %s", n, fits ? "a range is free" : "the system granted memory");
      } else {
        VX_CHECK(r.len().raw_num() == n, "asked for %zu huge pages, got %zu", n, r.len().raw_num());
        size_t at = num(r.start());
        for (size_t k = 0; k < n; ++k) VX_CHECK(fr.erase(at + k) == 1, "huge page %zu handed out is not free", at + k);
        live.push_back({at, n});
      }
    } else {
      size_t k = (c - 3) / 2;
      if (k == 2) k = live.size() - 1;
      Blk b = live[k];
      bool part = (c - 3) % 2;
      if (part && b.n == 1) continue;
      Blk out = part ? (d & 1 ? Blk{b.at, 1} : Blk{b.at + b.n - 1, 1}) : b;
      vx::op("release %zu+%zu", out.at, out.n);
      if (part) live[k] = d & 1 ? Blk{b.at + 1, b.n - 1} : Blk{b.at, b.n - 1};
      else live.erase(live.begin() + k);
      a.Release(range(out.at, out.n));
      for (size_t j = 0; j < out.n; ++j) fr.insert(out.at + j);
    }
    check_alloc(a, vm, fr);
    vx::step(1);
  }
}

static int64_t g_now;
struct Unback : MemoryModifyFunction {
  Set backed;     // what the system backs
  Set* cached = nullptr;  // what it may be asked to give up
  Set in_flight;  // being released: nobody's until the system answers
  int ok_left = 1 << 30;
  size_t asked = 0, failed = 0, done = 0;
  std::function<void()> nested;  // what other threads do meanwhile
  int depth = 0, nests = 2;
  MemoryModifyStatus operator()(Range r) override {
    HugePage h = HugePageContaining(r.p);
    VX_CHECK(h.first_page() == r.p && r.n.raw_num() % kPagesPerHugePage.raw_num() == 0 && r.n > Length(0), "asked to release part of a huge page");
    ++asked;
    size_t n = r.n.raw_num() / kPagesPerHugePage.raw_num();
    for (size_t k = 0; k < n; ++k) {
      VX_CHECK(cached->erase(num(h) + k), "asked to release huge page %zu, which is not in the cache", num(h) + k);
      VX_CHECK(backed.count(num(h) + k), "huge page %zu released twice", num(h) + k);
      in_flight.insert(num(h) + k);
    }
    bool ok = ok_left-- > 0;
    if (nested && !depth && nests > 0) {
      --nests;
      ++depth;
      nested();
      --depth;
    }
    for (size_t k = 0; k < n; ++k) {
      in_flight.erase(num(h) + k);
      if (!ok) cached->insert(num(h) + k);
      else backed.erase(num(h) + k);
    }
    if (!ok) {
      ++failed;
      return {false, EAGAIN};
    }
    done += n;
    return {true, 0};
  }
};

static void cache() {
  Meta meta;
  Vm vm;
  Unback ub;
  g_now = 1;
  HugeAllocator a(vm, meta);
  HugeCache c(a, meta, ub, absl::Seconds(1), Clock{.now = [] { return g_now; }, .freq = [] { return 1e3; }});
  Set in_cache;
  std::vector<Blk> live;
  ub.cached = &in_cache;
  auto allocator_free = [&] {
    Set f;
    for (size_t p : vm.granted) if (!in_cache.count(p) && !ub.in_flight.count(p)) {
      bool used = false;
      for (auto& b : live) used |= p >= b.at && p < b.at + b.n;
      if (!used) f.insert(p);
    }
    return f;
  };
  size_t usage = 0;
  size_t start = choose(4);
#ifdef NDEBUG
  int depth = vx::thorough() ? 6 : 4;
#else
  int depth = vx::thorough() ? 6 : 5;
#endif
  auto get = [&](size_t n) {
    bool in_hit = false;
    for (auto& r : runs(in_cache)) in_hit |= r.second >= n;
    Set fr = allocator_free();
    bool fits = false;
    for (auto& r : runs(fr)) fits |= r.second >= n;
    bool rel = true;
    HugeRange r = c.Get(NHugePages(n), &rel);
    if (!r.valid()) {
      VX_CHECK(!in_hit && !fits && vm.mode == 4, "get %zu failed though %s", n, in_hit ? "the cache holds it" : "memory was to be had");
      return;
    }
    size_t at = num(r.start());
    VX_CHECK(r.len().raw_num() == n, "asked for %zu, got %zu", n, r.len().raw_num());
    VX_CHECK(rel == !in_hit, "get %zu: reported %s, the cache %s a long enough range", n, rel ? "released" : "backed", in_hit ? "holds" : "does not hold");
    for (size_t k = 0; k < n; ++k) {
      for (auto& b : live) VX_CHECK(at + k < b.at || at + k >= b.at + b.n, "huge page %zu handed out twice", at + k);
      VX_CHECK(vm.granted.count(at + k), "huge page %zu was never granted", at + k);
      if (!rel) VX_CHECK(in_cache.erase(at + k) == 1, "huge page %zu reported as backed was not in the cache", at + k);
      else VX_CHECK(!ub.backed.count(at + k), "huge page %zu reported as released is backed", at + k);
      ub.backed.insert(at + k);  // the user backs it
    }
    live.push_back({at, n});
    usage += n;
  };
  auto release = [&](size_t k, bool unbacked) {
    Blk b = live[k];
    live.erase(live.begin() + k);
    usage -= b.n;
    if (unbacked) {
      for (size_t j = 0; j < b.n; ++j) ub.backed.erase(b.at + j);
      c.ReleaseUnbacked(range(b.at, b.n));
    } else {
      for (size_t j = 0; j < b.n; ++j) in_cache.insert(b.at + j);
      size_t f = ub.failed;
      c.Release(range(b.at, b.n));
      VX_CHECK(ub.failed != f || ub.nested || c.size() <= c.limit(), "the cache holds %zu, its limit is %zu", c.size().raw_num(), c.limit().raw_num());
    }
  };
  auto check = [&] {
    VX_CHECK(c.size().raw_num() == in_cache.size(), "cached %zu huge pages, history implies %zu", c.size().raw_num(), in_cache.size());
    VX_CHECK(c.usage().raw_num() == usage, "usage %zu, history implies %zu", c.usage().raw_num(), usage);
    VX_CHECK(c.limit() >= NHugePages(10), "limit fell to %zu", c.limit().raw_num());
    auto st = c.stats();
    VX_CHECK(st.system_bytes == (usage + in_cache.size()) * kHugePageSize && st.free_bytes == in_cache.size() * kHugePageSize && st.unmapped_bytes == 0, "cache's published bytes");
    LargeSpanStats l{};
    SmallSpanStats sm{};
    c.AddSpanStats(&sm, &l);
    VX_CHECK(l.spans == runs(in_cache).size() && l.normal_pages == Length(in_cache.size() * kPagesPerHugePage.raw_num()) && l.returned_pages == Length(0), "cache's free spans");
    for (size_t p = 1; p < vm.next + 3; ++p) VX_CHECK(c.Contains(page(p)) == !!in_cache.count(p), "huge page %zu: Contains is wrong", p);
    Set f = allocator_free();
    for (size_t p : f) VX_CHECK(!ub.backed.count(p), "huge page %zu was given back without being released", p);
    check_alloc(a, vm, f);
  };
  // pasts: nothing; several blocks; a part-filled cache; a raised limit
  if (start >= 1) for (int i = 0; i < 5; ++i) get(i % 2 ? 2 : 3);
  if (start == 2) release(0, false), release(1, false), release(2, false);
  if (start == 3) {
    for (int i = 0; i < 4; ++i) get(6);
    for (int i = 0; i < 4; ++i) release(live.size() - 1, false);
    for (int i = 0; i < 4; ++i) get(6);
    g_now += 100;
    for (int i = 0; i < 3; ++i) release(live.size() - 1, false);
  }
  vx::op("past %zu", start);
  check();
  // The page heap lock is dropped while the system releases memory: either
  // nothing happens meanwhile, or another thread's operation does.
  if (choose(2)) {
    vx::op("with other threads");
    if (depth > (vx::thorough() ? 5 : 3)) depth = vx::thorough() ? 5 : 3;
    ub.nested = [&] {
      size_t k = choose(6);
      vx::op("(meanwhile %zu)", k);
      vm.mode = 0;
      if (k == 1) get(1);
      if (k == 2) get(7);
      if (k == 3 && !live.empty()) release(live.size() - 1, false);
      if (k == 4) c.ReleaseCachedPages(NHugePages(2));
      if (k == 5 && !live.empty()) release(0, true);
    };
  }
  for (int d = 0; d < depth; ++d) {
    size_t k = choose(13);
    switch (k) {
      case 0: case 1: case 2: case 3: {
        static const size_t ns[] = {1, 2, 7, 12};
        vm.mode = 0;
        vx::op("get %zu", ns[k]);
        get(ns[k]);
        break;
      }
      case 4: vm.mode = 4; vx::op("get 4, no memory"); get(4); break;
      case 5: case 6:
        if (live.empty()) return;
        vx::op("release %s", k == 5 ? "oldest" : "newest");
        release(k == 5 ? 0 : live.size() - 1, false);
        break;
      case 7:
        if (live.size() < 2) return;
        vx::op("release unbacked");
        release(live.size() / 2, true);
        break;
      case 8: case 9: case 10: {
        size_t n = k == 8 ? 1 : k == 9 ? 4 : 100000;
        vx::op("release %zu cached", n);
        size_t had = in_cache.size(), done = ub.done, f = ub.failed;
        size_t got = c.ReleaseCachedPages(NHugePages(n)).raw_num();
          if (ub.nested) break;
        VX_CHECK(got == ub.done - done, "%zu reported released, the system was given %zu", got, ub.done - done);
        VX_CHECK(ub.failed != f || got >= std::min(n, had), "asked to release %zu of %zu cached, released %zu", n, had, got);
        break;
      }
      case 11:
        ub.ok_left = ub.ok_left > 1000 ? (d & 1) : 1 << 30;
        vx::op("releasing now %s", ub.ok_left > 1000 ? "works" : "fails");
        break;
      case 12:
        g_now += d % 2 ? 2500 : 700;
        vx::op("time");
        break;
    }
    check();
    vx::step(1);
  }
  // all released memory is found again
  ub.ok_left = 1 << 30;
  ub.nested = nullptr;
  while (!live.empty()) release(0, false);
  c.ReleaseCachedPages(NHugePages(1 << 20));
  check();
  VX_CHECK(a.size() == a.system(), "after giving everything back, %zu of %zu free", a.size().raw_num(), a.system().raw_num());
}

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"map", map_histories, 512}, {"trees", map_trees, 512}, {"allocator", allocator, 512}, {"cache", cache, 256}};
  return vx::explore_main(argc, argv, sc, 4);
}

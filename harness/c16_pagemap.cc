// C16: the page map. Histories against a dictionary at every boundary of the
// tree and of the address space, and every schedule of lookups against a
// growing map.
#include "lib/mc.h"
#include "tcmalloc/common.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
namespace tcmalloc::tcmalloc_internal {
ABSL_CONST_INIT absl::base_internal::SpinLock pageheap_lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
}

// Metadata memory: full of junk, refused at will.
static char* pool;
static size_t pool_used, given;
static int refuse_at = -1, calls;
static const size_t kPool = 16 << 20;
extern "C" void* __real_memset(void*, int, size_t);
static void* meta(size_t n) {
  mc::Off o;
  if (!pool) pool = (char*)mmap(nullptr, kPool, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (calls++ == refuse_at) return nullptr;
  n = (n + 63) / 64 * 64;
  if (pool_used + n > kPool) vx::fail("harness error: pool");
  void* p = pool + pool_used;
  pool_used += n;
  __real_memset(p, 0xa5, n);
  given += n;
  return p;
}
extern "C" void* __wrap__ZN8tcmalloc17tcmalloc_internal13MetaDataAllocEm(size_t n) { return meta(n); }
static void reset_pool() {
  pool_used = given = calls = 0;
  refuse_at = -1;
}

static Span* fake(int i) { return reinterpret_cast<Span*>(0x7f0012340000 + 128 * i); }

// ---- histories on the tree itself ----
template <int BITS>
struct Tree {
  typedef PageMap3<BITS, meta> Map;
  alignas(64) static inline char buf[sizeof(Map)];
  static constexpr int kLeaf = (BITS + 2) / 3, kMid = kLeaf;
  static constexpr uint64_t L = 1ull << kLeaf, M = 1ull << (kLeaf + kMid), E = 1ull << BITS;

  static void run() {
    reset_pool();
    Map& m = *new (buf) Map();
    const uint64_t pages[] = {0, 1, L - 1, L, M - 1, M, 2 * M - 1, E - L - 1, E - L, E - 2, E - 1};
    const uint64_t outside[] = {E, E + 1, 2 * E - 1, E + L, ~0ull >> kPageShift, E << 3};
    constexpr int N = 11;
    struct Range { uint64_t s; size_t n; };
    const Range ranges[] = {{0, 1}, {0, L + 1}, {L - 1, 2}, {L, 1}, {M - 1, 2}, {2 * M - 1, 1}, {E - L - 1, 2}, {E - 1, 1}, {E - 2, 2}, {E - 1, 2}, {L + 5, L}};
    bool leaf[N] = {};
    Span* span[N] = {};
    int sc[N] = {};
    void* huge[N] = {};
    bool h_known[N];
    const size_t base = m.bytes_used();
    VX_CHECK(base == sizeof(Map), "an empty map uses %zu bytes", base);
    auto leafno = [&](uint64_t k) { return k / L; };
    int depth = vx::thorough() ? 6 : 4;
    for (int d = 0; d < depth; ++d) {
      int o = choose(4);
      if (o == 0) {
        const Range r = ranges[choose(11)];
        int f = choose(4);
        refuse_at = f ? calls + f - 1 : -1;
        int c0 = calls;
        bool ok = m.Ensure(r.s, r.n);
        bool refused = refuse_at >= c0 && calls > refuse_at;
        if (f && !refused) return;  // same as no refusal
        refuse_at = -1;
        bool fits = r.s + r.n - 1 < E;
        vx::op("ensure(%#lx, %zu) = %d%s", r.s, r.n, ok, refused ? " refused" : "");
        VX_CHECK(ok == (fits && !refused), "Ensure(%#lx, %zu) returned %d (memory %s)", r.s, r.n, ok, refused ? "refused" : "there");
        for (int i = 0; i < N; ++i) {
          bool in = leafno(pages[i]) >= leafno(r.s) && leafno(pages[i]) <= leafno(r.s + r.n - 1);
          bool now = m.has_leaf(pages[i]);
          if (leaf[i] || (ok && in)) VX_CHECK(now, "page %#lx has no node after Ensure(%#lx, %zu)", pages[i], r.s, r.n);
          if (!leaf[i] && !in) VX_CHECK(!now, "page %#lx got a node by Ensure(%#lx, %zu)", pages[i], r.s, r.n);
          leaf[i] = now;
        }
      } else {
        int i = choose(N);
        if (!leaf[i]) return;
        if (o == 1) {
          if (sc[i]) return;
          span[i] = span[i] == fake(2 * i + 1) ? fake(2 * i + 2) : fake(2 * i + 1);
          m.set(pages[i], span[i]);
          vx::op("set(%#lx)", pages[i]);
        } else if (o == 2) {
          int v = choose(3);
          sc[i] = v == 0 ? 1 : v == 1 ? 86 : kNumClasses - 1;
          span[i] = span[i] == fake(2 * i + 1) ? fake(2 * i + 2) : fake(2 * i + 1);
          m.set_with_sizeclass(pages[i], span[i], sc[i]);
          vx::op("set_with_sizeclass(%#lx, %d)", pages[i], sc[i]);
        } else {
          huge[i] = huge[i] == fake(100) ? fake(101) : fake(100);
          m.set_hugepage(pages[i], huge[i]);
          for (int j = 0; j < N; ++j)
            if (pages[j] * kPageSize / kHugePageSize == pages[i] * kPageSize / kHugePageSize) huge[j] = huge[i];
          vx::op("set_hugepage(%#lx)", pages[i]);
        }
      }
      vx::step();
      uint64_t h = BITS;
      for (int i = 0; i < N; ++i) {
        uint64_t k = pages[i];
        VX_CHECK(m.get(k) == span[i], "get(%#lx) is wrong", k);
        VX_CHECK(m.has_leaf(k) == leaf[i], "has_leaf(%#lx) is wrong", k);
        VX_CHECK((int)m.sizeclass(k) == sc[i], "sizeclass(%#lx) is %d, not %d", k, (int)m.sizeclass(k), sc[i]);
        auto [s, c] = m.template get_existing_with_sizeclass<true>(k);
        VX_CHECK(s == span[i] && c == sc[i], "descriptor and size class of %#lx are wrong", k);
        if (leaf[i]) {
          VX_CHECK(m.get_existing(k) == span[i], "get_existing(%#lx) is wrong", k);
          auto [s2, c2] = m.template get_existing_with_sizeclass<false>(k);
          VX_CHECK(s2 == span[i] && c2 == sc[i], "descriptor and size class of %#lx are wrong", k);
          VX_CHECK(m.get_hugepage(k) == huge[i], "get_hugepage(%#lx) is wrong", k);
        }
        // the next page with a descriptor
        uint64_t want = ~0ull;
        for (int j = 0; j < N; ++j)
          if (span[j] && pages[j] > k && pages[j] < want) want = pages[j];
        // (walking the upper levels of the big tree takes long)
        if (BITS < 30 || i == 0 || i == N - 2) {
          auto nx = m.get_next_set_page(k);
          VX_CHECK(nx.has_value() == (want != ~0ull), "a next page after %#lx is %sreported", k, nx ? "" : "not ");
          if (nx) VX_CHECK(*nx == want, "the next page after %#lx is %#lx, not %#lx", k, *nx, want);
        }
        h = vx::mix(h, (leaf[i] << 20) + sc[i] * 64 + (span[i] ? span[i] - fake(0) : 0) + ((uint64_t)(uintptr_t)huge[i] << 22));
      }
      for (uint64_t k : outside) {
        VX_CHECK(m.get(k) == nullptr, "get(%#lx), outside, is something", k);
        VX_CHECK(m.sizeclass(k) == 0, "sizeclass(%#lx), outside, is something", k);
        VX_CHECK(!m.has_leaf(k), "has_leaf(%#lx), outside", k);
        auto [s, c] = m.template get_existing_with_sizeclass<true>(k);
        VX_CHECK(s == nullptr && c == 0, "descriptor of %#lx, outside, is something", k);
      }
      // close neighbours of what was registered
      for (int i = 0; i < N; ++i)
        for (int dd = -2; dd <= 2; ++dd) {
          uint64_t k = pages[i] + dd;
          if (k >= E) continue;
          Span* want = nullptr;
          for (int j = 0; j < N; ++j)
            if (pages[j] == k) want = span[j];
          VX_CHECK(m.get(k) == want, "get(%#lx) is wrong", k);
        }
      // room is accounted for (each block was rounded up to 64 bytes here)
      VX_CHECK(m.bytes_used() - base <= given && given - (m.bytes_used() - base) < 64u * (calls + 1), "map says %zu bytes, was given %zu", m.bytes_used() - base, given);
      if (vx::visited(vx::mix(h, given), depth - d)) return;
    }
  }
};

// ---- histories on the allocator's page map: spans and size classes ----
static void spans() {
  reset_pool();
  alignas(64) static char buf[sizeof(PageMap)];
  PageMap& m = *new (buf) PageMap();
  const uint64_t L = 1ull << ((kAddressBits - kPageShift + 2) / 3);
  // spans that may be live: {first page, length}; overlapping ones exclude each other
  struct { uint64_t p; int n; } sp[] = {{L - 2, 4}, {L - 1, 1}, {L, 2}, {L - 4, 2}, {2 * L - 1, 3}, {L + 2, 1}};
  constexpr int N = 6;
  alignas(64) static char raw[N][sizeof(Span)];
  int live[N] = {};  // 0 no, 1 registered, 2 with a size class
  int sc[N] = {};
  bool ever[N] = {};
  const uint64_t lo = L - 6, hi = 2 * L + 4;
  static Span* want[1 << 14];
  static int wsc[1 << 14];
  static char stale[1 << 14];  // no longer part of a span
  if (hi - lo > (1 << 14)) vx::fail("harness error: window");
  for (uint64_t k = 0; k < hi - lo; ++k) want[k] = nullptr, wsc[k] = 0, stale[k] = 0;
  Span* const invalid = const_cast<Span*>(&tc_globals.invalid_span());
  int depth = vx::thorough() ? 10 : 8;
  for (int d = 0; d < depth; ++d) {
    int o = choose(3), i = choose(N);
    if (o == 0) {
      for (int j = 0; j < N; ++j)
        if (live[j] && sp[j].p < sp[i].p + sp[i].n && sp[i].p < sp[j].p + sp[j].n) return;
      if (!m.Ensure(Range(PageId{sp[i].p}, Length(sp[i].n)))) vx::fail("Ensure failed");
      Span* s = new (raw[i]) Span(Range(PageId{sp[i].p}, Length(sp[i].n)));
      m.Set(s->first_page(), s);
      for (int k = 0; k < sp[i].n; ++k) stale[sp[i].p - lo + k] = k > 0;
      want[sp[i].p - lo] = s;
      live[i] = 1;
    } else if (o == 1) {
      if (live[i] != 1) return;
      sc[i] = choose(2) ? kNumClasses - 1 : 7;
      Span* s = reinterpret_cast<Span*>(raw[i]);
      m.RegisterSizeClass(s, sc[i]);
      for (int k = 0; k < sp[i].n; ++k) {
        want[sp[i].p - lo + k] = s;
        wsc[sp[i].p - lo + k] = sc[i];
        stale[sp[i].p - lo + k] = 0;
      }
      live[i] = 2;
    } else {
      if (!live[i]) return;
      Span* s = reinterpret_cast<Span*>(raw[i]);
      if (live[i] == 2) m.UnregisterSizeClass(s);
      m.Set(s->first_page(), invalid);
      want[sp[i].p - lo] = invalid;
      for (int k = 0; k < sp[i].n; ++k) {
        wsc[sp[i].p - lo + k] = 0;
        if (k) stale[sp[i].p - lo + k] = 1;
      }
      live[i] = 0;
    }
    vx::op("%s span %d", o == 0 ? "new" : o == 1 ? "size class for" : "delete", i);
    vx::step();
    for (uint64_t p = lo; p < hi; p = (p > L + 8 && p < 2 * L - 8) ? 2 * L - 8 : p + 1) {
      uint64_t k = p - lo;
#ifdef NDEBUG
      VX_CHECK((int)m.sizeclass(PageId{p}) == wsc[k], "page %#lx has size class %d, not %d", p, (int)m.sizeclass(PageId{p}), wsc[k]);
#endif
      if (stale[k]) continue;  // an inner page of a span without size class
      VX_CHECK(m.GetDescriptor(PageId{p}) == want[k], "wrong descriptor for page %#lx", p);
      VX_CHECK((int)m.sizeclass(PageId{p}) == wsc[k], "page %#lx has size class %d, not %d", p, (int)m.sizeclass(PageId{p}), wsc[k]);
      auto [s, c] = m.GetDescriptorAndSizeClass(PageId{p});
      VX_CHECK(s == want[k] && c == wsc[k], "wrong descriptor or size class for page %#lx", p);
      if (want[k]) {
        auto [s2, c2] = m.GetExistingDescriptorAndSizeClass(PageId{p});
        VX_CHECK(s2 == want[k] && c2 == wsc[k] && m.GetExistingDescriptor(PageId{p}) == want[k], "wrong existing descriptor for page %#lx", p);
      }
    }
    uint64_t h = 0;
    for (int j = 0; j < N; ++j) h = vx::mix(h, live[j] * 100 + sc[j]);
    if (vx::visited(vx::hash_bytes(h, stale, 12), depth - d)) return;
  }
}

// ---- schedules ----
template <int BITS>
struct Sched {
  typedef PageMap3<BITS, meta> Map;
  alignas(64) static inline char buf[sizeof(Map)];
  static constexpr int kLeaf = (BITS + 2) / 3;
  static constexpr uint64_t L = 1ull << kLeaf, M = 1ull << (2 * kLeaf), E = 1ull << BITS;

  // The lookups every deallocation makes: of pages known to be registered.
  static void registered() {
    reset_pool();
    Map& m = *new (buf) Map();
    mc::reset();
    static std::atomic<int> published[2];
    static absl::base_internal::SpinLock lock(absl::kConstInit, absl::base_internal::SCHEDULE_KERNEL_ONLY);
    published[0] = published[1] = 0;
    const uint64_t first = L - 1;
    if (!m.Ensure(first, 1)) vx::fail("Ensure failed");
    m.set_with_sizeclass(first, fake(1), 5);
    static const int kScripts = 5;
    // pages registered by the two writers
    const uint64_t w[kScripts][2] = {{L - 2, L - 3}, {L, L + 1}, {L, M}, {M, M + L}, {E - 1, E - L - 1}};
    int a = choose(kScripts);
    int refuse = choose(2);
    int look = choose(3);
    auto grow = [&](int t) {
      return [&, t] {
        bool ok;
        lock.lock();
        if (refuse && t == 1) {
          mc::Off o;
          refuse_at = calls;
        }
        ok = m.Ensure(w[a][t], 1);
        {
          mc::Off o;
          refuse_at = -1;
        }
        lock.unlock();
        if (!ok) return;
        m.set_with_sizeclass(w[a][t], fake(10 + t), 20 + t);
        published[t].store(1, std::memory_order_release);
      };
    };
    auto ta = grow(0), tb = grow(1);
    auto one = [&](uint64_t k, int sp, int sc) {
      int c0 = look == 0 ? (int)m.sizeclass(k) : sc;
      Span* s = look == 1 ? m.get(k) : m.get_existing(k);
      auto [s2, c2] = look == 2 ? m.template get_existing_with_sizeclass<true>(k) : m.template get_existing_with_sizeclass<false>(k);
      mc::Off o;
      VX_CHECK(c0 == sc && s == fake(sp) && s2 == fake(sp) && c2 == sc, "a registered page %#lx is looked up wrongly while the map changes", k);
    };
    auto tc = [&] {
      one(first, 1, 5);
      for (int t = 0; t < 2; ++t)
        if (published[t].load(std::memory_order_acquire)) one(w[a][t], 10 + t, 20 + t);
    };
    mc::spawn(ta);
    mc::spawn(tb);
    mc::spawn(tc);
    mc::Cfg c;
    c.plain = true;
    c.preempt = vx::thorough() ? 3 : 2;
    mc::go(c);
    for (int t = 0; t < 2; ++t)
      if (published[t]) one(w[a][t], 10 + t, 20 + t);
    vx::state(vx::mix(a * 10 + look, published[0] * 2 + published[1] + mc::points() * 4));
  }

  // Lookups of pages that may not be there yet.
  static void unknown() {
    reset_pool();
    Map& m = *new (buf) Map();
    mc::reset();
    const uint64_t w[6] = {L - 2, L, M, M + 3 * L, E - 1, 0};
    int a = choose(6), b = choose(6), refuse = choose(3), pre = choose(2);
    if (pre && !m.Ensure(L - 1, 1)) vx::fail("Ensure failed");
    const uint64_t k = w[a], other = w[b];
    bool done = false;
    auto ta = [&] {
      {
        mc::Off o;
        if (refuse) refuse_at = calls + refuse - 1;
      }
      bool ok = m.Ensure(k, 1);
      {
        mc::Off o;
        refuse_at = -1;
      }
      if (!ok) return;
      m.set_with_sizeclass(k, fake(3), 9);
      m.set_hugepage(k, fake(4));
      mc::Off o;
      done = true;
    };
    auto tb = [&] {
      for (int i = 0; i < 2; ++i) {
        bool must;
        {
          mc::Off o;
          must = done;
        }
        Span* s = m.get(k);
        auto [s2, c2] = m.template get_existing_with_sizeclass<true>(k);
        Span* s3 = m.get(other);
        auto [s4, c4] = m.template get_existing_with_sizeclass<true>(other);
        void* hp = m.has_leaf(k) ? m.get_hugepage(k) : nullptr;
        mc::Off o;
        VX_CHECK(s == fake(3) || (s == nullptr && !must), "a lookup during growth returned %p", s);
        VX_CHECK((s2 == fake(3) && c2 == 9) || (s2 == nullptr && c2 == 0 && !must), "a lookup during growth returned %p, %d", s2, c2);
        VX_CHECK(hp == nullptr || hp == fake(4), "a huge-page lookup during growth returned %p", hp);
        if (other != k) VX_CHECK(s3 == nullptr && s4 == nullptr && c4 == 0, "a page that was never registered is found");
      }
    };
    mc::spawn(ta);
    mc::spawn(tb);
    mc::Cfg c;
    c.plain = true;
    c.race = false;  // words of the tree itself are read while they are set
    c.preempt = vx::thorough() ? 4 : 3;
    mc::go(c);
    VX_CHECK(m.get(k) == (done ? fake(3) : nullptr), "wrong in the end");
    vx::state(vx::mix(a * 36 + b, refuse * 2 + pre + mc::points() * 8));
  }
};

static const vx::Scenario kScenarios[] = {
    {"tree-22", Tree<22>::run, 100000},
    {"tree-24", Tree<24>::run, 100000},
    {"tree-35", Tree<kAddressBits - kPageShift>::run, 10000},
    {"spans", spans, 10000},
    {"lookups-registered", Sched<22>::registered, 100000},
    {"lookups-unknown", Sched<23>::unknown, 100000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, sizeof kScenarios / sizeof kScenarios[0]);
}

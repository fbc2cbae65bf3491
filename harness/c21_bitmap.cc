// C21: Bitmap<N> and RangeTracker<N> against a plain array of booleans.
#include <vector>
#include <array>
#include "lib/explore.h"
#include "tcmalloc/internal/range_tracker.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

template <size_t N>
struct Ref {
  bool b[N + 1] = {};
  size_t count(size_t i, size_t n) const {
    size_t c = 0;
    for (size_t k = i; k < i + n; ++k) c += b[k];
    return c;
  }
  size_t find(size_t i, bool v) const {
    while (i < N && b[i] != v) ++i;
    return i;
  }
  long findb(long i, bool v) const {
    while (i >= 0 && b[i] != v) --i;
    return i;
  }
  uint64_t hash() const { return vx::hash_bytes(N, b, N); }
};

template <size_t N>
void same(const Bitmap<N>& m, const Ref<N>& r, const char* what) {
  for (size_t i = 0; i < N; ++i)
    VX_CHECK(m.GetBit(i) == r.b[i], "Bitmap<%zu> %s: bit %zu is %d, should be %d",
             N, what, i, m.GetBit(i), r.b[i]);
  VX_CHECK(m.CountBits() == r.count(0, N), "Bitmap<%zu> %s: CountBits %zu vs %zu",
           N, what, m.CountBits(), r.count(0, N));
  VX_CHECK(m.IsZero() == (r.count(0, N) == 0), "Bitmap<%zu> %s: IsZero", N, what);
  vx::step();
}

// Interesting indices: everything near the ends and near word boundaries.
template <size_t N>
const std::vector<size_t>& points() {
  static std::vector<size_t> p;
  if (p.empty()) {
    for (size_t i = 0; i <= N; ++i) {
      size_t m = i % 64;
      bool near_ = m <= 2 || m >= 62 || i + 2 >= N || i <= 2 || m == 31 || m == 33;
      if (N <= 20 || near_) p.push_back(i);
    }
  }
  return p;
}

// Pattern = xor of two ranges whose ends are interesting points.
template <size_t N>
void pattern(Bitmap<N>& m, Ref<N>& r, int ranges) {
  auto& p = points<N>();
  int np = p.size();
  for (int k = 0; k < ranges; ++k) {
    int a = choose(np), b = a + choose(np - a);
    vx::op("xor[%zu,%zu)", p[a], p[b]);
    for (size_t i = p[a]; i < p[b]; ++i) {
      if (r.b[i]) {
        VX_CHECK(m.ClearBit(i), "ClearBit previous value");
        VX_CHECK(!m.ClearBit(i), "ClearBit previous value");
      } else {
        VX_CHECK(!m.SetBit(i), "SetBit previous value");
        VX_CHECK(m.SetBit(i), "SetBit previous value");
      }
      r.b[i] = !r.b[i];
    }
  }
}

template <size_t N>
void all_ops(const Bitmap<N>& m, const Ref<N>& r, bool wide) {
  auto& p = points<N>();
  same(m, r, "pattern");
  vx::state(r.hash());
  for (size_t i : p) {
    if (i >= N) continue;
    VX_CHECK(m.FindSet(i) == r.find(i, true), "Bitmap<%zu>: FindSet(%zu) = %zu, should be %zu", N, i, m.FindSet(i), r.find(i, true));
    VX_CHECK(m.FindClear(i) == r.find(i, false), "Bitmap<%zu>: FindClear(%zu) = %zu, should be %zu", N, i, m.FindClear(i), r.find(i, false));
    VX_CHECK(m.FindSetBackwards(i) == r.findb(i, true), "Bitmap<%zu>: FindSetBackwards(%zu)", N, i);
    VX_CHECK(m.FindClearBackwards(i) == r.findb(i, false), "Bitmap<%zu>: FindClearBackwards(%zu)", N, i);
    vx::step(4);
  }
  for (size_t i : p) {
    size_t x = 7777, l = 7777;
    bool got = m.NextFreeRange(i, &x, &l);
    size_t ex = i < N ? r.find(i, false) : N;
    VX_CHECK(got == (ex < N), "Bitmap<%zu>: NextFreeRange(%zu) found=%d", N, i, got);
    if (got) {
      size_t el = r.find(ex, true) - ex;
      VX_CHECK(x == ex && l == el, "Bitmap<%zu>: NextFreeRange(%zu) = %zu+%zu, should be %zu+%zu", N, i, x, l, ex, el);
    }
    vx::step();
  }
  if (!wide) return;
  for (size_t i : p)
    for (size_t j : p) {
      if (j <= i) continue;
      VX_CHECK(m.CountBits(i, j - i) == r.count(i, j - i), "Bitmap<%zu>: CountBits(%zu,%zu) = %zu, should be %zu", N, i, j - i, m.CountBits(i, j - i), r.count(i, j - i));
      Bitmap<N> c = m;
      Ref<N> q = r;
      c.SetRange(i, j - i);
      for (size_t k = i; k < j; ++k) q.b[k] = true;
      same(c, q, "after SetRange");
      c = m;
      q = r;
      c.ClearRange(i, j - i);
      for (size_t k = i; k < j; ++k) q.b[k] = false;
      same(c, q, "after ClearRange");
    }
  for (size_t i : p) if (i < N) VX_CHECK(m.CountBits(i, 0) == 0, "CountBits of nothing");
  // PopBatch: lowest first, up to limit
  for (size_t lim : p) {
    Bitmap<N> c = m;
    Ref<N> q = r;
    size_t got = 0;
    std::vector<size_t> seen;
    got = c.PopBatch([&](size_t i) { seen.push_back(i); }, lim);
    size_t want = std::min(lim, r.count(0, N));
    VX_CHECK(got == want && seen.size() == want, "Bitmap<%zu>: PopBatch(%zu) gave %zu, should be %zu", N, lim, got, want);
    for (size_t k = 0, i = 0; k < want; ++k, ++i) {
      i = r.find(i, true);
      VX_CHECK(seen[k] == i, "Bitmap<%zu>: PopBatch visited %zu, should be %zu", N, seen[k], i);
      q.b[i] = false;
    }
    same(c, q, "after PopBatch");
  }
  {
    Bitmap<N> c = m;
    Ref<N> q = r;
    while (q.count(0, N)) {
      q.b[q.find(0, true)] = false;
      c.ClearLowestBit();
      same(c, q, "after ClearLowestBit");
    }
    c.ClearLowestBit();
    same(c, q, "after ClearLowestBit of nothing");
  }
  {
    Bitmap<N> c = ~m;
    Ref<N> q;
    for (size_t i = 0; i < N; ++i) q.b[i] = !r.b[i];
    same(c, q, "~");
    Bitmap<N> d = ~c;
    same(d, r, "~~");
    c.Clear();
    Ref<N> z;
    same(c, z, "Clear");
  }
}

template <size_t N>
void unary() {
  Bitmap<N> m;
  Ref<N> r;
  VX_CHECK(m.size() == N, "size");
  pattern(m, r, 1);
  all_ops(m, r, true);
}
template <size_t N>
void unary2() {  // two ranges, the queries only
  Bitmap<N> m;
  Ref<N> r;
  pattern(m, r, 2);
  all_ops(m, r, false);
}
template <size_t N>
void tiny() {  // every bit pattern
  Bitmap<N> m;
  Ref<N> r;
  for (size_t i = 0; i < N; ++i)
    if (choose(2)) {
      m.SetBit(i);
      r.b[i] = true;
    }
  all_ops(m, r, true);
}
template <size_t N>
void binary() {
  Bitmap<N> a, b;
  Ref<N> ra, rb, q;
  pattern(a, ra, 1);
  pattern(b, rb, 1);
  for (size_t i = 0; i < N; ++i) q.b[i] = ra.b[i] & rb.b[i];
  same(a & b, q, "&");
  for (size_t i = 0; i < N; ++i) q.b[i] = ra.b[i] | rb.b[i];
  same(a | b, q, "|");
  for (size_t i = 0; i < N; ++i) q.b[i] = ra.b[i] ^ rb.b[i];
  same(a ^ b, q, "^");
}
template <size_t D, size_t S>
void copy() {
  auto& pd = points<D>();
  auto& ps = points<S>();
  size_t d = pd[choose(pd.size())], s = ps[choose(ps.size())];
  size_t max = std::min(D - d, S - s);
  Bitmap<D> dst;
  Bitmap<S> src;
  Ref<D> rd;
  Ref<S> rs;
  int pat = choose(4);
  vx::op("copy<%zu,%zu> dst %zu src %zu pattern %d", D, S, d, s, pat);
  for (size_t i = 0; i < S; ++i) {
    bool v = pat == 0 || (pat == 1 && i % 3 == 0) || (pat == 2 && (i * i + i / 64) % 5 < 2);
    if (v) src.SetBit(i);
    rs.b[i] = v;
  }
  for (size_t i = 0; i < D; ++i) {
    bool v = pat == 3 || (pat == 2 && i % 2) || (pat == 1 && i % 7 == 3);
    if (v) dst.SetBit(i);
    rd.b[i] = v;
  }
  for (size_t len = 0; len <= max; ++len) {
    Bitmap<D> c = dst;
    Ref<D> q = rd;
    CopyBits(c, d, src, s, len);
    for (size_t k = 0; k < len; ++k) q.b[d + k] = rs.b[s + k];
    same(c, q, "CopyBits");
    same(src, rs, "CopyBits source");
  }
}
template <size_t M, size_t N>
void scale() {
  Bitmap<N> m;
  Ref<N> r;
  pattern(m, r, 1);
  for (size_t len = 1; len <= N; ++len) {
    if (len % M && M % len) continue;
    for (int op = 0; op < 2; ++op) {
      Bitmap<M> got = Scale<M>(m, len, op ? ReductionOp::kAll : ReductionOp::kAny);
      Ref<M> want;
      for (size_t i = 0; i < M; ++i) {
        if (len >= M) {
          size_t k = len / M, c = r.count(i * k, k);
          want.b[i] = op ? c == k : c > 0;
        } else {
          want.b[i] = r.b[i / (M / len)];
        }
      }
      same(got, want, op ? "Scale kAll" : "Scale kAny");
    }
  }
}

// RangeTracker: every history of FindAndMark / Mark / Unmark up to a depth.
template <size_t N>
struct TrackerRun {
  RangeTracker<N> t;
  Ref<N> r;
  struct A { size_t i, n; };
  std::vector<A> live;
  size_t longest() const {
    size_t best = 0, cur = 0;
    for (size_t i = 0; i < N; ++i) {
      cur = r.b[i] ? 0 : cur + 1;
      best = std::max(best, cur);
    }
    return best;
  }
  void check() {
    vx::step();
    VX_CHECK(t.size() == N, "size");
    VX_CHECK(t.used() == r.count(0, N), "RangeTracker<%zu>: used %zu, should be %zu", N, (size_t)t.used(), r.count(0, N));
    VX_CHECK(t.allocs() == live.size(), "RangeTracker<%zu>: allocs %zu, should be %zu", N, (size_t)t.allocs(), live.size());
    VX_CHECK(t.longest_free() == longest(), "RangeTracker<%zu>: longest_free %zu, should be %zu", N, (size_t)t.longest_free(), longest());
    same(t.bits(), r, "RangeTracker bits");
    size_t i = 0, l = 0, at = 0;
    while (t.NextFreeRange(at, &i, &l)) {
      VX_CHECK(i == r.find(at, false) && l == r.find(i, true) - i, "RangeTracker NextFreeRange");
      at = i + l;
    }
    VX_CHECK(at >= N || r.find(at, false) == N, "RangeTracker NextFreeRange stops early");
  }
  uint64_t hash() {
    uint64_t h = r.hash();
    for (auto& a : live) h += vx::mix(vx::mix(17, a.i), a.n);  // order-free
    return h;
  }
  void run(const std::vector<size_t>& sizes, int depth, bool marks) {
    check();
    for (int d = 0; d < depth; ++d) {
      if (vx::visited(vx::mix(hash(), N), depth - d)) return;
      int ns = sizes.size();
      std::vector<A> alts;
      for (int i = 0; i < ns; ++i)
        if (sizes[i] <= longest()) alts.push_back({~0ul, sizes[i]});
      size_t nfind = alts.size();
      if (marks)
        for (size_t i = 0; i < N; ++i)
          for (size_t s : sizes)
            if (i + s <= N && r.count(i, s) == 0 && (N < 20 || i % 64 < 2 || i % 64 > 61)) alts.push_back({i, s});
      size_t nmark = alts.size();
      size_t total = nmark + live.size() + (d == depth - 1 && marks ? 1 : 0);
      if (!total) return;
      size_t c = choose(total);
      if (c < nfind) {
        size_t n = alts[c].n;
        size_t got = t.FindAndMark(n);
        vx::op("FindAndMark(%zu)=%zu", n, got);
        VX_CHECK(got + n <= N && got <= N, "RangeTracker<%zu>: FindAndMark(%zu) = %zu out of range", N, n, got);
        VX_CHECK(r.count(got, n) == 0, "RangeTracker<%zu>: FindAndMark(%zu) = %zu overlaps a live range", N, n, got);
        // best fit: no shorter free range would have done
        size_t lo = got, hi = got + n;
        while (lo > 0 && !r.b[lo - 1]) --lo;
        while (hi < N && !r.b[hi]) ++hi;
        for (size_t i = 0; i < N;) {
          i = r.find(i, false);
          if (i >= N) break;
          size_t e = r.find(i, true);
          VX_CHECK(!(e - i >= n && e - i < hi - lo), "RangeTracker<%zu>: FindAndMark(%zu) did not use the best fit", N, n);
          i = e;
        }
        for (size_t k = got; k < got + n; ++k) r.b[k] = true;
        live.push_back({got, n});
      } else if (c < nmark) {
        A a = alts[c];
        vx::op("Mark(%zu,%zu)", a.i, a.n);
        t.Mark(a.i, a.n);
        for (size_t k = a.i; k < a.i + a.n; ++k) r.b[k] = true;
        live.push_back(a);
      } else if (c < nmark + live.size()) {
        A a = live[c - nmark];
        vx::op("Unmark(%zu,%zu)", a.i, a.n);
        t.Unmark(a.i, a.n);
        for (size_t k = a.i; k < a.i + a.n; ++k) r.b[k] = false;
        live.erase(live.begin() + (c - nmark));
      } else {
        vx::op("Clear");
        t.Clear();
        live.clear();
        for (auto& x : r.b) x = false;
      }
      check();
    }
  }
};
void tracker7() { TrackerRun<7> x; x.run({1, 2, 3, 4, 5, 6, 7}, vx::thorough() ? 10 : 8, false); }
void tracker8m() { TrackerRun<8> x; x.run({1, 2, 3, 5}, vx::thorough() ? 7 : 6, true); }
void tracker1() { TrackerRun<1> x; x.run({1}, 4, true); }
void tracker64() { TrackerRun<64> x; x.run({1, 2, 31, 32, 33, 62, 63, 64}, vx::thorough() ? 8 : 7, false); }
void tracker66() { TrackerRun<66> x; x.run({1, 2, 31, 33, 63, 64, 65, 66}, vx::thorough() ? 8 : 7, false); }
void tracker130() { TrackerRun<130> x; x.run({1, 2, 62, 64, 66, 127, 128, 130}, vx::thorough() ? 8 : 7, false); }
void tracker256() { TrackerRun<256> x; x.run({1, 63, 64, 65, 128, 192, 255, 256}, vx::thorough() ? 8 : 7, false); }
void tracker300() { TrackerRun<300> x; x.run({1, 43, 64, 128, 257, 300}, vx::thorough() ? 5 : 4, true); }

int main(int argc, char** argv) {
  vx::Scenario s[] = {
      {"tiny9", tiny<9>}, {"tiny1", tiny<1>},
      {"one_range_63", unary<63>}, {"one_range_64", unary<64>},
      {"one_range_65", unary<65>}, {"one_range_128", unary<128>},
      {"one_range_130", unary<130>}, {"one_range_253", unary<253>},
      {"one_range_256", unary<256>},
      {"two_ranges_64", unary2<64>}, {"two_ranges_66", unary2<66>},
      {"two_ranges_130", unary2<130>}, {"two_ranges_192", unary2<192>},
      {"binary_65", binary<65>}, {"binary_128", binary<128>},
      {"copy_130_200", copy<130, 200>}, {"copy_200_130", copy<200, 130>},
      {"copy_64_64", copy<64, 64>}, {"copy_192_192", copy<192, 192>},
      {"copy_65_256", copy<65, 256>}, {"copy_512_70", copy<512, 70>},
      {"scale_8_64", scale<8, 64>}, {"scale_64_8", scale<64, 8>},
      {"scale_64_256", scale<64, 256>}, {"scale_256_64", scale<256, 64>},
      {"scale_128_128", scale<128, 128>}, {"scale_512_256", scale<512, 256>},
      {"tracker1", tracker1}, {"tracker7", tracker7}, {"tracker8_mark", tracker8m},
      {"tracker64", tracker64}, {"tracker66", tracker66}, {"tracker130", tracker130},
      {"tracker256", tracker256}, {"tracker300_mark", tracker300},
  };
  return vx::explore_main(argc, argv, s, sizeof s / sizeof *s);
}

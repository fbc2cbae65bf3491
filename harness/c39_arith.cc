// C39: size arithmetic against 128-bit integers and set semantics.
#include <string>
#include <vector>
#include "lib/explore.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/internal/bytes.h"
#include "tcmalloc/internal/overflow.h"
#include "tcmalloc/internal/is_aligned_to.h"
#include "tcmalloc/pages.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
typedef unsigned __int128 u128;

static const std::vector<size_t>& values() {
  static std::vector<size_t> v;
  if (v.empty()) {
    for (size_t i = 0; i < 20; ++i) v.push_back(i);
    for (int k = 4; k < 64; ++k)
      for (long d = -1; d <= 1; ++d) v.push_back((size_t{1} << k) + d);
    for (size_t i = 0; i < 5; ++i) v.push_back(~size_t{0} - i);
    for (size_t x : {size_t(3) << 20, size_t(5) << 12, size_t(0xffffffff) * 3, ~size_t{0} / 3, ~size_t{0} / 5, ~size_t{0} - kPageSize, ~size_t{0} - kPageSize + 1, ~size_t{0} - kHugePageSize + 1, ~size_t{0} - kHugePageSize, size_t(0xaaaaaaaaaaaaaaaaull)})
      v.push_back(x);
  }
  return v;
}
static size_t pick() {
  auto& v = values();
  return v[choose(v.size())];
}

void mul() {
  size_t a = pick();
  vx::op("a=%zu", a);
  for (size_t b : values()) {
    size_t out = 1;
    bool o = MultiplyOverflow(a, b, &out);
    u128 want = u128(a) * b;
    vx::step();
    vx::state(vx::mix(a, b));
    VX_CHECK(o == (want > ~size_t{0}), "MultiplyOverflow(%zu, %zu) = %d", a, b, o);
    if (!o) VX_CHECK(out == size_t(want), "MultiplyOverflow(%zu, %zu): product %zu", a, b, out);
  }
}
void pages() {
  size_t b = pick();
  vx::op("bytes=%zu", b);
  vx::step();
  vx::state(b);
  size_t fl = b / kPageSize, ce = (u128(b) + kPageSize - 1) / kPageSize;
  VX_CHECK(BytesToLengthFloor(b).raw_num() == fl, "BytesToLengthFloor(%zu)", b);
  VX_CHECK(BytesToLengthFloor(Bytes(b)).raw_num() == fl, "BytesToLengthFloor(Bytes %zu)", b);
  VX_CHECK(LengthFromBytes(b).raw_num() == fl, "LengthFromBytes(%zu)", b);
  VX_CHECK(BytesToLengthCeil(b).raw_num() == ce, "BytesToLengthCeil(%zu) = %zu, should be %zu", b, BytesToLengthCeil(b).raw_num(), ce);
  VX_CHECK(BytesToLengthCeil(Bytes(b)).raw_num() == ce, "BytesToLengthCeil(Bytes %zu)", b);
  VX_CHECK(BytesToLengthCeil(static_cast<std::align_val_t>(b)).raw_num() == ce, "BytesToLengthCeil(align_val_t %zu)", b);
  VX_CHECK(BytesToLengthFloor(Length(fl).in_bytes()) == Length(fl), "page round trip");
  VX_CHECK(BytesToLengthCeil(Length(fl).in_bytes()) == Length(fl), "page round trip up");
  PageId p = PageIdContaining(reinterpret_cast<void*>(b));
  VX_CHECK(p.index() == fl, "PageIdContaining(%zx)", b);
  VX_CHECK(p.start_uintptr() <= b && b - p.start_uintptr() < kPageSize, "page of %zx starts at %zx", b, p.start_uintptr());
  VX_CHECK(reinterpret_cast<uintptr_t>(p.start_addr()) == p.start_uintptr(), "start_addr");
  HugePage h = HugePageContaining(reinterpret_cast<void*>(b));
  VX_CHECK(h.index() == b / kHugePageSize, "HugePageContaining(%zx)", b);
  VX_CHECK(HugePageContaining(p).index() == h.index(), "HugePageContaining(PageId)");
  VX_CHECK(h.first_page().index() == (b / kHugePageSize) * (kHugePageSize / kPageSize), "first_page");
  VX_CHECK(reinterpret_cast<uintptr_t>(h.start_addr()) == b / kHugePageSize * kHugePageSize, "huge start_addr");
  VX_CHECK(HLFromBytes(b).raw_num() == b / kHugePageSize, "HLFromBytes(%zu)", b);
  size_t hp = kHugePageSize / kPageSize;
  VX_CHECK(HLFromPages(Length(fl)).raw_num() == (fl + hp - 1) / hp, "HLFromPages(%zu) = %zu", fl, HLFromPages(Length(fl)).raw_num());
  if (b <= ~size_t{0} / kHugePageSize) {
    HugeLength l = NHugePages(b);
    VX_CHECK(l.in_bytes() == b * kHugePageSize, "HugeLength in_bytes");
    VX_CHECK(l.in_pages().raw_num() == b * hp, "HugeLength in_pages");
    VX_CHECK(HLFromPages(l.in_pages()) == l && HLFromBytes(l.in_bytes()) == l, "huge page round trip");
    VX_CHECK(l.in_mib() == b * (kHugePageSize >> 20), "in_mib");
    VX_CHECK(!l.overflows(), "%zu huge pages fit", b);
  } else {
    VX_CHECK(NHugePages(b).overflows(), "%zu huge pages do not fit", b);
  }
  VX_CHECK(HugeLength::max().raw_num() == ~size_t{0} / kHugePageSize, "HugeLength::max");
  VX_CHECK(Length::max().raw_num() == ~size_t{0} / kPageSize, "Length::max");
  for (int s = 0; s < 64; ++s) {
    size_t al = size_t{1} << s;
    VX_CHECK(IsAlignedTo(b, al) == (b % al == 0), "IsAlignedTo(%zu, %zu)", b, al);
    VX_CHECK(IsAlignedTo(reinterpret_cast<void*>(b), al) == (b % al == 0), "IsAlignedTo");
    VX_CHECK(IsAlignedTo(b, static_cast<std::align_val_t>(al)) == (b % al == 0), "IsAlignedTo");
  }
  std::string err;
  Length parsed;
  VX_CHECK(AbslParseFlag(AbslUnparseFlag(Length(b)), &parsed, &err) && parsed == Length(b), "Length flag round trip");
  Bytes bp;
  VX_CHECK(AbslParseFlag(AbslUnparseFlag(Bytes(b)), &bp, &err) && bp == Bytes(b), "Bytes flag round trip");
  for (const char* bad : {"", "x", "-1", "18446744073709551616", "1x", "0x10"})
    VX_CHECK(!AbslParseFlag(bad, &parsed, &err) && !AbslParseFlag(bad, &bp, &err), "flag value '%s' must be rejected", bad);
}
template <typename T>
void ops(size_t a, size_t b, T ta, T tb, const char* n) {
  VX_CHECK((ta < tb) == (a < b) && (ta > tb) == (a > b) && (ta <= tb) == (a <= b) && (ta >= tb) == (a >= b) && (ta == tb) == (a == b) && (ta != tb) == (a != b), "%s: comparison of %zu and %zu", n, a, b);
  vx::step();
  if (u128(a) + b <= ~size_t{0}) {
    VX_CHECK((ta + tb).raw_num() == a + b, "%s: %zu + %zu", n, a, b);
    T x = ta;
    x += tb;
    VX_CHECK(x.raw_num() == a + b, "%s: %zu += %zu", n, a, b);
  }
  if (a >= b) {
    VX_CHECK((ta - tb).raw_num() == a - b, "%s: %zu - %zu", n, a, b);
    T x = ta;
    x -= tb;
    VX_CHECK(x.raw_num() == a - b, "%s: %zu -= %zu", n, a, b);
  }
  if (b) {
    VX_CHECK(ta / tb == a / b, "%s: %zu / %zu", n, a, b);
    VX_CHECK((ta % tb).raw_num() == a % b, "%s: %zu %% %zu", n, a, b);
    VX_CHECK((ta / b).raw_num() == a / b, "%s: %zu / scalar %zu", n, a, b);
  }
  if (u128(a) * b <= ~size_t{0}) {
    VX_CHECK((ta * b).raw_num() == a * b, "%s: %zu * %zu", n, a, b);
    T x = ta;
    x *= b;
    VX_CHECK(x.raw_num() == a * b, "%s: %zu *= %zu", n, a, b);
  }
  if (a < ~size_t{0}) {
    T x = ta;
    ++x;
    VX_CHECK(x.raw_num() == a + 1, "%s: ++", n);
    --x;
    VX_CHECK(x.raw_num() == a, "%s: --", n);
  }
}
void arith() {
  size_t a = pick();
  vx::op("a=%zu", a);
  for (size_t b : values()) {
    ops(a, b, Length(a), Length(b), "Length");
    ops(a, b, Bytes(a), Bytes(b), "Bytes");
    ops(a, b, NHugePages(a), NHugePages(b), "HugeLength");
    PageId p(a), q(b);
    VX_CHECK((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b) && (p == q) == (a == b) && (p != q) == (a != b), "PageId comparison");
    if (a >= b) {
      VX_CHECK((p - q).raw_num() == a - b && (q + (p - q)) == p && (p - Length(b)).index() == a - b, "PageId difference");
    }
    if (u128(a) + b <= ~size_t{0}) VX_CHECK((p + Length(b)).index() == a + b && (Length(b) + p).index() == a + b, "PageId + Length");
    vx::state(vx::mix(a, b));
  }
}
// Ranges as sets of huge pages, all non-empty ranges within [1, M).
void ranges() {
  const int M = vx::thorough() ? 12 : 9;
  int o = choose(2);
  size_t base = o ? HugePage::kMaxPageNumber - M - 1 : 1;
  int s1 = choose(M), l1 = 1 + choose(M - s1), s2 = choose(M), l2 = 1 + choose(M - s2);
  HugeRange r = HugeRange::Make(HugePage{base + s1}, NHugePages(l1));
  HugeRange q = HugeRange::Make(HugePage{base + s2}, NHugePages(l2));
  vx::op("[%d,+%d) [%d,+%d)", s1, l1, s2, l2);
  uint32_t m1 = ((1u << l1) - 1) << s1, m2 = ((1u << l2) - 1) << s2;
  vx::step();
  vx::state(vx::mix(vx::mix(o, m1), m2));
  VX_CHECK(r.intersects(q) == ((m1 & m2) != 0), "intersects [%d,+%d) [%d,+%d)", s1, l1, s2, l2);
  VX_CHECK(r.contains(q) == ((m1 | m2) == m1), "contains [%d,+%d) [%d,+%d)", s1, l1, s2, l2);
  VX_CHECK(r.precedes(q) == (s1 + l1 == s2), "precedes [%d,+%d) [%d,+%d)", s1, l1, s2, l2);
  VX_CHECK((r == q) == (m1 == m2), "== [%d,+%d) [%d,+%d)", s1, l1, s2, l2);
  for (int i = 0; i < M; ++i) {
    HugePage h{base + i};
    VX_CHECK(r.contains(h) == !!(m1 >> i & 1), "contains page %d", i);
    VX_CHECK(r.contains(h.first_page()) == !!(m1 >> i & 1), "contains page id %d", i);
    VX_CHECK(r.contains(h.first_page() + kPagesPerHugePage - Length(1)) == !!(m1 >> i & 1), "contains last page id %d", i);
  }
  VX_CHECK(r.valid() && r.len() == NHugePages(l1) && r.start() == HugePage{base + s1}, "accessors");
  VX_CHECK(r.byte_len() == size_t(l1) * kHugePageSize, "byte_len");
  VX_CHECK(!HugeRange::Nil().valid(), "Nil is not valid");
  Range pr(r);
  VX_CHECK(pr.p == r.start().first_page() && pr.n == NHugePages(l1).in_pages() && pr.in_bytes() == r.byte_len() && pr.start_addr() == r.start_addr(), "Range of HugeRange");
  for (int i = 0; i < l1; ++i) VX_CHECK(r[NHugePages(i)] == HugePage{base + s1 + i}, "operator[]");
  if (s1 + l1 == s2) {
    HugeRange j = Join(r, q);
    VX_CHECK(j.start() == r.start() && j.len() == NHugePages(l1 + l2), "Join");
  }
  for (int n = 0; n <= l1; ++n) {
    auto [x, y] = Split(r, NHugePages(n));
    VX_CHECK(x.start() == r.start() && x.len() == NHugePages(n), "Split first part");
    if (n < l1)
      VX_CHECK(y.start() == HugePage{base + s1 + n} && y.len() == NHugePages(l1 - n), "Split second part");
    else
      VX_CHECK(!y.valid() && y.len() == NHugePages(0), "Split without rest");
  }
}
int main(int argc, char** argv) {
  vx::Scenario s[] = {{"multiply", mul}, {"conversions", pages}, {"arithmetic", arith}, {"ranges", ranges}};
  return vx::explore_main(argc, argv, s, 4);
}

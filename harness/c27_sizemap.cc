// C27: size-class tables are valid, lookups minimal, malformed tables rejected.
#include <type_traits>

#include "lib/explore.h"
#include "tcmalloc/common.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/tcmalloc_policy.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

// The size map asks the global state only whether partitions are in use.
namespace tcmalloc::tcmalloc_internal {
HeapPartitioningMode Parameters::heap_partitioning_mode() { return HeapPartitioningMode::kOff; }
}
extern char zero_globals[1 << 20] asm("_ZN8tcmalloc17tcmalloc_internal10tc_globalsE");
alignas(4096) char zero_globals[1 << 20];
extern char inited[64] asm("_ZN8tcmalloc17tcmalloc_internal6Static7inited_E");
alignas(64) char inited[64] = {1};

struct Table { const char* name; const SizeClasses* t; };
static const Table kTables[] = {{"standard", &kSizeClasses}, {"powers of two", &kExperimentalPow2SizeClasses}, {"legacy", &kLegacySizeClasses}, {"relaxed below 64", &kReuseRelaxedBelow64SizeClasses}};

static SizeMap* fresh() {
  static char mem[2][sizeof(SizeMap) + 64];
  static int w;
  w ^= 1;
  memset(mem[w], 0, sizeof mem[w]);
  return new (reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(mem[w]) + 63) & ~63ul)) SizeMap;
}

// One entry, from what the rest of the allocator relies on.
static bool entry_ok(size_t size, size_t bytes, size_t batch) {
  if (size == 0 || size > kMaxSize) return false;
  if (size % (size > 1024 ? 128 : size_t(kAlignment))) return false;
  if (bytes == 0 || bytes % kPageSize) return false;
  size_t pages = bytes / kPageSize;
  if (pages > 32 || bytes / size < 1) return false;
  if (batch < 2 || batch > 128) return false;
  if (!Span::IsValidSizeClass(size, Length(pages))) return false;
  if (bytes / size > 16 && pages > kPagesPerHugePage.raw_num() / 2) return false;
  return true;
}
static bool table_ok(const SizeClassInfo* t, size_t n) {
  if (n == 0) return false;
  if (t[0].size || t[0].bytes != Bytes(0) || t[0].num_to_move) return false;
  if (kHasExpandedClasses && n > kNumBaseClasses) n = kNumBaseClasses;
  for (size_t c = 1; c < n; ++c) {
    if (t[c].size <= t[c - 1].size) return false;
    if (!entry_ok(t[c].size, static_cast<size_t>(t[c].bytes.raw_num()), t[c].num_to_move)) return false;
  }
  return t[n - 1].size == kMaxSize;
}

static void check_map(const SizeMap& m, const SizeClassInfo* t, size_t n, const char* what, bool every, bool lookups = true) {
  if (n > kNumBaseClasses) n = kNumBaseClasses;
  // each register of classes repeats the table
  for (size_t c = 0; c < kNumClasses; ++c) {
    size_t b = c % kNumBaseClasses;
    size_t size = b < n ? t[b].size : 0, pages = b < n ? static_cast<size_t>(t[b].bytes.raw_num()) / kPageSize : 0, mv = b < n ? t[b].num_to_move : 0;
    VX_CHECK(m.class_to_size(c) == size && m.class_to_pages(c) == Length(pages) && m.num_objects_to_move(c) == mv,
             "%s: class %zu is %zu bytes in %zu pages by %d; the table says %zu, %zu, %zu", what, c, m.class_to_size(c), m.class_to_pages(c).raw_num(), int(m.num_objects_to_move(c)), size, pages, mv);
    auto [lo, hi] = m.class_to_size_range(c);
    if (size) {
      VX_CHECK(hi == size, "%s: range of class %zu ends at %zu", what, c, hi);
      VX_CHECK(b == 0 || lo == (t[b - 1].size + 1) || (b == 1 && lo <= 1), "%s: range of class %zu starts at %zu, the class below holds %u bytes", what, c, lo, b ? t[b - 1].size : 0);
    }
  }
  // cold classes: exactly those of the cold register
  auto cold = m.ColdSizeClasses();
  if (kHasExpandedClasses) {
    size_t want = 0;
    for (size_t c = kExpandedClassesStart; c < kNumClasses; ++c) want += m.class_to_size(c) != 0;
    VX_CHECK(cold.size() == want, "%s: %zu cold classes listed, %zu exist", what, cold.size(), want);
    for (size_t i = 0; i < cold.size(); ++i)
      VX_CHECK(IsExpandedSizeClass(cold[i]) && m.class_to_size(cold[i]) == t[i + 1].size, "%s: cold class %zu", what, i);
  } else {
    VX_CHECK(cold.empty(), "cold classes without expanded classes");
  }
  if (!lookups) return;
  size_t c = 1;
  const CppPolicy cpp;
  const MallocPolicy mal;
  for (size_t s = 0; s <= kMaxSize; s += every ? 1 : (s < 1100 ? 1 : 37)) {
    while (t[c].size < s) ++c;
    auto r = m.GetSizeClass(cpp, s);
    VX_CHECK(r.is_small && r.size_class == c, "%s: request of %zu bytes gets class %zu (%zu bytes), the smallest that holds it is %zu (%u bytes)", what, s, r.size_class,
             m.class_to_size(r.size_class), c, t[c].size);
    VX_CHECK(m.SizeClass(cpp, s) == c, "SizeClass(%zu)", s);
    // the C functions: at least 16-byte alignment is the policy's
    auto q = m.GetSizeClass(mal, s);
    size_t ma = static_cast<size_t>(mal.align());
    size_t k = c;
    while (t[k].size % ma) ++k;
    VX_CHECK(q.is_small && q.size_class == k, "%s: malloc of %zu bytes gets class %zu (%zu bytes), expected %zu", what, s, q.size_class, m.class_to_size(q.size_class), k);
    if (kHasExpandedClasses && s > 0) {
      auto z = m.GetSizeClass(cpp.AccessAsCold(), s);
      VX_CHECK(z.is_small && z.size_class == kExpandedClassesStart + c, "%s: cold request of %zu bytes gets class %zu, expected %zu", what, s, z.size_class, kExpandedClassesStart + c);
      auto h = m.GetSizeClass(cpp.AccessAsHot(), s);
      VX_CHECK(h.is_small && h.size_class == c, "%s: hot request of %zu bytes gets class %zu", what, s, h.size_class);
    }
  }
  for (size_t s : {kMaxSize + 1, kMaxSize + 128, 2 * kMaxSize, size_t{1} << 32, SIZE_MAX - 127, SIZE_MAX}) {
    VX_CHECK(!m.GetSizeClass(cpp, s).is_small, "%s: request of %zu bytes is said to have a class", what, s);
    VX_CHECK(!m.GetSizeClass(cpp.AlignAs(size_t{64}), s).is_small, "%s: aligned request of %zu bytes is said to have a class", what, s);
  }
  // alignments
  for (size_t al = 1; al <= 4 * kPageSize; al *= 2) {
    c = 1;
    for (size_t s = 0; s <= kMaxSize; s += every ? 1 : (s < 1100 ? 3 : 211)) {
      while (t[c].size < s) ++c;
      auto r = m.GetSizeClass(cpp.AlignAs(al), s);
      if (al > kPageSize) {
        VX_CHECK(!r.is_small, "%s: alignment %zu above a page gets a class", what, al);
        continue;
      }
      VX_CHECK(r.is_small, "%s: no class for %zu bytes, alignment %zu", what, s, al);
      size_t k = c;
      while (t[k].size % al) ++k;
      VX_CHECK(r.size_class == k, "%s: %zu bytes with alignment %zu get class %zu (%zu bytes), the smallest suitable one is %zu (%u bytes)", what, s, al, r.size_class,
               m.class_to_size(r.size_class), k, t[k].size);
      if (kHasExpandedClasses && s > 0) {
        auto z = m.GetSizeClass(cpp.AccessAsCold().AlignAs(al), s);
        VX_CHECK(z.is_small && z.size_class == kExpandedClassesStart + k, "%s: cold, %zu bytes with alignment %zu", what, s, al);
      }
    }
  }
}

static void quiet() {
  static bool done;
  if (done || vx::replaying()) return;
  done = true;
  dup2(open("/dev/null", O_WRONLY), 2);
}

static void builtin() {
  quiet();
  const Table& T = kTables[choose(4)];
  auto cl = T.t->classes;
  vx::op("%s table, %zu classes", T.name, cl.size());
  vx::state(cl.size());
  for (size_t c = 1; c < cl.size(); ++c)
    VX_CHECK(entry_ok(cl[c].size, static_cast<size_t>(cl[c].bytes.raw_num()), cl[c].num_to_move), "%s table: class %zu (%u bytes in %zu by %d) is not valid", T.name, c, cl[c].size,
             static_cast<size_t>(cl[c].bytes.raw_num()), cl[c].num_to_move);
  VX_CHECK(table_ok(cl.data(), cl.size()), "%s table is not valid", T.name);
  VX_CHECK(cl.size() <= kNumBaseClasses, "%s table has %zu classes, there is room for %zu", T.name, cl.size(), kNumBaseClasses);
  SizeMap* m = fresh();
  VX_CHECK(m->Init(cl), "%s table is rejected", T.name);
  check_map(*m, cl.data(), cl.size(), T.name, true);
  vx::step(kMaxSize);
}

// Every single change of one field of one entry, and every truncation.
static void malformed() {
  quiet();
  const Table& T = kTables[choose(4)];
  auto cl = T.t->classes;
  size_t n = cl.size();
  static char buf[600 * sizeof(SizeClassInfo)];
  SizeClassInfo* t = reinterpret_cast<SizeClassInfo*>(buf);
  int c = choose(100);
  if (size_t(c) >= n) return;
  vx::op("%s table, changes at entry %d", T.name, c);
  vx::state(vx::mix(n, c));
  auto load = [&] { for (size_t i = 0; i < n; ++i) new (&t[i]) SizeClassInfo(cl[i]); };
  auto judge = [&](size_t len, const char* what, size_t v, bool lookups = true) {
    SizeMap* m = fresh();
    bool want = table_ok(t, len);
    bool got = m->Init(absl::Span<const SizeClassInfo>(t, len));
    VX_CHECK(got == want, "%s table with %s of entry %d set to %zu: %s, although it is %s", T.name, what, c, v, got ? "accepted" : "rejected", want ? "valid" : "malformed");
    if (got) check_map(*m, t, len, "changed table", false, lookups || vx::thorough());
    vx::step();
  };
  size_t s0 = cl[c].size, prev = c ? cl[c - 1].size : 0, next = size_t(c) + 1 < n ? cl[c + 1].size : kMaxSize;
  const size_t sizes[] = {0, 1, 4, 7, 8, prev, prev + 1, prev + 4, prev + 8, prev + 16, prev + 64, prev + 128, s0 - 128, s0 - 64, s0 - 16, s0 - 8, s0 - 1, s0 + 1, s0 + 8, s0 + 16, s0 + 64, s0 + 128,
                          next - 128, next - 64, next - 8, next, next + 8, 1016, 1024, 1032, 1040, 1088, 1152, kPageSize - 128, kPageSize, kPageSize + 128, kMaxSize - 128, kMaxSize, kMaxSize + 1, kMaxSize + 128, 2 * kMaxSize, size_t{1} << 31};
  for (size_t v : sizes) { load(); t[c].size = v; judge(n, "the size", v); }
  const size_t b0 = cl[c].bytes.raw_num();
  for (size_t p = 0; p <= 70; ++p)
    for (int d : {0, 1, -1, 128, -4096}) {
      size_t v = p * kPageSize + d;
      if (p == 0 && d < 0) continue;
      load();
      t[c].bytes = Bytes(v);
      judge(n, "the span size", v, false);
    }
  load(); t[c].bytes = Bytes(b0 + kPageSize); judge(n, "the span size", b0 + kPageSize);
  for (int v = 0; v < 256; ++v) { load(); t[c].num_to_move = v; judge(n, "the batch", v, false); }
  load(); judge(c, "table cut", c);
  // two entries exchanged; an entry repeated; one left out
  if (size_t(c) + 1 < n) {
    load(); SizeClassInfo x = t[c]; t[c] = t[c + 1]; t[c + 1] = x; judge(n, "exchange", c);
    load(); t[c + 1] = t[c]; judge(n, "repetition", c);
    load(); for (size_t i = c; i + 1 < n; ++i) t[i] = t[i + 1]; judge(n - 1, "omission", c);
  }
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"built-in tables", builtin, 1}, {"changed tables", malformed, 1}};
  return vx::explore_main(argc, argv, sc, 2);
}

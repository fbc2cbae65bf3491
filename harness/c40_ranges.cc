// C40: address-range introspection reports exactly the live memory.
#include <vector>

#include "lib/e2e.h"
#include "tcmalloc/internal/page_allocation_status.h"
#include "tcmalloc/malloc_tracing_extension.h"
using namespace e2e;
using vx::choose;
using Own = MallocExtension::Ownership;

struct Sp { uintptr_t a; size_t n, o; };
constexpr int kMaxSp = 20000;
static Sp sp[kMaxSp], base_sp[kMaxSp];
static int nsp, nbase;
static uintptr_t guard_lo, guard_hi;  // not used by guarded pages here

static void sort_spans() {
  // insertion sort is enough: mostly sorted
  for (int i = 1; i < nsp; ++i) {
    Sp x = sp[i];
    int k = i;
    while (k > 0 && sp[k - 1].a > x.a) sp[k] = sp[k - 1], --k;
    sp[k] = x;
  }
}
static int span_at(uintptr_t a) {
  int lo = 0, hi = nsp;
  while (lo < hi) {
    int m = (lo + hi) / 2;
    if (sp[m].a <= a) lo = m + 1; else hi = m;
  }
  return lo && a < sp[lo - 1].a + sp[lo - 1].n ? lo - 1 : -1;
}
static uintptr_t vec_lo, vec_hi;

// The result is kept until the checks are done: releasing it may make a cache
// give spans back.
static absl::StatusOr<tcmalloc::malloc_tracing_extension::AllocatedAddressRanges> r;
static void drop() { r = absl::StatusOr<tcmalloc::malloc_tracing_extension::AllocatedAddressRanges>(); }
static void enumerate() {
  drop();
  r = tcmalloc::malloc_tracing_extension::GetAllocatedAddressRanges();
  VX_CHECK(r.ok(), "enumeration failed");
  const auto& v = r->spans;
  VX_CHECK(v.size() < kMaxSp, "harness error: too many spans");
  nsp = v.size();
  for (int i = 0; i < nsp; ++i) sp[i] = {v[i].start_addr, v[i].size, v[i].object_size};
  vec_lo = reinterpret_cast<uintptr_t>(v.data());
  sort_spans();
  // all pages that are in neither a cache of pages nor returned belong to spans
  Books b = books();
  size_t sum = 0;
  for (int i = 0; i < nsp; ++i) sum += sp[i].n;
  VX_CHECK(sum == b.system() - b.free - b.unmapped(), "enumerated spans have %zu bytes; the heap has %zu bytes outside free and returned pages", sum,
           b.system() - b.free - b.unmapped());
}

static Own own(uintptr_t a) { return MallocExtension::GetOwnership(reinterpret_cast<void*>(a)); }

static void check_status(uintptr_t hp, bool in_system) {
  auto st = tcmalloc::tcmalloc_internal::GetPageAllocationStatus(reinterpret_cast<void*>(hp));
  if (!in_system) {
    if (st.has_value() && st->allocated.CountBits(0, 512) == 512 && vx::known("status-never-obtained")) return;
    VX_CHECK(!st.has_value(), "a huge page the allocator never had (%#lx) is reported as managed, with %zu pages allocated", hp,
             st->allocated.CountBits(0, 512));
    return;
  }
  VX_CHECK(st.has_value(), "huge page %#lx of the heap is reported as not managed", hp);
  int bad = 0;
  for (int k = 0; k < 512; ++k) {
    bool want = span_at(hp + k * 4096) >= 0;
    if (st->allocated.GetBit(k) != want && ++bad)
      {
      int s = span_at(hp + k * 4096);
      vx::fail("huge page %#lx: page %d is reported %s, but it is %s a live span (span [%#lx,+%zu) object size %zu; %zu pages reported allocated)", hp, k, want ? "free" : "allocated", want ? "in" : "not in",
               s >= 0 ? sp[s].a : 0, s >= 0 ? sp[s].n : 0, s >= 0 ? sp[s].o : 0, st->allocated.CountBits(0, 512));
    }
  }
  for (size_t d : {size_t{1}, size_t{8}, size_t{4096}, kPageSize, kHugePageSize / 2, kHugePageSize - 1})
    VX_CHECK(!tcmalloc::tcmalloc_internal::GetPageAllocationStatus(reinterpret_cast<void*>(hp + d)).has_value(),
             "an address %zu bytes into a huge page has a page status", d);
}

static bool granted(uintptr_t a) {
  for (int i = 0; i < os_nrange; ++i)
    if (os_range[i].tag != tcmalloc::tcmalloc_internal::MemoryTag::kMetadata && a >= uintptr_t(os_range[i].p) && a < uintptr_t(os_range[i].p) + os_range[i].n) return true;
  return false;
}

static void check_all(bool flushed) {
  enumerate();
  for (int i = 0; i < nsp; ++i) {
    VX_CHECK(sp[i].n > 0 && sp[i].a % kPageSize == 0 && sp[i].n % kPageSize == 0, "span [%#lx,+%zu) is not made of pages", sp[i].a, sp[i].n);
    if (i) VX_CHECK(sp[i - 1].a + sp[i - 1].n <= sp[i].a, "spans overlap: [%#lx,+%zu) and [%#lx,+%zu)", sp[i - 1].a, sp[i - 1].n, sp[i].a, sp[i].n);
    VX_CHECK(granted(sp[i].a) && granted(sp[i].a + sp[i].n - 1), "span [%#lx,+%zu) is outside the heap", sp[i].a, sp[i].n);
    if (sp[i].o) VX_CHECK(sp[i].o <= sp[i].n && sp[i].o <= kMaxSize, "object size %zu in a span of %zu", sp[i].o, sp[i].n);
  }
  static bool used[kMaxSp];
  memset(used, 0, nsp);
  for (int i = 0; i < nblk; ++i) {
    uintptr_t a = reinterpret_cast<uintptr_t>(blk[i].p);
    int s = span_at(a);
    VX_CHECK(s >= 0, "live block %p of %zu bytes is in no enumerated span", blk[i].p, blk[i].req);
    VX_CHECK(a + blk[i].usable <= sp[s].a + sp[s].n, "live block of %zu bytes reaches outside its span of %zu bytes", blk[i].usable, sp[s].n);
    used[s] = true;
    if (sp[s].o == 0) {
      VX_CHECK(a == sp[s].a && blk[i].usable == sp[s].n, "block of %zu usable bytes at offset %zu of its page-level span of %zu bytes", blk[i].usable, size_t(a - sp[s].a), sp[s].n);
    } else {
      VX_CHECK(blk[i].usable == sp[s].o, "block of %zu usable bytes lies in a span for objects of %zu bytes", blk[i].usable, sp[s].o);
      VX_CHECK((a - sp[s].a) % sp[s].o == 0, "block at offset %zu of a span for objects of %zu bytes", size_t(a - sp[s].a), sp[s].o);
    }
    VX_CHECK(own(a) == Own::kOwned, "a live block of %zu bytes is reported as not owned", blk[i].req);
  }
  // page-level spans are live blocks and nothing else
  for (int i = 0; i < nsp; ++i)
    if (!used[i] && sp[i].o == 0) {
      bool old = false;
      for (int k = 0; k < nbase; ++k) old |= base_sp[k].a == sp[i].a && base_sp[k].n == sp[i].n;
      VX_CHECK(old || (vec_lo >= sp[i].a && vec_lo < sp[i].a + sp[i].n), "span [%#lx,+%zu) is enumerated but holds no live block", sp[i].a, sp[i].n);
    }
  // every page of every huge page of the heap
  for (int i = 0; i < os_nrange; ++i) {
    if (os_range[i].tag == tcmalloc::tcmalloc_internal::MemoryTag::kMetadata) continue;
    uintptr_t lo = uintptr_t(os_range[i].p), hi = lo + os_range[i].n;
    for (uintptr_t hp = lo; hp < hi; hp += kHugePageSize) {
      check_status(hp, true);
      if (vx::replaying()) vx::op("  huge page %#lx ok", hp);
    }
    if (!granted(lo - 1)) check_status(lo - kHugePageSize, false);
    if (!granted(hi)) check_status(hi, false);
  }
  vx::step();
}

static void foreign() {
  static char st[64];
  char stack[64];
  void* m = __real_mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uintptr_t mh = (uintptr_t(m) + kHugePageSize - 1) & -kHugePageSize;
  const uintptr_t ps[] = {0, 1, 4096, kHugePageSize, uintptr_t(st), uintptr_t(stack), uintptr_t(m), uintptr_t(m) + 5000, mh, uintptr_t(1) << 46, (uintptr_t(1) << 47) - 1,
                          (uintptr_t(1) << 47) - kHugePageSize, reinterpret_cast<uintptr_t>(&foreign)};
  for (uintptr_t a : ps) {
    VX_CHECK(own(a) == Own::kNotOwned, "foreign address %#lx is reported as owned", a);
    if (a % kHugePageSize == 0)
      VX_CHECK(!tcmalloc::tcmalloc_internal::GetPageAllocationStatus(reinterpret_cast<void*>(a)).has_value(), "foreign huge page %#lx has a page status", a);
  }
  __real_munmap(m, 4 << 20);
}

struct Kind { const char* fn; size_t size, align; int count; };
static const Kind kG[3][4] = {
    {{"malloc", 64, 0, 200}, {"new cold", 1024, 0, 30}, {"malloc", 8192, 0, 12}, {"malloc", 40000, 0, 7}},
    {{"malloc", 262145, 0, 3}, {"malloc", 3000000, 0, 2}, {"new cold", 4u << 20, 0, 1}, {"memalign", 70000, 65536, 4}},
    {{"malloc", 262144, 0, 5}, {"memalign", 2u << 20, 2u << 20, 2}, {"malloc", 14u << 20, 0, 1}, {"memalign", 5000, 1u << 20, 2}},
};
static void flush() {
  MallocExtension::MarkThreadIdle();
  for (int c = 0; c < g_ncpus; ++c) MallocExtension::ReleaseCpuMemory(g_cpus[c]);
}
static void history_impl(int64_t sampling, int group, int depth) {
  init(sampling);
  pin(0);
  if (!nbase) {
    enumerate();
    memcpy(base_sp, sp, sizeof(Sp) * nsp);
    nbase = nsp;
  }
  uint64_t h = group;
  if (sampling) h += 7;
  foreign();
  for (int d = 0; d < depth; ++d) {
    int o = choose(9);
    h = vx::mix(h, o);
    if (o < 4) {
      const Kind& k = kG[group][o];
      vx::op("%d x %s(%zu, align %zu)", k.count, k.fn, k.size, k.align);
      for (int i = 0; i < k.count; ++i) do_alloc(find_alloc(k.fn), k.size, k.align);
    } else if (o == 4) {
      vx::op("free newest");
      for (int n = (nblk + 2) / 3; n > 0; --n) free_any(nblk - 1);
    } else if (o == 5) {
      vx::op("free every other");
      for (int i = nblk - 1; i >= 0; i -= 2) free_any(i);
    } else if (o == 6) {
      vx::op("flush");
      flush();
    } else if (o == 7) {
      vx::op("release all");
      MallocExtension::ReleaseMemoryToSystem(SIZE_MAX);
    } else {
      vx::op("release one page");
      MallocExtension::ReleaseMemoryToSystem(1);
    }
    vx::state(h);
    if (sampling == 0) check_all(o == 6);
    else enumerate();
  }
  verify_all();
  free_all();
  check_all(true);
  drop();
}
static int D() { return vx::thorough() ? 6 : 5; }
static void h0() { history_impl(0, 0, D() - (rseq_possible() ? 0 : 2)); }
static void h1() { history_impl(0, 1, D() - (rseq_possible() ? 0 : 2)); }
static void h2() { history_impl(0, 2, D() - (rseq_possible() ? 0 : 2)); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"small", h0, 20}, {"large", h1, 20}, {"aligned and huge", h2, 20}};
  return vx::explore_main(argc, argv, sc, 3);
}

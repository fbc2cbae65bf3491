// C43: SystemAllocator against a modelled kernel: every short sequence of
// requests, with every placement of refusals and of foreign mappings.
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include "lib/explore.h"
#include "tcmalloc/internal/system_allocator.h"
#include "tcmalloc/internal/exponential_biased.h"

using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
typedef uintptr_t u;

// ---- the modelled kernel ------------------------------------------------------
struct Map { u a, e; bool ours; };
static Map g_map[64];
static int g_nmap;
struct Open { u a, e; };   // made accessible
static Open g_open[64];
static int g_nopen;
static bool g_model, g_noreplace;
static u g_seed;
static int g_faults_mmap, g_skip_mmap, g_faults_prot, g_skip_prot, g_collide, g_skip_collide;
static int g_calls_mmap, g_calls_prot;
static bool g_refused;
struct Adv { u a; size_t n; int adv; int rc; };
static Adv g_adv[64];
static int g_nadv;
static int g_adv_fail[8];   // per advice kind: number of failures, errno
static int g_adv_errno[8];
static int g_munlocks, g_munlock_fail;
static int kind(int adv) {
  switch (adv) {
    case MADV_REMOVE: return 0;
    case MADV_FREE: return 1;
    case MADV_DONTNEED: return 2;
    case MADV_DONTNEED_LOCKED: return 2;
    case MADV_COLLAPSE: return 3;
    default: return 4;
  }
}
static bool free_range(u a, u e) {
  for (int i = 0; i < g_nmap; ++i)
    if (a < g_map[i].e && g_map[i].a < e) return false;
  return true;
}
static void add_map(u a, u e, bool ours) {
  VX_CHECK(g_nmap < 64, "harness error: maps");
  g_map[g_nmap++] = {a, e, ours};
}
static bool g_old_kernel;  // ignores MAP_FIXED_NOREPLACE

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_mprotect(void*, size_t, int);
int __real_madvise(void*, size_t, int);
int __real_munlock(const void*, size_t);
void* __wrap_mmap(void* p, size_t n, int prot, int flags, int fd, off_t o) {
  if (!g_model) return __real_mmap(p, n, prot, flags, fd, o);
  u a = reinterpret_cast<u>(p);
  VX_CHECK(n > 0 && n % 4096 == 0 && a % 4096 == 0, "mmap(%p, %zu): not whole pages", p, n);
  VX_CHECK(prot == PROT_NONE && (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE) && !(flags & MAP_FIXED), "mmap of an unexpected kind: prot %d flags %#x", prot, flags);
  if (a == 0) {  // anywhere: the seed, or a probe
    u r = g_seed;
    while (!free_range(r, r + n)) r += 4096;
    add_map(r, r + n, false);
    return reinterpret_cast<void*>(r);
  }
  bool noreplace = (flags & MAP_FIXED_NOREPLACE) && !g_old_kernel;
  if (n > 16384) {
    ++g_calls_mmap;
    if (g_faults_mmap && g_skip_mmap-- <= 0) {
      if (g_faults_mmap > 0) --g_faults_mmap;
      g_refused = true;
      errno = ENOMEM;
      return MAP_FAILED;
    }
    if (g_collide && g_skip_collide-- <= 0) {  // somebody else maps there first
      --g_collide;
      u f = a + n / 2;
      if (free_range(f, f + 4096)) add_map(f, f + 4096, false);
    }
  }
  if (!free_range(a, a + n)) {
    if (noreplace) { errno = EEXIST; return MAP_FAILED; }
    u r = u{0x7f} << 40;
    for (bool again = true; again;) {
      again = false;
      for (int i = 0; i < g_nmap; ++i)
        if (r < g_map[i].e && g_map[i].a < r + n) { r = (g_map[i].e + (1 << 21)) & ~u{(1 << 21) - 1}; again = true; }
    }
    add_map(r, r + n, true);
    return reinterpret_cast<void*>(r);
  }
  add_map(a, a + n, true);
  return p;
}
int __wrap_munmap(void* p, size_t n) {
  if (!g_model) return __real_munmap(p, n);
  u a = reinterpret_cast<u>(p);
  for (int i = 0; i < g_nmap; ++i) {
    if (g_map[i].a <= a && a + n <= g_map[i].e) {
      for (int k = 0; k < g_nopen; ++k)
        VX_CHECK(g_open[k].e <= a || g_open[k].a >= a + n, "munmap(%p, %zu) removes memory in use", p, n);
      u e = g_map[i].e;
      bool ours = g_map[i].ours;
      g_map[i].e = a;
      if (a + n < e) add_map(a + n, e, ours);
      if (g_map[i].a == g_map[i].e) g_map[i] = g_map[--g_nmap];
      return 0;
    }
  }
  vx::fail("munmap(%p, %zu) of something that is not mapped", p, n);
}
int __wrap_mprotect(void* p, size_t n, int prot) {
  if (!g_model) return __real_mprotect(p, n, prot);
  u a = reinterpret_cast<u>(p);
  ++g_calls_prot;
  VX_CHECK(prot == (PROT_READ | PROT_WRITE), "mprotect with protection %d", prot);
  VX_CHECK(n > 0 && a % 4096 == 0, "mprotect(%p, %zu)", p, n);
  bool in = false;
  for (int i = 0; i < g_nmap; ++i) in |= g_map[i].ours && g_map[i].a <= a && a + n <= g_map[i].e;
  VX_CHECK(in, "mprotect(%p, %zu) outside of every mapping of the allocator", p, n);
  if (g_faults_prot && g_skip_prot-- <= 0) {
    if (g_faults_prot > 0) --g_faults_prot;
    g_refused = true;
    errno = ENOMEM;
    return -1;
  }
  for (int k = 0; k < g_nopen; ++k)
    VX_CHECK(g_open[k].e <= a || g_open[k].a >= a + n, "memory [%p, +%zu) was handed out before", p, n);
  VX_CHECK(g_nopen < 64, "harness error");
  g_open[g_nopen++] = {a, a + n};
  return 0;
}
int __wrap_madvise(void* p, size_t n, int adv) {
  if (!g_model) return __real_madvise(p, n, adv);
  if (adv == MADV_NOHUGEPAGE || adv == MADV_HUGEPAGE) { errno = EINVAL; return -1; }
  int k = kind(adv), rc = 0;
  if (g_adv_fail[k]) {
    if (g_adv_fail[k] > 0) --g_adv_fail[k];
    errno = g_adv_errno[k];
    rc = -1;
  }
  VX_CHECK(g_nadv < 64, "madvise is being repeated for ever");
  g_adv[g_nadv++] = {reinterpret_cast<u>(p), n, adv, rc};
  return rc;
}
int __wrap_munlock(const void* p, size_t n) {
  if (!g_model) return __real_munlock(p, n);
  ++g_munlocks;
  if (g_munlock_fail) { errno = ENOMEM; return -1; }
  return 0;
}
}
static int g_create_fail;
namespace tcmalloc {
void* AddressRegionFactory::MallocInternal(size_t n) {
  static char buf[1 << 16];
  static size_t at;
  static uint64_t run = -1;
  extern uint64_t g_exec;
  if (run != g_exec) { run = g_exec; at = 0; }
  if (g_create_fail > 0 && --g_create_fail == 0) { g_refused = true; return nullptr; }
  at = (at + 63) & ~size_t{63};
  if (at + n > sizeof buf) vx::fail("harness error: MallocInternal");
  void* r = buf + at;
  at += n;
  return r;
}
uint64_t g_exec;
}

struct Topo {
  static constexpr size_t kNumPartitions = 1;
  bool numa_aware() const { return false; }
  NumaBindMode bind_mode() const { return NumaBindMode::kNone; }
  uint64_t GetPartitionNodes(int) const { return 0; }
};
static const Topo g_topo;
typedef SystemAllocator<Topo, 2> SA;
static constexpr size_t kMin = 8 << 20;  // size of a region
alignas(64) static char g_sa[sizeof(SA)];

static const MemoryTag kTags[] = {MemoryTag::kNormal, MemoryTag::kCold, MemoryTag::kSampled, MemoryTag::kNormalP1, MemoryTag::kMetadata, MemoryTag::kSampledP1};

static u hint_for(u seed, size_t align, MemoryTag tag) {
  u r = ExponentialBiased::NextRandom(seed);
  u a = r & ((u{1} << (kAddressBits - 1)) - 1) & ~(align - 1) & ~kTagMask;
  return a | (static_cast<u>(tag) << kTagShift);
}
// A seed whose first placement of a region lies `slots` regions before the end
// of the tag's address range.
static u seed_at_end(int slots) {
  static u memo[4];
  if (memo[slots]) return memo[slots];
  for (u s = u{0x7f0000000000};; s += 4096) {
    u a = hint_for(s, kMin, MemoryTag::kNormal);
    if ((a & ((u{1} << kTagShift) - 1)) == (u{1} << kTagShift) - slots * kMin) return memo[slots] = s;
  }
}

struct Got { u a, e; size_t want; MemoryTag tag; };
static Got g_got[64];
static int g_ngot;

static SA* start(u seed) {
  ++tcmalloc::g_exec;
  g_nmap = g_nopen = g_ngot = g_nadv = 0;
  g_faults_mmap = g_faults_prot = g_collide = g_create_fail = 0;
  g_skip_mmap = g_skip_prot = g_skip_collide = 0;
  memset(g_adv_fail, 0, sizeof g_adv_fail);
  g_seed = seed;
  g_model = true;
  return new (g_sa) SA(g_topo, kMin);
}

static bool request(SA* sa, size_t bytes, size_t align, MemoryTag tag) {
  g_refused = false;
  errno = 77;
  AddressRange r = sa->Allocate(bytes, align, tag);
  vx::step();
  u a = reinterpret_cast<u>(r.ptr);
  if (!a) {
    // only a refusal or an impossible request is an excuse
    bool impossible = bytes > (size_t{1} << kTagShift) || align > (size_t{1} << kTagShift);
    if (bytes == (size_t{1} << kTagShift) && g_nmap > 1) impossible = true;  // the only places are taken
    VX_CHECK(g_refused || impossible, "Allocate(%zu, %zu) failed although nothing was refused", bytes, align);
    return false;
  }
  size_t n = r.bytes;
  VX_CHECK(n >= bytes && n > 0, "Allocate(%zu, %zu) returned only %zu bytes", bytes, align, n);
  VX_CHECK(a % (align ? align : 4096) == 0, "Allocate(%zu, %zu) returned %p", bytes, align, r.ptr);
  VX_CHECK(GetMemoryTag(r.ptr) == tag && GetMemoryTag(reinterpret_cast<void*>(a + n - 1)) == tag,
           "Allocate(%zu, %zu, tag %d) returned [%p, +%zu), tagged %d..%d", bytes, align, (int)tag, r.ptr, n, (int)GetMemoryTag(r.ptr), (int)GetMemoryTag(reinterpret_cast<void*>(a + n - 1)));
  VX_CHECK((a + n) <= (u{1} << (kAddressBits - 1)), "address %p lies outside of user space", r.ptr);
  for (int i = 0; i < g_ngot; ++i)
    VX_CHECK(a + n <= g_got[i].a || g_got[i].e <= a, "[%p, +%zu) overlaps memory handed out before", r.ptr, n);
  // accessible, one mapping
  u at = a;
  for (bool more = true; more && at < a + n;) {
    more = false;
    for (int k = 0; k < g_nopen; ++k)
      if (g_open[k].a <= at && at < g_open[k].e) { at = g_open[k].e; more = true; }
  }
  VX_CHECK(at >= a + n, "[%p, +%zu) is not wholly accessible", r.ptr, n);
  bool in = false;
  for (int i = 0; i < g_nmap; ++i) in |= g_map[i].ours && g_map[i].a <= a && a + n <= g_map[i].e;
  VX_CHECK(in, "[%p, +%zu) does not lie inside one mapping", r.ptr, n);
  VX_CHECK(g_ngot < 64, "harness error");
  g_got[g_ngot++] = {a, a + n, bytes, tag};
  return true;
}

static const size_t kSizes[] = {2 << 20, 1, 3 << 20, (6 << 20) + 1, kMin, kMin + 1, 20 << 20, 4097, size_t{1} << kTagShift, (size_t{1} << kTagShift) + 1, SIZE_MAX - 4096, SIZE_MAX, size_t{1} << 30};
static const size_t kAligns[] = {0, 4096, 2 << 20, 4 << 20, kMin, 2 * kMin, size_t{1} << 32};

static void check_used(SA* sa, bool all = true) {
  // whatever happened, ordinary requests are served afterwards
  g_faults_mmap = g_faults_prot = g_collide = 0;
  g_create_fail = 0;
  for (int t = 0; t < (all ? 6 : 2); ++t)
    for (int i = 0; i < (all ? 2 : 1); ++i)
      VX_CHECK(request(sa, (3 << 20) - 4096 * i, 2 << 20, kTags[t]), "a request is refused after the trouble is over");
}

static void histories() {
  int where = choose(2);
  u seed = where == 3 ? 0x7f1234567000 : seed_at_end(where + 1);
  SA* sa = start(seed);
  int depth = vx::thorough() ? 4 : 3;
  uint64_t h = where;
  for (int d = 0; d < depth; ++d) {
    static const int kS[] = {0, 3, 5, 2, 1, 6}, kA[] = {0, 4, 5, 3};
    int s = kS[choose(d == 0 ? 6 : 5)], al = kA[choose(d == 0 ? 4 : 2)], tg = d == 0 ? 0 : choose(2);
    // one trouble per history at most is chosen at each step
    int tr = choose(d == depth - 1 ? 6 : 3);
    g_faults_mmap = tr == 1; g_faults_prot = tr == 2; g_collide = tr == 3 ? 1 : tr == 4 ? 5 : 0; g_create_fail = tr == 5;
    g_skip_mmap = g_skip_prot = g_skip_collide = 0;
    vx::op("Allocate(%zu, %zu, tag %d)%s", kSizes[s], kAligns[al], (int)kTags[tg], tr == 1 ? " mmap refused" : tr == 2 ? " mprotect refused" : tr == 3 ? " address taken" : tr == 4 ? " five addresses taken" : tr == 5 ? " no metadata" : "");
    h = vx::mix(vx::mix(h, s * 8 + al), tg * 8 + tr);
    vx::state(h);
    request(sa, kSizes[s], kAligns[al], kTags[tg]);
  }
  check_used(sa, false);
  g_model = false;
}
// Every request by itself and twice, every tag, with the refusals at each call.
static void single() {
  SA* sa = start(choose(2) ? seed_at_end(1) : 0x7f1234567000);
  int s = choose(13), al = choose(7), tg = choose(6), first = choose(2);
  int what = choose(5), skip = choose(3), count = choose(3);
  if (first) { g_faults_mmap = 0; request(sa, 5 << 20, 0, kTags[tg]); }
  int n = count == 2 ? -1 : count + 1;
  if (what == 1) { g_faults_mmap = n; g_skip_mmap = skip; }
  if (what == 2) { g_faults_prot = n; g_skip_prot = skip; }
  if (what == 3) { g_collide = n < 0 ? 40 : n; g_skip_collide = skip; }
  if (what == 4) g_create_fail = 1 + skip;
  vx::op("Allocate(%zu, %zu, tag %d) twice, trouble %d after %d x%d", kSizes[s], kAligns[al], (int)kTags[tg], what, skip, n);
  vx::state(vx::mix(vx::mix(s * 8 + al, tg), vx::mix(what * 16 + skip * 4 + count, g_seed + first)));
  request(sa, kSizes[s], kAligns[al], kTags[tg]);
  request(sa, kSizes[s], kAligns[al], kTags[tg]);
  check_used(sa);
  g_model = false;
}
// A kernel that does not know MAP_FIXED_NOREPLACE places the mapping elsewhere.
static void old_kernel() {
  g_old_kernel = true;
  histories();
}

// ---- giving memory back ---------------------------------------------------------
static void release() {
  SA* sa = start(0x7f1234567000);
  static const u kOff[] = {0, 1, 4095, 4096, 4097, 8192, 12288};
  u base = u{0x4} << kTagShift | (u{64} << 30);
  u s = base + kOff[choose(7)], e = base + 4 * 4096 + kOff[choose(7)] - 4096 * choose(5);
  if (e < s) { g_model = false; return; }
  int pref = choose(4), f0 = choose(4), f1 = choose(3), f2 = choose(4);
  g_munlock_fail = choose(2);
  static const MadvisePreference kPref[] = {MadvisePreference::kDontNeed, MadvisePreference::kFreeAndDontNeed, MadvisePreference::kFreeOnly, MadvisePreference::kNever};
  sa->set_madvise_preference(kPref[pref]);
  VX_CHECK(sa->madvise_preference() == kPref[pref], "madvise preference is not kept");
  // MADV_REMOVE: ok, EINVAL for ever, EAGAIN twice then ok, EAGAIN once then ENOMEM (approximated by one EAGAIN)
  auto set = [](int k, int f) { g_adv_fail[k] = f == 0 ? 0 : f == 1 ? -1 : f == 2 ? 2 : 1; g_adv_errno[k] = f == 1 ? EINVAL : f == 2 ? EAGAIN : EINVAL; };
  set(0, f0);
  set(1, f1);
  set(2, f2);
  vx::op("Release(base+%zu, %zu) preference %d, madvise outcomes %d %d %d", (size_t)(s - base), (size_t)(e - s), pref, f0, f1, f2);
  vx::state(vx::mix(vx::mix(s, e), pref * 1000 + f0 * 100 + f1 * 10 + f2));
  int err0 = sa->release_errors();
  errno = 77;
  g_nadv = 0;
  MemoryModifyStatus st = sa->Release(reinterpret_cast<void*>(s), e - s);
  vx::step();
  VX_CHECK(errno == 77, "Release changed errno");
  u ws = (s + 4095) & ~u{4095}, we = e & ~u{4095};
  for (int i = 0; i < g_nadv; ++i)
    if (kind(g_adv[i].adv) < 3 && g_adv[i].n == 4096 && g_adv[i].a != ws) { /* probe for DONTNEED_LOCKED on its own page */ }
  int last = -1;
  for (int i = 0; i < g_nadv; ++i) {
    if (g_adv[i].a >= (u{0x7f} << 40)) continue;  // the probe's own page
    VX_CHECK(g_adv[i].a == ws && g_adv[i].a + g_adv[i].n == we, "madvise(%#zx, %zu) for a release of [%#zx, %#zx): only whole pages, and all of them, may be given back",
             (size_t)g_adv[i].a, g_adv[i].n, (size_t)s, (size_t)e);
    last = i;
  }
  if (we <= ws) {
    VX_CHECK(!st.success && last < 0, "nothing to release, but success was reported or madvise called");
  } else {
    bool any = false;
    for (int i = 0; i < g_nadv; ++i) any |= g_adv[i].a == ws && g_adv[i].rc == 0;
    VX_CHECK(last >= 0, "nothing was given back");
    VX_CHECK(st.success == (g_adv[last].rc == 0), "the system's last answer was %s, Release reported %s", g_adv[last].rc == 0 ? "yes" : "no", st.success ? "success" : "failure");
    // an immediate refusal of one method is followed by the next one the preference allows
    if (!st.success) {
      bool tried_dont = false, tried_free = false;
      for (int i = 0; i < g_nadv; ++i) { if (g_adv[i].a != ws) continue; tried_dont |= kind(g_adv[i].adv) == 2; tried_free |= g_adv[i].adv == MADV_FREE; }
      VX_CHECK(tried_dont == (pref < 2) && tried_free == (pref == 1 || pref == 2), "failure reported without trying what preference %d allows", pref);
    }
    VX_CHECK(sa->release_errors() == err0 + !st.success, "release errors %d -> %d, success %d", err0, sa->release_errors(), st.success);
  }
  // Collapse
  g_nadv = 0;
  int cf = choose(4);
  g_adv_fail[3] = cf == 0 ? 0 : cf == 1 ? -1 : cf == 2 ? 2 : 1;
  g_adv_errno[3] = cf == 1 ? EINVAL : cf == 2 ? EAGAIN : EINTR;
  st = sa->Collapse(reinterpret_cast<void*>(base), 2 << 20);
  VX_CHECK(g_nadv >= 1 && st.success == (g_adv[g_nadv - 1].rc == 0), "Collapse reported %d", st.success);
  VX_CHECK(st.success || st.error_number == g_adv_errno[3], "Collapse reported error %d", st.error_number);
  VX_CHECK(errno == 77, "Collapse changed errno");
  g_model = false;
}

int main(int argc, char** argv) {
  int dn = open("/dev/null", O_WRONLY);
  bool replay = false;
  for (int i = 1; i < argc; ++i) replay |= strcmp(argv[i], "--replay") == 0;
  if (!replay) dup2(dn, 2);
  for (int i = 1; i <= 3; ++i) seed_at_end(i);
  static const vx::Scenario sc[] = {{"requests", single, 500}, {"histories", histories, 500}, {"old kernel", old_kernel, 500}, {"release", release, 500}};
  return vx::explore_main(argc, argv, sc, 4);
}

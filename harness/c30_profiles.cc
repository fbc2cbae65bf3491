// C30 / C45 (-DVERIF_C45): profiles against a model of the sampled allocations.
#include <math.h>
#include <optional>
#include "lib/e2e.h"
#include "tcmalloc/sampler.h"
#include "tcmalloc/allocation_sampling.h"
using namespace e2e;
using vx::choose;
using tcmalloc::Profile;
using tcmalloc::ProfileType;
using tcmalloc::tcmalloc_internal::Sampler;
using tcmalloc::tcmalloc_internal::Parameters;

// ---- a clock we control -----------------------------------------------------
static int64_t g_now = 1000000000000000000;
extern "C" absl::Time __wrap__ZN4absl7debian33NowEv() { return absl::FromUnixNanos(g_now); }

// Every sampled block made by a body has a size of its own.
struct Samp {
  char* p;
  size_t req, align, alloc, weight;   // align 0: none recorded
  bool live;
  int64_t born, died;
  int thread_born, thread_died;
  uint32_t alive_mask;                // allocation profiles that should contain it
};
static Samp g_s[512];
static int g_ns;
static int g_thread;
static bool g_guarded;
static size_t g_lo = 0, g_hi = 0;     // sizes used by this execution: [lo, hi)

static int find_live(void* p) {
  for (int i = g_ns - 1; i >= 0; --i)
    if (g_s[i].live && g_s[i].p == p) return i;
  return -1;
}
static uint32_t g_tokens;             // allocation profiles being taken
static int note(void* p, size_t req, size_t align, size_t weight) {
  if (g_ns == 512) vx::fail("harness error: too many samples");
  g_s[g_ns] = {static_cast<char*>(p), req, align, MallocExtension_Internal_GetAllocatedSize(p), weight, true, g_now, 0, g_thread, -1, g_tokens};
  return g_ns++;
}
static size_t uniq(size_t n) {        // an odd size not used so far
  n |= 1;
  for (int i = 0; i < g_ns; ++i)
    if (g_s[i].req == n) { n += 2; i = -1; }
  return n;
}
static void gone(void* p) {
  int i = find_live(p);
  if (i < 0) vx::fail("harness error: unknown sample");
  g_s[i].live = false;
  g_s[i].died = g_now;
  g_s[i].thread_died = g_thread;
}
static bool ours(size_t req) { return req >= g_lo && req < g_hi; }

static void check_sample(const Profile::Sample& s, const Samp& m, const char* what) {
  if (!g_guarded)
    VX_CHECK(s.allocated_size == m.alloc, "%s: block of %zu bytes: allocated size %zu, usable %zu", what, m.req, s.allocated_size, m.alloc);
  else
    VX_CHECK(s.allocated_size >= m.req, "%s: block of %zu bytes: allocated size %zu", what, m.req, s.allocated_size);
  VX_CHECK(s.requested_alignment.has_value() == (m.align != 0), "%s: block of %zu bytes: an alignment is %srecorded", what, m.req, m.align ? "not " : "");
  if (m.align)
    VX_CHECK(static_cast<size_t>(*s.requested_alignment) == m.align, "%s: block of %zu bytes, alignment %zu: recorded as %zu", what, m.req, m.align, static_cast<size_t>(*s.requested_alignment));
  double n = (double)m.weight / (m.req + 1);
  int64_t cnt = s.allocated_size ? (int64_t)(n + 0.5 + 1e-9) : 1;
  int64_t c2 = s.allocated_size ? (int64_t)(n + 0.5 - 1e-6) : 1;
  VX_CHECK(s.count == cnt || s.count == c2 || (cnt == 0 && s.count <= 1), "%s: block of %zu bytes with weight %zu: count %lld, expected %lld", what, m.req, m.weight, (long long)s.count, (long long)cnt);
  VX_CHECK(s.sum == s.count * (int64_t)s.allocated_size, "%s: sum %lld", what, (long long)s.sum);
}
// The profile must contain exactly the samples selected by `want`.
template <typename W>
static void check_profile(const Profile& prof, const char* what, bool addresses, W want) {
  static bool seen[512];
  memset(seen, 0, sizeof seen);
  prof.Iterate([&](const Profile::Sample& s) {
    if (!ours(s.requested_size)) return;
    int at = -1;
    for (int i = 0; i < g_ns; ++i)
      if (g_s[i].req == s.requested_size && !seen[i] && want(g_s[i])) {
        // several blocks of one size: tell them apart by address where possible
        if (addresses && s.span_start_address != g_s[i].p && !g_guarded) continue;
        at = i;
        break;
      }
    VX_CHECK(at >= 0, "%s contains a block of %zu bytes that it should not contain (or twice)", what, s.requested_size);
    seen[at] = true;
    check_sample(s, g_s[at], what);
  });
  for (int i = 0; i < g_ns; ++i)
    if (want(g_s[i]) && !seen[i]) vx::fail("%s does not contain the block of %zu bytes", what, g_s[i].req);
  vx::step();
}
static void check_heap() {
  Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
  check_profile(p, "the heap profile", true, [](const Samp& s) { return s.live; });
}

// Sampling interval 1, in force on this thread.
static void start(ssize_t iv, size_t lo, size_t hi) {
  Parameters::set_profile_sampling_interval(iv);
  Sampler& s = tcmalloc::tcmalloc_internal::GetThreadSampler();
  for (int i = 0; i < 4000 && iv > 0 && !s.WillRecordAllocation(64 * (size_t)iv); ++i) free(malloc(100 << 10));
  for (int i = 0; i < 3; ++i) free(malloc(iv > 0 ? iv * 64 : 64));
  g_ns = 0;
  g_lo = lo;
  g_hi = hi;
  g_tokens = 0;
}

// ---- every entry point and release ------------------------------------------------
static void entries() {
  init();
  pin(0);
  int e = choose(kNumAllocs);
  static const size_t kS[] = {0, 1, 8, 100, 1024, 5000, 30001, kMaxSize - 3, kMaxSize + 1, 1 << 20};
  size_t n = kS[choose(10)];
  size_t al = 0;
  if (kAllocs[e].aligned) {
    static const size_t kA[] = {8, 64, 8192, 65536};
    al = kA[choose(4)];
    if (n == 0) n = 1;
  }
  int f = choose(kNumFrees);
  Block b{nullptr, n, 0, al, e, 0};
  if (!free_matches(kFrees[f], b)) return;
  g_guarded = choose(2);
  MallocExtension::SetGuardedSamplingInterval(g_guarded ? 0 : -1);
  vx::op("%s(%zu, %zu), %s%s", kAllocs[e].name, n, al, kFrees[f].name, g_guarded ? ", guarded" : "");
  vx::state(vx::mix(vx::mix(e, n), vx::mix(al, f * 2 + g_guarded)));
  start(1, n, n + 1);
  int base = 0;
  {  // anything of this size that is live already is not ours
    Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
    p.Iterate([&](const Profile::Sample& s) { base += s.requested_size == n; });
  }
  auto count = [&](const Profile& p) { int c = 0; p.Iterate([&](const Profile::Sample& s) { c += s.requested_size == n; }); return c; };
  auto tok = MallocExtension::StartAllocationProfiling();
  Got g = kAllocs[e].fn({n, al});
  VX_CHECK(g.p, "%s(%zu) failed", kAllocs[e].name, n);
  // malloc and its like align for any object, and say so
  Samp m{static_cast<char*>(g.p), n, al || kAllocs[e].fam != kMallocFam ? al : alignof(std::max_align_t), MallocExtension_Internal_GetAllocatedSize(g.p), n + 1, true, 0, 0, 0, 0, 0};
  Profile pa = std::move(tok).Stop();
  int inalloc = 0;
  pa.Iterate([&](const Profile::Sample& s) {
    if (s.requested_size != n) return;
    ++inalloc;
    // a profile's own bookkeeping may have the same size
    if (base == 0 && inalloc == 1) check_sample(s, m, "the allocation profile");
  });
  VX_CHECK(inalloc >= 1, "the allocation profile does not contain %s(%zu)", kAllocs[e].name, n);
  if (base == 0) {
    Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
    int c = count(p);
    VX_CHECK(c == 1, "the heap profile contains %s(%zu) %d times", kAllocs[e].name, n, c);
    p.Iterate([&](const Profile::Sample& s) { if (s.requested_size == n) check_sample(s, m, "the heap profile"); });
  }
  kFrees[f].fn(g.p, n, al ? al : 8);
  Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
  VX_CHECK(count(p) <= base, "the heap profile still contains %s(%zu) released by %s", kAllocs[e].name, n, kFrees[f].name);
  vx::step(4);
  MallocExtension::SetGuardedSamplingInterval(-1);
  g_guarded = false;
  Parameters::set_profile_sampling_interval(0);
}

// ---- histories ------------------------------------------------------------------------
static Helper g_h;
static const size_t kBase[] = {40, 700, 3000, 20000, 300000, 1500000};
static void history_impl(int kinds, bool guard) {
  init();
  pin(0);
  helper_start(g_h);
  g_guarded = guard;
  MallocExtension::SetGuardedSamplingInterval(guard ? 0 : -1);
  start(1, 0, 0);
  std::optional<MallocExtension::AllocationProfilingToken> tok[2];
  // sizes 16k+5 .. are ours: bookkeeping structures have multiples of 8
  uint64_t h = kinds * 2 + guard;
  int depth = vx::thorough() ? 6 : rseq_possible() ? 5 : 4;
  auto mine = [&](int kind) {
    // distinct odd sizes; bookkeeping has even ones
    size_t n = uniq(kBase[kind]);
    return n;
  };
  auto in = [](const Profile& p, const char* what, auto want) {
    static bool seen[512];
    memset(seen, 0, sizeof seen);
    p.Iterate([&](const Profile::Sample& s) {
      if (!(s.requested_size & 1)) return;
      int at = -1;
      for (int i = 0; i < g_ns; ++i)
        if (g_s[i].req == s.requested_size) at = i;
      if (at < 0) return;   // left over from the allocator's start
      VX_CHECK(want(g_s[at]), "%s contains the block of %zu bytes", what, s.requested_size);
      VX_CHECK(!seen[at], "%s contains the block of %zu bytes twice", what, s.requested_size);
      seen[at] = true;
      check_sample(s, g_s[at], what);
    });
    for (int i = 0; i < g_ns; ++i)
      if (want(g_s[i]) && !seen[i]) vx::fail("%s does not contain the block of %zu bytes", what, g_s[i].req);
    vx::step();
  };
  for (int d = 0; d < depth; ++d) {
    int o = choose(10);
    h = vx::mix(h, o);
    switch (o) {
      case 0: case 1: case 2: {
        size_t n = mine(kinds * 3 + o);
        vx::op("allocate %zu", n);
        size_t al = o == 1 ? 64 : 16;
        void* p = o == 1 ? memalign(64, n) : malloc(n);
        note(p, n, al, n + 1);
        break;
      }
      case 3: case 4: {
        int i = -1;
        if (o == 3) { for (int k = 0; k < g_ns; ++k) if (g_s[k].live) { i = k; break; } }
        else for (int k = g_ns - 1; k >= 0; --k) if (g_s[k].live) { i = k; break; }
        if (i < 0) continue;
        vx::op("free %zu", g_s[i].req);
        free(g_s[i].p);
        gone(g_s[i].p);
        break;
      }
      case 5: case 6: {
        int i = -1;
        for (int k = g_ns - 1; k >= 0; --k) if (g_s[k].live) { i = k; break; }
        if (i < 0) continue;
        size_t n = o == 5 ? mine(kinds * 3 + 2) : uniq(g_s[i].req / 2);
        vx::op("realloc %zu to %zu", g_s[i].req, n);
        char* old = g_s[i].p;
        char* q = static_cast<char*>(realloc(old, n));
        if (q != old) {
          gone(old);
          note(q, n, 16, n + 1);
        }
        break;
      }
      case 7: {
        int i = -1;
        for (int k = 0; k < g_ns; ++k) if (g_s[k].live) { i = k; break; }
        if (i < 0) continue;
        vx::op("another thread frees %zu", g_s[i].req);
        helper_run(g_h, [](void* p) { free(p); }, g_s[i].p);
        gone(g_s[i].p);
        break;
      }
      default: {
        int t = o - 8;
        vx::op("%s allocation profile %d", tok[t] ? "stop" : "start", t);
        if (!tok[t]) {
          tok[t].emplace(MallocExtension::StartAllocationProfiling());
          g_tokens |= 1u << t;
          for (int k = 0; k < g_ns; ++k) g_s[k].alive_mask &= ~(1u << t);
        } else {
          g_tokens &= ~(1u << t);
          Profile p = std::move(*tok[t]).Stop();
          tok[t].reset();
          in(p, "the allocation profile", [t](const Samp& s) { return s.alive_mask >> t & 1; });
          for (int k = 0; k < g_ns; ++k) g_s[k].alive_mask &= ~(1u << t);
        }
      }
    }
    vx::step();
    Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
    in(p, "the heap profile", [](const Samp& s) { return s.live; });
    vx::state(h);
  }
  for (int t = 0; t < 2; ++t)
    if (tok[t]) {
      g_tokens &= ~(1u << t);
      Profile p = std::move(*tok[t]).Stop();
      in(p, "the allocation profile", [t](const Samp& s) { return s.alive_mask >> t & 1; });
      tok[t].reset();
    }
  for (int k = 0; k < g_ns; ++k)
    if (g_s[k].live) { free(g_s[k].p); g_s[k].live = false; }
  Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
  in(p, "the heap profile", [](const Samp& s) { return false; });
  MallocExtension::SetGuardedSamplingInterval(-1);
  g_guarded = false;
  Parameters::set_profile_sampling_interval(0);
}
static void history0() { history_impl(0, false); }
static void history1() { history_impl(1, false); }
static void historyg() { history_impl(0, true); }

// ---- not every allocation sampled: weights ------------------------------------------------
static ssize_t left(Sampler& s) {
  if (s.WillRecordAllocation(0)) return -1;
  size_t lo = 0, hi = SIZE_MAX / 2 - 1;
  if (!s.WillRecordAllocation(hi)) return hi;
  while (hi - lo > 1) {
    size_t m = lo + (hi - lo) / 2;
    if (s.WillRecordAllocation(m)) hi = m; else lo = m;
  }
  return lo;
}
static void weights() {
  init();
  pin(0);
  static const ssize_t kIv[] = {64, 1000, 30000, 1 << 20};
  ssize_t iv = kIv[choose(4)];
  static const size_t kS[] = {7, 101, 1001, 9001, 70001, 400001};
  size_t n = kS[choose(6)];
  int every = choose(3);
  vx::op("interval %zd, blocks of %zu, freeing %s", iv, n, every == 0 ? "none" : every == 1 ? "every other" : "all but the last");
  vx::state(vx::mix(iv, n * 4 + every));
  start(iv, n, n + 1);
  Sampler& s = tcmalloc::tcmalloc_internal::GetThreadSampler();
  int reps = n > 50000 ? 40 : 150;
  void* all[150];
  for (int i = 0; i < reps; ++i) {
    ssize_t room = left(s) + 1;
    bool will = (ssize_t)n >= room;
    all[i] = malloc(n);
    if (will) note(all[i], n, 16, iv + n - room);
  }
  auto check = [&](const char* when) {
    Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap);
    check_profile(p, when, true, [](const Samp& s) { return s.live; });
  };
  check("the heap profile");
  for (int i = 0; i < reps; ++i) {
    if (every == 0 || (every == 1 && i % 2) || (every == 2 && i == reps - 1)) continue;
    int k = find_live(all[i]);
    free(all[i]);
    if (k >= 0) g_s[k].live = false;
    all[i] = nullptr;
  }
  check("the heap profile after releases");
  for (int i = 0; i < reps; ++i)
    if (all[i]) {
      int k = find_live(all[i]);
      free(all[i]);
      if (k >= 0) g_s[k].live = false;
    }
  check("the heap profile after all releases");
  Parameters::set_profile_sampling_interval(0);
}
// Disabled: nothing new appears.
static void disabled() {
  init();
  static const size_t kS[] = {7, 101, 70001, 400001};
  size_t n = kS[choose(4)];
  vx::op("sampling off, blocks of %zu", n);
  vx::state(n);
  start(1, n, n + 1);
  void* a = malloc(n);
  note(a, n, 16, n + 1);
  Parameters::set_profile_sampling_interval(choose(2) ? 0 : -1);
  auto tok = MallocExtension::StartAllocationProfiling();
  void* b[20];
  for (auto& p : b) p = malloc(n);
  Profile pa = std::move(tok).Stop();
  check_profile(pa, "the allocation profile", false, [](const Samp&) { return false; });
  check_heap();
  for (auto& p : b) free(p);
  free(a);
  g_s[0].live = false;
  check_heap();
}

// ---- C45: lifetimes ------------------------------------------------------------------------
static absl::Duration bucket(int64_t ns) {
  // "below 1ns: 1ns; up to 1ms: the next smaller power of ten; above: milliseconds"
  if (ns <= 1) return absl::Nanoseconds(1);
  if (ns < 1000000) {
    int64_t b = 1;
    while (b * 10 <= ns) b *= 10;
    return absl::Nanoseconds(b);
  }
  return absl::Nanoseconds(ns / 1000000 * 1000000);
}
static void check_lifetimes(const Profile& p, int64_t end, const bool* inside, const bool* before) {
  static int na[512], nd[512];
  memset(na, 0, sizeof na);
  memset(nd, 0, sizeof nd);
  int last = -1;
  uint64_t last_id = 0;
  p.Iterate([&](const Profile::Sample& s) {
    if (!(s.requested_size & 1)) { last = -1; return; }
    int at = -1;
    for (int i = 0; i < g_ns; ++i)
      if (g_s[i].req == s.requested_size) at = i;
    if (at < 0) { last = -1; return; }
    const Samp& m = g_s[at];
    VX_CHECK(inside[at], "the lifetime profile contains the block of %zu bytes, which was not live during the session", m.req);
    bool censored = m.live || m.died > end || (m.died == end && m.live);
    int64_t life = (censored ? end : m.died) - m.born;
    VX_CHECK(s.is_censored == censored, "block of %zu bytes is reported as %s", m.req, s.is_censored ? "still live" : "released");
    VX_CHECK(s.avg_lifetime == bucket(life) && s.min_lifetime == bucket(life) && s.max_lifetime == bucket(life),
             "block of %zu bytes lived %lld ns; reported average %lld min %lld max %lld", m.req, (long long)life,
             (long long)absl::ToInt64Nanoseconds(s.avg_lifetime), (long long)absl::ToInt64Nanoseconds(s.min_lifetime), (long long)absl::ToInt64Nanoseconds(s.max_lifetime));
    VX_CHECK(s.stddev_lifetime == absl::Nanoseconds(1), "one lifetime, but a deviation of %lld ns", (long long)absl::ToInt64Nanoseconds(s.stddev_lifetime));
    VX_CHECK(s.allocated_size == m.alloc, "block of %zu bytes: allocated size %zu, usable %zu", m.req, s.allocated_size, m.alloc);
    if (s.count > 0) {
      VX_CHECK(s.count == 1 && s.sum == (int64_t)m.alloc, "block of %zu bytes: count %lld", m.req, (long long)s.count);
      VX_CHECK(++na[at] == 1, "block of %zu bytes is reported twice", m.req);
      last = at;
      last_id = s.profile_id;
    } else {
      VX_CHECK(s.count == -1, "block of %zu bytes: release count %lld", m.req, (long long)s.count);
      VX_CHECK(last == at && last_id == s.profile_id, "the release of the block of %zu bytes is paired with another allocation", m.req);
      VX_CHECK(!censored, "release of a live block");
      VX_CHECK(++nd[at] == 1, "the release of the block of %zu bytes is reported twice", m.req);
      // (for blocks that were live at the start the profiler only knows the thread that started it)
      VX_CHECK(s.allocator_deallocator_thread_matched.has_value(), "no same-thread flag");
      VX_CHECK(before[at] || *s.allocator_deallocator_thread_matched == (m.thread_born == m.thread_died),
               "block of %zu bytes: same-thread flag", m.req);
    }
  });
  for (int i = 0; i < g_ns; ++i) {
    if (!inside[i]) continue;
    VX_CHECK(na[i] == 1, "the lifetime profile does not contain the block of %zu bytes", g_s[i].req);
    bool censored = g_s[i].live;
    VX_CHECK(nd[i] == !censored, "the block of %zu bytes has %d releases in the lifetime profile", g_s[i].req, nd[i]);
  }
  vx::step();
}
static void check_events(const Profile& p, const bool* inside) {
  static int na[512], nd[512];
  memset(na, 0, sizeof na);
  memset(nd, 0, sizeof nd);
  static uint64_t handle[512];
  p.Iterate([&](const Profile::Sample& s) {
    if (!(s.requested_size & 1)) return;
    int at = -1;
    for (int i = 0; i < g_ns; ++i)
      if (g_s[i].req == s.requested_size) at = i;
    if (at < 0) return;
    const Samp& m = g_s[at];
    VX_CHECK(inside[at], "the event trace contains the block of %zu bytes, which was not live during the session", m.req);
    VX_CHECK(s.count == 1 || s.count == -1, "event count");
    int64_t t = absl::ToUnixNanos(s.allocation_time);
    if (s.count == 1) {
      VX_CHECK(++na[at] == 1, "the allocation of the block of %zu bytes is reported twice", m.req);
      VX_CHECK(t == m.born, "the allocation of the block of %zu bytes was %lld ns off", m.req, (long long)(t - m.born));
      VX_CHECK(s.sum == (int64_t)m.alloc, "event size");
      handle[at] = static_cast<uint64_t>(s.alloc_handle);
    } else {
      VX_CHECK(!m.live, "release of a live block");
      VX_CHECK(++nd[at] == 1, "the release of the block of %zu bytes is reported twice", m.req);
      VX_CHECK(na[at] == 1 && handle[at] == static_cast<uint64_t>(s.alloc_handle), "the release of the block of %zu bytes is not paired with its allocation", m.req);
      VX_CHECK(t == m.died, "the release of the block of %zu bytes was %lld ns off", m.req, (long long)(t - m.died));
    }
  });
  for (int i = 0; i < g_ns; ++i)
    if (inside[i]) {
      VX_CHECK(na[i] == 1, "the event trace does not contain the block of %zu bytes", g_s[i].req);
      VX_CHECK(nd[i] == !g_s[i].live, "the event trace: releases of the block of %zu bytes", g_s[i].req);
    }
  vx::step();
}
static const int64_t kStep[] = {0, 7, 999999, 1000000, 1999999, 3600ll * 1000000000};
static void lifetimes_impl(int kinds, int mode) {
  init();
  pin(0);
  helper_start(g_h);
  start(1, 0, 0);
  static bool inside[2][512], before[2][512];
  memset(inside, 0, sizeof inside);
  memset(before, 0, sizeof before);
  std::optional<MallocExtension::AllocationProfilingToken> tok[2];
  bool events[2] = {mode == 1, mode == 2};
  int k0 = 0, stepi = 0;
  uint64_t h = kinds * 4 + mode;
  int depth = vx::thorough() ? 6 : rseq_possible() ? 5 : 4;
  auto stop = [&](int t) {
    Profile p = std::move(*tok[t]).Stop();
    tok[t].reset();
    if (events[t]) check_events(p, inside[t]);
    else check_lifetimes(p, g_now, inside[t], before[t]);
    memset(inside[t], 0, sizeof inside[t]);
  };
  auto made = [&](void* p, size_t n) {
    int i = note(p, n, 0, n + 1);
    for (int t = 0; t < 2; ++t) if (tok[t]) inside[t][i] = true;
  };
  for (int d = 0; d < depth; ++d) {
    int o = choose(mode == 0 ? 8 : 9);
    h = vx::mix(h, o);
    int first = -1, last = -1;
    for (int k = 0; k < g_ns; ++k)
      if (g_s[k].live) { if (first < 0) first = k; last = k; }
    switch (o) {
      case 0: case 1: {
        size_t n = kBase[kinds * 2 + o] + 2 * (k0++) + 1;
        vx::op("allocate %zu", n);
        made(malloc(n), n);
        break;
      }
      case 2: {
        size_t n = kBase[kinds * 2] + 2 * (k0++) + 1;
        vx::op("another thread allocates %zu", n);
        struct A { size_t n; void* p; } a{n, nullptr};
        helper_run(g_h, [](void* v) {
          A* a = static_cast<A*>(v);
          Sampler& s = tcmalloc::tcmalloc_internal::GetThreadSampler();
          for (int i = 0; i < 4000 && !s.WillRecordAllocation(0); ++i) free(malloc(100 << 10));
          a->p = malloc(a->n);
        }, &a);
        g_thread = 1;
        made(a.p, n);
        g_thread = 0;
        break;
      }
      case 3: case 4: {
        int i = o == 3 ? first : last;
        if (i < 0 || (o == 4 && first == last)) continue;
        vx::op("free %zu", g_s[i].req);
        free(g_s[i].p);
        gone(g_s[i].p);
        break;
      }
      case 5: {
        if (first < 0) continue;
        vx::op("another thread frees %zu", g_s[first].req);
        helper_run(g_h, [](void* p) { free(p); }, g_s[first].p);
        g_thread = 1;
        gone(g_s[first].p);
        g_thread = 0;
        break;
      }
      case 6: {
        int64_t dt = kStep[(stepi++ + d * 2 + kinds) % 6];
        vx::op("%lld ns pass", (long long)dt);
        g_now += dt;
        break;
      }
      default: {
        int t = o - 7;
        vx::op("%s %s %d", tok[t] ? "stop" : "start", events[t] ? "event trace" : "lifetime profile", t);
        if (tok[t]) stop(t);
        else {
          tok[t].emplace(events[t] ? MallocExtension::StartEventTracing() : MallocExtension::StartLifetimeProfiling());
          memset(before[t], 0, sizeof before[t]);
          for (int k = 0; k < g_ns; ++k) inside[t][k] = before[t][k] = g_s[k].live;
        }
      }
    }
    vx::step();
    vx::state(h);
  }
  g_now += 123456;
  for (int t = 0; t < 2; ++t)
    if (tok[t]) stop(t);
  for (int k = 0; k < g_ns; ++k)
    if (g_s[k].live) { free(g_s[k].p); g_s[k].live = false; }
  Parameters::set_profile_sampling_interval(0);
}
static void life0() { lifetimes_impl(0, 0); }
static void life1() { lifetimes_impl(1, 2); }
static void life2() { lifetimes_impl(2, 1); }
// Several blocks with one stack and size: aggregated figures.
static __attribute__((noinline)) void* same_alloc(size_t n) { void* p = malloc(n); asm volatile("" : "+r"(p)); return p; }
static __attribute__((noinline)) void same_free(void* p) { free(p); asm volatile(""); }
static void aggregate() {
  init();
  pin(0);  // records are kept apart by CPU
  start(1, 0, 0);
  int cnt = 1 + choose(4);
  static const size_t kS[] = {33, 1001, 400001};
  size_t n = kS[choose(3)];
  int leave = choose(3);
  if (leave > cnt) return;
  int64_t step[5];
  for (int i = 0; i < cnt; ++i) step[i] = kStep[choose(6)];
  vx::op("%d blocks of %zu, %d left", cnt, n, leave);
  auto tok = MallocExtension::StartLifetimeProfiling();
  void* p[5];
  int64_t life[5], born[5];
  for (int i = 0; i < cnt; ++i) { p[i] = same_alloc(n); born[i] = g_now; g_now += step[i]; }
  for (int i = 0; i < cnt; ++i)
    if (i >= leave) { same_free(p[i]); life[i] = g_now - born[i]; }
  Profile prof = std::move(tok).Stop();
  for (int i = 0; i < leave; ++i) life[i] = g_now - born[i];
  int64_t na = 0, nd = 0, nc = 0;
  int recs = 0;
  prof.Iterate([&](const Profile::Sample& s) {
    if (s.requested_size != n) return;
    int lo = s.is_censored ? 0 : leave, hi = s.is_censored ? leave : cnt;
    double mean = 0, mn = 1e300, mx = 0;
    for (int i = lo; i < hi; ++i) { mean += (double)life[i] / (hi - lo); mn = fmin(mn, life[i]); mx = fmax(mx, life[i]); }
    VX_CHECK(s.min_lifetime == bucket((int64_t)mn) && s.max_lifetime == bucket((int64_t)mx), "min / max lifetime of %d blocks: %lld %lld, expected around %.0f %.0f", hi - lo,
             (long long)absl::ToInt64Nanoseconds(s.min_lifetime), (long long)absl::ToInt64Nanoseconds(s.max_lifetime), mn, mx);
    absl::Duration a = s.avg_lifetime, b1 = bucket((int64_t)(mean * (1 - 1e-9) - 1)), b2 = bucket((int64_t)(mean * (1 + 1e-9) + 1));
    VX_CHECK(a >= b1 && a <= b2, "average lifetime of %d blocks: %lld, expected %.0f", hi - lo, (long long)absl::ToInt64Nanoseconds(a), mean);
    double var = 0;
    for (int i = lo; i < hi; ++i) var += (life[i] - mean) * (life[i] - mean) / (hi - lo);
    double sd = sqrt(var);
    b1 = bucket((int64_t)(sd * (1 - 1e-6) - 2));
    b2 = bucket((int64_t)(sd * (1 + 1e-6) + 1e-7 * mean + 2));
    VX_CHECK(s.stddev_lifetime >= b1 && s.stddev_lifetime <= b2, "deviation of %d lifetimes: %lld, expected %.0f", hi - lo, (long long)absl::ToInt64Nanoseconds(s.stddev_lifetime), sd);
    ++recs;
    if (s.count < 0) nd -= s.count; else if (s.is_censored) nc += s.count; else na += s.count;
  });
  VX_CHECK(na == cnt - leave && nd == cnt - leave && nc == leave, "%d blocks, %d of them left: %lld allocations, %lld releases, %lld still live", cnt, leave, (long long)na, (long long)nd, (long long)nc);
  vx::state(vx::mix(vx::mix(cnt, n), leave));
  vx::step();
  for (int i = 0; i < leave; ++i) free(p[i]);
  Parameters::set_profile_sampling_interval(0);
}

int main(int argc, char** argv) {
#ifdef VERIF_C45
  static const vx::Scenario sc[] = {{"lifetimes, small", life0, 200}, {"lifetimes and events, medium", life1, 200}, {"events and lifetimes, large", life2, 100}, {"aggregated", aggregate, 100}};
#else
  static const vx::Scenario sc[] = {{"entries", entries, 100}, {"histories, small", history0, 100}, {"histories, large", history1, 50}, {"histories, guarded", historyg, 100}, {"weights", weights, 4}, {"disabled", disabled, 4}};
#endif
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

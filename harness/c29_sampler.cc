// C29: the sampler by itself and inside the whole allocator.
#include <math.h>
#include "lib/e2e.h"
#include "tcmalloc/sampler.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/allocation_sampling.h"
using namespace e2e;
using vx::choose;
using tcmalloc::tcmalloc_internal::Sampler;
using tcmalloc::tcmalloc_internal::Parameters;

// Largest k that would not be sampled next, -1 if every allocation would.
static ssize_t left(Sampler& s) {
  if (s.WillRecordAllocation(0)) return -1;
  size_t lo = 0, hi = SIZE_MAX / 2 - 1;  // lo is not sampled
  if (!s.WillRecordAllocation(hi)) return hi;
  while (hi - lo > 1) {
    size_t m = lo + (hi - lo) / 2;
    if (s.WillRecordAllocation(m)) hi = m; else lo = m;
  }
  return lo;
}
// One allocation through one of the two recording protocols.
static size_t record(Sampler& s, size_t k, int how) {
  if (how == 0) return s.RecordAllocation(k);
  if (s.TryRecordAllocationFast(k)) return 0;
  return s.RecordedAllocationFast(k);
}
struct Model {
  ssize_t room;      // bytes that fit before the next sample
  ssize_t interval;  // in force when that distance was chosen
};
static void check_predict(Sampler& s, const Model& m) {
  // prediction agrees with the model on both sides of the threshold
  for (ssize_t d : {ssize_t{-2}, ssize_t{-1}, ssize_t{0}, ssize_t{1}, ssize_t{1000}}) {
    if (m.room + d < 0 || m.room + d > SSIZE_MAX - 2) continue;
    size_t k = m.room + d;
    bool want = d >= 0;  // k + 1 bytes do not fit into `room`
    VX_CHECK(s.WillRecordAllocation(k) == want, "with %zd bytes to go, an allocation of %zu is predicted to be %ssampled", m.room, k, want ? "un" : "");
  }
  VX_CHECK(s.WillRecordAllocation(SSIZE_MAX - 1) == (SSIZE_MAX - 1 >= m.room), "prediction for a huge allocation");
}
static void adopt_room(Sampler& s, Model& m) {
  ssize_t l = left(s);
  m.room = l + 1;
  m.interval = Parameters::profile_sampling_interval();
  if (m.interval == 1) VX_CHECK(m.room == 0, "interval 1, but %zd bytes may pass unsampled", m.room);
}
static void step_one(Sampler& s, Model& m, size_t k, int how) {
  bool want = ssize_t(k) >= m.room;  // room < k + 1
  VX_CHECK(s.WillRecordAllocation(k) == want, "prediction for %zu with %zd bytes to go: %d", k, m.room, !want);
  size_t w = record(s, k, how);
  vx::step();
  ssize_t cur = Parameters::profile_sampling_interval();
  if (!want) {
    VX_CHECK(w == 0, "an allocation of %zu was sampled with %zd bytes to go", k, m.room);
    m.room -= k + 1;
  } else {
    if (cur <= 0) VX_CHECK(w == 0, "a disabled sampler sampled");
    else if (m.interval > 0) {
      __int128 exp = (__int128)m.interval + k - m.room;
      if (exp > SSIZE_MAX) exp = SSIZE_MAX;
      VX_CHECK(w == (size_t)exp, "an allocation of %zu with %zd bytes to go, interval %zd: weight %zu, expected %zu", k, m.room, m.interval, w, (size_t)exp);
      VX_CHECK(w > 0, "sampled with no weight");
    }
    adopt_room(s, m);
  }
  check_predict(s, m);
}
static const ssize_t kIv[] = {1, 2, 3, 16, 100, 4096, 1 << 20, 2 << 20, 0, -1, ssize_t{1} << 40, ssize_t{1} << 62, SSIZE_MAX};

alignas(64) static char g_buf[sizeof(Sampler)];
static size_t pick(const Model& m, int o) {
  ssize_t x = m.room;
  switch (o) {
    case 0: return 0;
    case 1: return x >= 1 ? x - 1 : 1;      // exactly uses it up
    case 2: return x;                        // just crosses
    case 3: return x >= 2 ? x - 2 : 7;
    case 4: return x / 2;
    case 5: return x < SSIZE_MAX - 1000 ? x + 1 : x;
    case 6: return 100;
    case 7: return x < SSIZE_MAX / 2 ? x + (1 << 20) : x;
    default: return SSIZE_MAX / 4;
  }
}
static void alone() {
  init();
  int iv = choose(13);
  Parameters::set_profile_sampling_interval(kIv[iv]);
  memset(g_buf, 0, sizeof g_buf);
  Sampler& s = *new (g_buf) Sampler();
  Model m;
  uint64_t h = iv;
  {  // starts it
    size_t k0 = choose(2) ? 0 : 24;
    size_t w = record(s, k0, choose(2));
    if (kIv[iv] == 1) VX_CHECK(w == k0 + 1, "interval 1: the first allocation of %zu bytes has weight %zu", k0, w);
    if (kIv[iv] <= 0) VX_CHECK(w == 0, "a disabled sampler sampled");
    if (kIv[iv] > 1 && w) VX_CHECK(w >= (size_t)kIv[iv] && w <= (size_t)kIv[iv] + k0, "first allocation of %zu: weight %zu, interval %zd", k0, w, kIv[iv]);
  }
  m.interval = kIv[iv];
  m.room = left(s) + 1;
  int depth = vx::thorough() ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    int o = choose(9 + (d == 1 ? 4 : 0));
    int how = choose(2);
    h = vx::mix(h, o * 2 + how);
    if (o >= 9) {
      static const ssize_t kTo[] = {1, 0, 512, 1 << 30};
      vx::op("interval %zd", kTo[o - 9]);
      Parameters::set_profile_sampling_interval(kTo[o - 9]);
      continue;
    }
    size_t k = pick(m, o);
    vx::op("allocation of %zu, %zd to go", k, m.room);
    step_one(s, m, k, how);
  }
  vx::state(h);
  Parameters::set_profile_sampling_interval(0);
}
// Many samples in a row: every distance is at least as the interval asks, and
// bytes are never lost between them.
static void long_run() {
  init();
  int iv = choose(8), sz = choose(8), how = choose(2);
  static const size_t kS[] = {0, 1, 7, 8, 24, 100, 1000, 50000};
  Parameters::set_profile_sampling_interval(kIv[iv]);
  memset(g_buf, 0, sizeof g_buf);
  Sampler& s = *new (g_buf) Sampler();
  Model m;
  record(s, 24, how);
  m.interval = kIv[iv];
  m.room = left(s) + 1;
  vx::op("interval %zd, allocations of %zu", kIv[iv], kS[sz]);
  vx::state(vx::mix(iv * 8 + sz, how));
  int n = vx::thorough() ? 20000 : 2000;
  for (int i = 0; i < n; ++i) step_one(s, m, kS[(sz + i % 3) % 8], how);
  Parameters::set_profile_sampling_interval(0);
}

// ---- in the whole allocator -----------------------------------------------------
static int g_n;
static size_t g_req;
static double g_est;
static void on_sample(const tcmalloc::MallocHook::SampledAlloc& a) {
  ++g_n;
  g_req = a.requested_size;
  g_est = a.weight;
}
static void e2e_impl(ssize_t iv) {
  init();
  pin(0);
  static bool hooked;
  if (!hooked) {
    hooked = true;
    if (!tcmalloc::MallocHook::AddSampledNewHook(on_sample)) vx::fail("harness error: hook");
  }
  int e = choose(kNumAllocs);
  static const size_t kS[] = {0, 1, 8, 100, 1024, 5000, 30000, kMaxSize, kMaxSize + 1, 1 << 20};
  size_t n = kS[choose(10)];
  int av = kAllocs[e].aligned ? choose(4) : 0;
  static const size_t kA[] = {8, 64, 8192, 65536};
  size_t al = kAllocs[e].aligned ? kA[av] : 0;
  if (al && n == 0) n = 1;
  Parameters::set_profile_sampling_interval(iv);
  Sampler& s = tcmalloc::tcmalloc_internal::GetThreadSampler();
  // let the interval take effect
  for (int i = 0; i < 400 && left(s) > 64 * (iv > 0 ? iv : 1); ++i) free(malloc(1 << 20));
  for (int i = 0; i < 3; ++i) { void* p = malloc(iv > 0 ? iv * 64 : 64); free(p); }
  vx::op("%s(%zu, %zu), interval %zd", kAllocs[e].name, n, al, iv);
  vx::state(vx::mix(vx::mix(e, n), vx::mix(al, iv)));
  Model m;
  adopt_room(s, m);
  int reps = n > 100000 ? 6 : n > 5000 ? 20 : 40;
  for (int i = 0; i < reps; ++i) {
    g_n = 0;
    Got g = kAllocs[e].fn({n, al});
    VX_CHECK(g.p, "%s(%zu) failed", kAllocs[e].name, n);
    bool want = ssize_t(n) >= m.room && iv > 0;
    vx::step();
    VX_CHECK(g_n == want, "%s(%zu) with %zd bytes to go, interval %zd: %d samples", kAllocs[e].name, n, m.room, iv, g_n);
    if (want) {
      VX_CHECK(g_req == n, "sampled size %zu, requested %zu", g_req, n);
      double w = g_est * (n + 1), x = (double)m.interval + (double)n - (double)m.room;
      VX_CHECK(fabs(w - x) <= 1e-6 * x + 1e-3, "%s(%zu): weight %.1f, expected %.1f", kAllocs[e].name, n, w, x);
      adopt_room(s, m);
    } else if (iv > 0 || ssize_t(n) < m.room) {
      m.room -= n + 1;
      VX_CHECK(left(s) + 1 == m.room, "%s(%zu) took %zd bytes off the distance to the next sample", kAllocs[e].name, n, m.room + (ssize_t)n + 1 - (left(s) + 1));
    } else {
      adopt_room(s, m);
    }
    Block b{static_cast<char*>(g.p), n, 0, al, e, 0};
    int f = default_free(b);
    ssize_t l = left(s);
    kFrees[f].fn(g.p, n, al ? al : 8);
    VX_CHECK(left(s) == l, "releasing a block changed the distance to the next sample");
  }
}
static void e2e_1() { e2e_impl(1); }
static void e2e_some() { static const ssize_t v[] = {100, 5000, 200000}; e2e_impl(v[choose(3)]); }
static void e2e_off() { static const ssize_t v[] = {0, -1}; e2e_impl(v[choose(2)]); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"sampler", alone, 500}, {"long runs", long_run, 4}, {"entries, interval 1", e2e_1, 100}, {"entries", e2e_some, 100}, {"entries, disabled", e2e_off, 100}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

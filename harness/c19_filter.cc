// C19: the stack-trace filters. Histories against per-trace sums, and every
// schedule of threads adding, removing and decaying.
#include "lib/mc.h"
#include "tcmalloc/internal/stacktrace_filter.h"

namespace ti = tcmalloc::tcmalloc_internal;

static void* const kFrames[6][3] = {
    {(void*)0x1000, (void*)0x2000, (void*)0x3000}, {(void*)0x1000, (void*)0x2000, (void*)0x3001},
    {(void*)0x1000, (void*)0x2000, nullptr},       {(void*)0x7fff0000, nullptr, nullptr},
    {nullptr, nullptr, nullptr},                   {(void*)0x3000, (void*)0x2000, (void*)0x1000}};
static const int kLen[6] = {3, 3, 2, 1, 0, 3};
static absl::Span<void* const> tr(int i) { return absl::Span<void* const>(kFrames[i], kLen[i]); }

template <typename F>
F& fresh() {
  alignas(F) static char buf[sizeof(F)];
  return *new (buf) F();
}

// ---- plain filter, sequential ----
template <int kSize, int kHash>
static void plain() {
  auto& f = fresh<ti::StackTraceFilter<kSize, kHash>>();
  int sum[4] = {};
  static const int kVals[] = {1, -1, 2, -2, 300, -300};
  int depth = vx::thorough() ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    int t = vx::choose(4);
    int v = kVals[vx::choose(6)];
    if (sum[t] + v < 0) return;  // more removed than was added: not a contract
    f.Add(tr(t), v);
    sum[t] += v;
    vx::op("add(%d, %d)", t, v);
    vx::step();
    bool any = false;
    uint64_t h = kSize * 10 + kHash;
    for (int i = 0; i < 4; ++i) {
      any |= sum[i] != 0;
      h = vx::mix(h, sum[i]);
    }
    vx::state(h);
    for (int i = 0; i < 6; ++i) {
      bool c = f.Contains(tr(i));
      if (i < 4 && sum[i]) VX_CHECK(c, "trace %d with sum %d is not contained", i, sum[i]);
      if (!any) VX_CHECK(!c, "trace %d contained although every sum is zero", i);
      // far more counters than traces: no false positives with the fixed inputs
      if (kSize > 10000 && i < 4 && !sum[i]) VX_CHECK(!c, "trace %d contained although its sum is zero", i);
    }
  }
}

// ---- decaying filter, sequential ----
template <int kSize, int kHash, int kDecay>
static void decay() {
  auto& f = fresh<ti::DecayingStackTraceFilter<kSize, kHash, kDecay>>();
  int sum[3] = {};
  int ring[kDecay];
  for (int& r : ring) r = -1;
  int pos = 0;
  int depth = vx::thorough() ? 9 : 7;
  static const int kVals[] = {0, 1, 2, -1, -2};
  for (int d = 0; d < depth; ++d) {
    int o = vx::choose(7);
    if (o < 5) {
      int t = vx::choose(3);
      int v = kVals[o];
      if (sum[t] + v < 0) return;
      f.Add(tr(t), v);
      vx::op("add(%d, %d)", t, v);
      sum[t] += v;
      if (v >= 0) {
        ring[pos % kDecay] = t;
        ++pos;
      }
    } else if (o == 5) {
      f.Decay();
      vx::op("decay");
      ring[pos % kDecay] = -1;
      ++pos;
    } else {
      f.DecayAll();
      vx::op("decay all");
      for (int& r : ring) r = -1;
      pos += kDecay;
    }
    vx::step();
    int total[3];
    bool any = false;
    uint64_t h = kSize * 100 + kHash * 10 + kDecay;
    for (int i = 0; i < 3; ++i) {
      total[i] = sum[i];
      for (int r : ring) total[i] += r == i;
      any |= total[i] != 0;
      h = vx::mix(h, sum[i]);
    }
    for (int i = 0; i < kDecay; ++i) h = vx::mix(h, ring[(pos + i) % kDecay] + 2);
    h = vx::mix(h, pos % kDecay);
    for (int i = 0; i < 6; ++i) {
      bool c = f.Contains(tr(i));
      if (i < 3 && total[i]) VX_CHECK(c, "trace %d (sum %d, %d additions not yet decayed) is not contained", i, sum[i], total[i] - sum[i]);
      if (!any) VX_CHECK(!c, "trace %d contained although nothing is left", i);
      if (kSize > 10000 && i < 3 && !total[i]) VX_CHECK(!c, "trace %d contained although its sum is gone and it has decayed", i);
    }
    if (vx::visited(h, depth - d)) return;
  }
}

// ---- schedules ----
template <int kSize, int kHash>
static void plain_mc() {
  auto& f = fresh<ti::StackTraceFilter<kSize, kHash>>();
  mc::reset();
  // trace 0 has a base sum that nobody takes away
  int base = vx::choose(2);
  if (base) f.Add(tr(0), 1);
  int s1 = vx::choose(4), s2 = vx::choose(4);
  static const int kT[4][3][2] = {{{0, 1}, {0, -1}, {1, 1}}, {{0, 2}, {0, -1}, {0, -1}}, {{1, 1}, {2, 1}, {1, -1}}, {{2, 1}, {2, -1}, {0, 1}}};
  int sum[3] = {base, 0, 0};
  for (auto& x : kT[s1]) sum[x[0]] += x[1];
  for (auto& x : kT[s2]) sum[x[0]] += x[1];
  auto ta = [&] {
    for (auto& x : kT[s1]) f.Add(tr(x[0]), x[1]);
  };
  auto tb = [&] {
    for (auto& x : kT[s2]) f.Add(tr(x[0]), x[1]);
  };
  auto tc = [&] {
    for (int i = 0; i < 2; ++i) {
      bool c = f.Contains(tr(0));
      mc::Off o;
      if (base) VX_CHECK(c, "a trace with a non-zero sum throughout is reported missing");
    }
  };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 6 : 4;
  mc::go(c);
  bool any = false;
  for (int i = 0; i < 3; ++i) {
    any |= sum[i] != 0;
    if (sum[i]) VX_CHECK(f.Contains(tr(i)), "trace %d with sum %d is not contained at the end", i, sum[i]);
  }
  // take everything away again
  for (int i = 0; i < 3; ++i) f.Add(tr(i), -sum[i]);
  for (int i = 0; i < 6; ++i) VX_CHECK(!f.Contains(tr(i)), "a count was lost: trace %d still contained after all was removed", i);
  vx::state(vx::mix(s1 * 4 + s2, mc::points()));
}

template <int kSize, int kHash, int kDecay>
static void decay_mc() {
  auto& f = fresh<ti::DecayingStackTraceFilter<kSize, kHash, kDecay>>();
  mc::reset();
  int pre = vx::choose(kDecay + 1);
  for (int i = 0; i < pre; ++i) f.Add(tr(2), 0);
  int base = vx::choose(2);
  if (base) f.Add(tr(0), 1);
  int s1 = vx::choose(3), s2 = vx::choose(4);
  static const int kT[4][2][2] = {{{0, 1}, {0, -1}}, {{1, 2}, {1, -1}}, {{0, 0}, {1, 1}}, {{9, 0}, {9, 0}}};
  int sum[3] = {base, 0, 0};
  auto run = [&](int s, bool apply) {
    for (auto& x : kT[s]) {
      if (!apply) {
        if (x[0] < 9) sum[x[0]] += x[1];
      } else if (x[0] == 9) {
        f.Decay();
      } else {
        f.Add(tr(x[0]), x[1]);
      }
    }
  };
  run(s1, false);
  run(s2, false);
  auto ta = [&] { run(s1, true); };
  auto tb = [&] { run(s2, true); };
  auto tc = [&] {
    bool c = f.Contains(tr(0));
    mc::Off o;
    if (base) VX_CHECK(c, "a trace with a non-zero sum throughout is reported missing");
  };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 5 : 3;
  mc::go(c);
  for (int i = 0; i < 3; ++i)
    if (sum[i]) VX_CHECK(f.Contains(tr(i)), "trace %d with sum %d is not contained at the end", i, sum[i]);
  f.DecayAll();
  for (int i = 0; i < 3; ++i)
    if (sum[i]) VX_CHECK(f.Contains(tr(i)), "trace %d with sum %d is not contained after decaying", i, sum[i]);
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < sum[i]; ++k) f.Add(tr(i), -1);
  for (int i = 0; i < 6; ++i) VX_CHECK(!f.Contains(tr(i)), "a count was lost: trace %d still contained after all was removed and decayed", i);
  vx::state(vx::mix(s1 * 4 + s2 + 1000, mc::points()));
}

// Every addition and decay moves the ring on by exactly one, whoever makes it.
template <int kDecay>
static void steps_mc() {
  auto& f = fresh<ti::DecayingStackTraceFilter<16384, 2, kDecay>>();
  mc::reset();
  int na = vx::choose(3) + 1, nb = vx::choose(2) + 1;
  int da = vx::choose(2), db = vx::choose(2);
  int later = na + nb;
  if (later > kDecay) return;
  // as many further additions as leave exactly one to go
  f.Add(tr(3), 0);
  for (int i = 0; i < kDecay - later - 1; ++i) f.Add(tr(2), 0);
  bool last = later == kDecay;
  auto ta = [&] {
    for (int i = 0; i < na; ++i)
      if (da) f.Decay();
      else f.Add(tr(0), 0);
  };
  auto tb = [&] {
    for (int i = 0; i < nb; ++i)
      if (db) f.Decay();
      else f.Add(tr(1), 1);
  };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 8 : 5;
  mc::go(c);
  if (!last) {
    VX_CHECK(f.Contains(tr(3)), "a trace decayed after %d of %d later additions", kDecay - 1, kDecay);
    f.Decay();
  }
  VX_CHECK(!f.Contains(tr(3)), "a trace has not decayed after %d later additions", kDecay);
  vx::state(vx::mix(na * 100 + nb * 10 + da * 2 + db, kDecay));
}

static const vx::Scenario kScenarios[] = {
    {"plain-1-1", plain<1, 1>, 100000},
    {"plain-2-2", plain<2, 2>, 100000},
    {"plain-7-3", plain<7, 3>, 100000},
    {"plain-16384-2", plain<16384, 2>, 10000},
    {"decay-1-1-1", decay<1, 1, 1>, 100000},
    {"decay-5-2-2", decay<5, 2, 2>, 100000},
    {"decay-16384-2-3", decay<16384, 2, 3>, 10000},
    {"decay-16384-1-1", decay<16384, 1, 1>, 10000},
    {"threads-1-1", plain_mc<1, 1>, 100000},
    {"threads-3-2", plain_mc<3, 2>, 100000},
    {"threads-decay-2-1-1", decay_mc<2, 1, 1>, 100000},
    {"threads-steps-3", steps_mc<3>, 100000},
    {"threads-steps-6", steps_mc<6>, 100000},
    {"threads-decay-5-2-2", decay_mc<5, 2, 2>, 100000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, sizeof kScenarios / sizeof kScenarios[0]);
}

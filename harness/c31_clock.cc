// C31: Cycles32 readings over every wrap-around position.
#include <math.h>
#include "lib/explore.h"
#include "tcmalloc/internal/clock.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

static int64_t g_now;
static double g_freq;
static int64_t MockNow() { return g_now; }
static double MockFreq() { return g_freq; }
static Clock clk() {
  Clock c;
  c.now = MockNow;
  c.freq = MockFreq;
  return c;
}

static constexpr int64_t kTick = int64_t{1} << Cycles32::kShift;
static constexpr int64_t kEpoch = int64_t{1} << 32;  // ticks per wrap
// Tick numbers around every boundary of the 32-bit representation.
static int64_t tick_at(int i) {
  static const int64_t base[] = {0, 0x7fffffff, 0x80000000, kEpoch - 1, kEpoch,
                                 kEpoch + 0x7fffffff, 2 * kEpoch, 0x12345678};
  return base[i / 7] + (i % 7) - (i / 7 == 0 ? 0 : 3);
}
static const int kTicks = 8 * 7;
static int64_t sub_at(int i) { return i == 0 ? 0 : i == 1 ? kTick - 1 : kTick / 3; }
static int64_t delta_at(int i) {
  static const int64_t d[] = {0, 1, 2, 3, 5, 100, 0xffff, 0x10000, 0x12345678,
                              0x7ffffffc, 0x7ffffffd, 0x3fffffff, 0x40000000};
  return d[i];
}

void pairs() {
  int64_t t1 = tick_at(choose(kTicks));
  int64_t s1 = sub_at(choose(3));
  int64_t d = delta_at(choose(13));
  int64_t s2 = sub_at(choose(3));
  if (d == 0 && s2 < s1) return;
  g_freq = choose(2) ? 1e9 : 3e9;
  int64_t n1 = t1 * kTick + s1, n2 = (t1 + d) * kTick + s2;
  vx::op("first reading %ld, second %ld", n1, n2);
  vx::state(vx::mix(n1, n2));
  Cycles32 a, b, fresh;
  VX_CHECK(!static_cast<bool>(a), "a fresh stamp must be unset");
  VX_CHECK(a.AsDuration(clk()) == absl::InfiniteDuration(), "unset stamp: infinite");
  g_now = n1;
  a.Update(clk());
  VX_CHECK(static_cast<bool>(a), "an updated stamp must be set (tick %ld)", t1);
  VX_CHECK(a.AsDuration(clk()) != absl::InfiniteDuration(), "a set stamp has finite age");
  g_now = n2;
  b.Update(clk());
  vx::step(2);
  VX_CHECK(b.TimeAfterOrEqual(a), "tick %ld then +%ld: the later stamp does not compare as later", t1, d);
  if (d > 2)
    VX_CHECK(!a.TimeAfterOrEqual(b), "tick %ld then +%ld: the earlier stamp compares as later", t1, d);
  VX_CHECK(a.TimeAfterOrEqual(a), "reflexive");
  absl::Duration got = a.AsDuration(clk()), got2 = a.AsDuration(clk().GetSnapshot());
  VX_CHECK(got == got2, "both AsDuration overloads must agree");
  double ticks = absl::ToDoubleSeconds(got) * g_freq / kTick;
  // One tick of leeway where a reading falls on the reserved tick number.
  double slack = 1e-6 * (d + 1);
  if (slack > 0.01) slack = 0.01;
  bool reserved = (t1 % kEpoch) == 0 || ((t1 + d) % kEpoch) == 0;
  if (reserved) slack += 1;
  VX_CHECK(fabs(ticks - d) <= slack, "tick %ld then +%ld: elapsed reported as %.3f ticks", t1, d, ticks);
  if (d == 0) VX_CHECK(ticks == 0, "same tick %ld: elapsed reported as %.3f ticks", t1, ticks);
  a.Reset();
  VX_CHECK(!static_cast<bool>(a) && a.AsDuration(clk()) == absl::InfiniteDuration(), "Reset");
}

// Raw values: every pair of 32-bit values whose distance is below half.
void raw() {
  static const uint32_t base[] = {1, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0xfffffff0};
  uint32_t x = base[choose(6)] + choose(8) - 4;
  if (x == 0) x = 1;
  static const uint32_t dd[] = {0, 1, 2, 16, 0x7ffffffe, 0x7fffffff, 0x80000001, 0x80000000, 0xffffffff, 0x1000, 0x40000000};
  uint32_t d = dd[choose(11)];
  Cycles32 a(x), b(x + d);
  vx::op("raw %u +%u", x, d);
  vx::step();
  vx::state(vx::mix(x, d));
  bool want = d < 0x80000000u;
  VX_CHECK(b.TimeAfterOrEqual(a) == want, "raw %u vs %u", x + d, x);
  VX_CHECK(a.raw() == x && b.raw() == uint32_t(x + d), "raw()");
  if (x + d != 0) {  // age at a later instant
    g_freq = 2e9;
    g_now = (int64_t(uint32_t(x + d)) << Cycles32::kShift) + 12345;
    double t = absl::ToDoubleSeconds(a.AsDuration(clk())) * g_freq / kTick;
    VX_CHECK(fabs(t - double(d)) <= 0.01, "raw %u, %u ticks later: %.3f", x, d, t);
  }
}

// A monotone sequence of three readings is never seen to go backwards.
void chain() {
  int64_t t = tick_at(choose(kTicks));
  Cycles32 c[4];
  int64_t at[4];
  for (int i = 0; i < 4; ++i) {
    if (i) t += delta_at(choose(6));
    g_now = t * kTick + (i * 7);
    g_freq = 1e9;
    c[i].Update(clk());
    at[i] = t;
    vx::step();
  }
  vx::op("ticks %ld %ld %ld %ld", at[0], at[1], at[2], at[3]);
  vx::state(vx::mix(vx::mix(at[0], at[1]), vx::mix(at[2], at[3])));
  absl::Duration prev = absl::InfiniteDuration();
  for (int i = 0; i < 4; ++i) {
    for (int j = i; j < 4; ++j)
      VX_CHECK(c[j].TimeAfterOrEqual(c[i]), "reading %d before reading %d", j, i);
    absl::Duration d = c[i].AsDuration(clk());
    VX_CHECK(d <= prev, "ages must not increase for later stamps");
    prev = d;
  }
}

int main(int argc, char** argv) {
  vx::Scenario s[] = {{"pairs", pairs}, {"raw", raw}, {"chain", chain}};
  return vx::explore_main(argc, argv, s, 3);
}

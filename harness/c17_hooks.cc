// C17: hook lists. Sequential histories against a slot model, and every
// schedule of two mutators and a traverser.
#include "lib/mc.h"
#include "tcmalloc/internal/hook_list.h"

using tcmalloc::tcmalloc_internal::HookList;
using tcmalloc::tcmalloc_internal::kHookListMaxValues;

typedef void (*Hook)(int*, int*);
static const int kCap = 7;
static_assert(kHookListMaxValues == kCap, "bounds below assume this");

template <int N>
static void H(int* seen, int* n) {
  mc::Off o;
  seen[(*n)++] = N;
}
static const Hook kHooks[12] = {H<0>, H<1>, H<2>, H<3>, H<4>,  H<5>,
                                H<6>, H<7>, H<8>, H<9>, H<10>, H<11>};
static int id_of(Hook h) {
  for (int i = 0; i < 12; ++i)
    if (kHooks[i] == h) return i;
  return -1;
}

// ---- sequential ----
struct Model {
  int slot[kCap];
  bool add(int v) {
    for (int i = 0; i < kCap; ++i)
      if (slot[i] < 0) {
        slot[i] = v;
        return true;
      }
    return false;
  }
  bool remove(int v) {
    for (int i = 0; i < kCap; ++i)
      if (slot[i] == v) {
        slot[i] = -1;
        return true;
      }
    return false;
  }
};

static void check_seq(HookList<Hook>& l, const Model& m) {
  int want[kCap], n = 0, last = 0;
  for (int i = 0; i < kCap; ++i)
    if (m.slot[i] >= 0) {
      want[n++] = m.slot[i];
      last = i + 1;
    }
  VX_CHECK(l.empty() == (n == 0), "empty() is %d with %d hooks", l.empty(), n);
  VX_CHECK(l.size() == last, "size() is %d, last hook is at %d", l.size(), last);
  for (int lim = 0; lim <= kCap + 1; ++lim) {
    Hook out[kCap + 2];
    for (auto& h : out) h = nullptr;
    int got = l.Traverse(out, lim);
    int exp = n < lim ? n : lim;
    VX_CHECK(got == exp, "traversal with room for %d gives %d of %d hooks", lim, got, n);
    for (int i = 0; i < exp; ++i)
      VX_CHECK(out[i] == kHooks[want[i]], "hook %d of the traversal is %d, not %d", i, id_of(out[i]), want[i]);
    for (int i = exp; i < kCap + 2; ++i)
      VX_CHECK(out[i] == nullptr, "traversal wrote past its result");
  }
  int seen[kCap + 1], k = 0;
  l.Invoke(seen, &k);
  VX_CHECK(k == n, "%d hooks invoked of %d", k, n);
  for (int i = 0; i < n; ++i) VX_CHECK(seen[i] == want[i], "invoked out of order");
}

static void sequential() {
  alignas(HookList<Hook>) static char buf[sizeof(HookList<Hook>)];
  HookList<Hook>& l = *new (buf) HookList<Hook>();
  Model m;
  for (int& s : m.slot) s = -1;
  static const int kStart[] = {0, 1, 3, 5, 6, 7};
  int start = vx::choose(7);
  if (start == 6) {  // the initial-hook constructor
    new (buf) HookList<Hook>(kHooks[0]);
    m.slot[0] = 0;
  } else {
    for (int i = 0; i < kStart[start]; ++i) {
      VX_CHECK(l.Add(kHooks[i]), "add refused");
      m.add(i);
    }
  }
  check_seq(l, m);
  int depth = vx::thorough() ? 6 : 4;
  for (int d = 0; d < depth; ++d) {
    int o = vx::choose(12);
    if (o < 3) {  // add 2 (perhaps a duplicate), 7, 8
      int v = o == 0 ? 2 : 6 + o;
      bool r = l.Add(kHooks[v]), e = m.add(v);
      vx::op("add %d = %d", v, r);
      VX_CHECK(r == e, "add returned %d", r);
    } else if (o == 3) {
      VX_CHECK(!l.Add(nullptr), "the null hook was added");
    } else if (o == 4) {
      VX_CHECK(!l.Remove(nullptr), "the null hook was removed");
    } else {  // remove 0..6 or 8
      int v = o == 11 ? 8 : o - 5 > 2 ? o - 4 : o - 5;  // 0,1,2,4,5,6
      if (o == 8) v = 3;
      if (o == 9) v = 5;
      if (o == 10) v = 6;
      bool r = l.Remove(kHooks[v]), e = m.remove(v);
      vx::op("remove %d = %d", v, r);
      VX_CHECK(r == e, "remove returned %d", r);
    }
    vx::step();
    check_seq(l, m);
  }
}

// ---- concurrent ----
// Values: 0..6 may be installed at the start; mutators add 7..10.
struct Life {
  bool started_in;           // installed before the run
  bool add_called, add_done, add_ok;
  int rem_called, rem_done, rem_ok;  // several threads may remove the same
  mc::Stamp a0, a1, r0, r1;
};
static Life life[12];
static bool use_hb;
// What a hook needs is set up by the thread that adds it, just before.
static int payload[12];
// `s` is certainly before the present moment / before stamp `now`.
static bool done_before(const mc::Stamp& s, const mc::Stamp& now) {
  if (!use_hb) return s.at < now.at;
  return mc::before(s);  // called at `now` by its thread
}

static void do_add(HookList<Hook>& l, int v) {
  Life& f = life[v];
  {
    mc::Off o;
    f.add_called = true;
    f.a0 = mc::stamp();
  }
  payload[v] = v + 1;
  bool r = l.Add(kHooks[v]);
  mc::Off o;
  f.a1 = mc::stamp();
  f.add_done = true;
  f.add_ok = r;
  vx::op("thread %d: add %d = %d", mc::self(), v, r);
}
static void do_remove(HookList<Hook>& l, int v) {
  Life& f = life[v];
  {
    mc::Off o;
    f.rem_called++;
    f.r0 = mc::stamp();
  }
  bool r = l.Remove(kHooks[v]);
  mc::Off o;
  if (r) f.r1 = mc::stamp();
  f.rem_done++;
  f.rem_ok += r;
  VX_CHECK(f.rem_ok <= 1, "hook %d removed twice", v);
  vx::op("thread %d: remove %d = %d", mc::self(), v, r);
}
static void do_traverse(HookList<Hook>& l, bool invoke) {
  bool must[12], mustnot[12];
  mc::Stamp s;
  {
    mc::Off o;
    s = mc::stamp();
    for (int v = 0; v < 12; ++v) {
      const Life& f = life[v];
      bool in = f.started_in || (f.add_done && f.add_ok && done_before(f.a1, s));
      must[v] = in;
      mustnot[v] = f.rem_ok && done_before(f.r1, s);
    }
  }
  int seen[16], n = 0;
  int sum = 0;
  if (invoke) {
    l.Invoke(seen, &n);
  } else {
    Hook out[kCap];
    n = l.Traverse(out, kCap);
    mc::Off o;
    for (int i = 0; i < n; ++i) seen[i] = id_of(out[i]);
  }
  for (int i = 0; i < n; ++i)
    if (seen[i] >= 0) sum += payload[seen[i]] == seen[i] + 1;
  mc::Off o;
  VX_CHECK(sum == n, "a hook was seen before what was written ahead of adding it");
  int cnt[12] = {};
  for (int i = 0; i < n; ++i) {
    VX_CHECK(seen[i] >= 0, "a traversal returned something that is no hook");
    cnt[seen[i]]++;
  }
  for (int v = 0; v < 12; ++v) {
    const Life& f = life[v];
    VX_CHECK(cnt[v] <= 1, "hook %d seen %d times by one traversal", v, cnt[v]);
    if (cnt[v])
      VX_CHECK(!mustnot[v] && (f.started_in || f.add_called),
               "hook %d seen although it was absent throughout", v);
    if (must[v] && !f.rem_called)
      VX_CHECK(cnt[v], "hook %d missed although it was installed throughout", v);
  }
  vx::op("thread %d: saw %d hooks", mc::self(), n);
}

enum Init { kEmpty, kOne, kThree, kHole, kSix, kFull, kInits };
static int setup(HookList<Hook>& l, int init) {
  int n = 0;
  auto add = [&](int k) {
    for (int i = 0; i < k; ++i) {
      (void)l.Add(kHooks[i]);
      life[i].started_in = true;
      ++n;
    }
  };
  switch (init) {
    case kEmpty: break;
    case kOne: add(1); break;
    case kThree: add(3); break;
    case kHole:
      add(4);
      (void)l.Remove(kHooks[1]);
      life[1].started_in = false;
      --n;
      break;
    case kSix: add(6); break;
    case kFull: add(7); break;
  }
  return n;
}

static void concurrent(bool weakmem) {
  alignas(HookList<Hook>) static char buf[sizeof(HookList<Hook>)];
  HookList<Hook>& l = *new (buf) HookList<Hook>();
  memset(life, 0, sizeof life);
  for (int i = 0; i < 12; ++i) payload[i] = i < 7 ? i + 1 : 0;
  use_hb = weakmem;
  int init = vx::choose(kInits);
  int n0 = setup(l, init);
  mc::reset();
  // script of the first mutator: two operations; of the second: one
  static const signed char kA[][2] = {
      {7, 8}, {7, -8}, {-1, 7}, {-3, 7}, {7, -1}, {-1, -3}, {-3, -1}};  // +v-: add v, -k: remove k-1
  static const signed char kB[] = {9, -3, -2, -7, 0};
  int a = vx::choose(7), b = vx::choose(5);
  auto run = [&](int c) {
    if (c > 0) do_add(l, c);
    else if (c < 0) do_remove(l, -c - 1);
  };
  auto ta = [&] {
    run(kA[a][0]);
    run(kA[a][1]);
  };
  auto tb = [&] {
    if (kB[b]) run(kB[b]);
    else do_traverse(l, true);
  };
  auto tc = [&] {
    do_traverse(l, false);
    do_traverse(l, !weakmem);
  };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 4 : weakmem ? 2 : 3;
  c.stale = weakmem ? (vx::thorough() ? 2 : 1) : 0;
  mc::go(c);
  // results of the operations
  int n = n0, adds = 0;
  for (int v = 0; v < 12; ++v) adds += life[v].add_called;
  for (int v = 0; v < 12; ++v) {
    Life& f = life[v];
    if (f.add_called && n0 + adds <= kCap)
      VX_CHECK(f.add_ok, "adding hook %d failed although the list was never full", v);
    if (f.rem_called) {
      bool in = f.started_in;
      if (in) VX_CHECK(f.rem_ok == 1, "removing hook %d failed although it was installed", v);
      if (!f.started_in && !f.add_called) VX_CHECK(!f.rem_ok, "removed hook %d which was absent", v);
      if (f.add_called && f.add_ok && f.a1.at < f.r0.at) VX_CHECK(f.rem_ok, "removing hook %d failed although it was installed", v);
    }
    n += (f.add_called && f.add_ok) - f.rem_ok;
  }
  VX_CHECK(n <= kCap, "%d hooks in the list", n);
  Hook out[kCap + 1];
  int k = l.Traverse(out, kCap + 1);
  VX_CHECK(k == n, "%d hooks remain, expected %d", k, n);
  uint64_t h = 0;
  for (int i = 0; i < k; ++i) {
    int v = id_of(out[i]);
    VX_CHECK(v >= 0, "junk in the list");
    const Life& f = life[v];
    VX_CHECK((f.started_in || f.add_ok) && !f.rem_ok, "hook %d should not be there", v);
    for (int j = 0; j < i; ++j) VX_CHECK(out[j] != out[i], "hook %d twice", v);
    h = vx::mix(h, v + 1);
  }
  VX_CHECK(l.empty() == (n == 0), "empty() wrong at the end");
  // the list still works
  for (int v = 0; v < 12; ++v)
    if ((life[v].started_in || life[v].add_ok) && !life[v].rem_ok)
      VX_CHECK(l.Remove(kHooks[v]), "cannot remove hook %d at the end", v);
  VX_CHECK(l.empty() && l.size() == 0, "list not empty at the end");
  vx::state(vx::mix(h, init * 100 + a * 10 + b));
}
static void interleavings() { concurrent(false); }
static void weak_memory() { concurrent(true); }

static const vx::Scenario kScenarios[] = {
    {"sequential", sequential, 100000},
    {"interleavings", interleavings, 100000},
    {"weak-memory", weak_memory, 100000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, 3);
}

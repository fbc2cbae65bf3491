// C18: the registry of sampled objects. Sequential histories against a set
// model, and every schedule of threads registering, unregistering, iterating.
#include "lib/mc.h"
#include "tcmalloc/internal/sampled_allocation_recorder.h"

namespace ti = tcmalloc::tcmalloc_internal;

static const int kIds = 24;
struct Rec : ti::Sample<Rec> {
  constexpr Rec() {}
  int a = 0, b = 0, c = 0;
  void PrepareForSampling(int v) {
    a = v;
    b = v;
    c = -v;
  }
};
struct Alloc {
  int made;
  Rec* New(int v);
  void Delete(Rec* r) {
    mc::Off o;
    --made;
  }
};
static Rec pool[kIds];
static int pool_n;
Rec* Alloc::New(int v) {
  Rec* r;
  {
    mc::Off o;
    VX_CHECK(pool_n < kIds, "more records created than ever registered");
    r = new (&pool[pool_n++]) Rec();
    ++made;
  }
  r->PrepareForSampling(v);
  return r;
}
typedef ti::SampleRecorder<Rec, Alloc> Recorder;

static int disposed[2][kIds + 1];
static void disp0(const Rec& r) {
  int a = r.a, b = r.b, c = r.c;
  mc::Off o;
  VX_CHECK(a == b && a == -c && a > 0 && a <= kIds, "dispose callback got a broken record");
  disposed[0][a]++;
}
static void disp1(const Rec& r) {
  int a = r.a;
  mc::Off o;
  VX_CHECK(a > 0 && a <= kIds, "dispose callback got a broken record");
  disposed[1][a]++;
}

struct World {
  Alloc alloc;
  alignas(Recorder) char buf[sizeof(Recorder)];
  Recorder* rec;
};
static World W;
static void fresh() {
  pool_n = 0;
  W.alloc.made = 0;
  memset(disposed, 0, sizeof disposed);
  W.rec = new (W.buf) Recorder(W.alloc);
}

// ---- sequential ----
static void sequential() {
  fresh();
  Recorder& r = *W.rec;
  Rec* live[kIds + 1] = {};
  int next = 1, most = 0, nlive = 0, cb = -1;
  int want[2][kIds + 1] = {};
  int depth = vx::thorough() ? 10 : 8;
  for (int d = 0; d < depth; ++d) {
    int o = vx::choose(6);
    if (o == 0) {
      int v = next++;
      Rec* s = r.Register(v);
      vx::op("register %d", v);
      for (int i = 1; i <= kIds; ++i) VX_CHECK(!live[i] || live[i] != s, "record in use handed out again");
      VX_CHECK(s->a == v && s->b == v && s->c == -v, "record not initialised");
      live[v] = s;
      if (++nlive > most) most = nlive;
    } else if (o <= 2) {  // oldest / newest
      int v = 0;
      for (int i = 1; i <= kIds; ++i)
        if (live[i] && (o == 2 || !v)) v = i;
      if (!v) return;
      r.Unregister(live[v]);
      vx::op("unregister %d", v);
      live[v] = nullptr;
      --nlive;
      if (cb >= 0) want[cb][v]++;
    } else if (o == 3) {
      r.UnregisterAll();
      vx::op("unregister all");
      for (int i = 1; i <= kIds; ++i)
        if (live[i]) {
          live[i] = nullptr;
          --nlive;
          if (cb >= 0) want[cb][i]++;
        }
    } else {
      int ncb = o == 4 ? (cb == 0 ? 1 : 0) : -1;
      if (ncb == cb) return;
      auto old = r.SetDisposeCallback(ncb < 0 ? nullptr : ncb ? disp1 : disp0);
      vx::op("dispose callback %d", ncb);
      VX_CHECK(old == (cb < 0 ? nullptr : cb ? disp1 : disp0), "wrong previous callback");
      cb = ncb;
    }
    vx::step();
    int seen[kIds + 1] = {};
    r.Iterate([&](const Rec& s) {
      VX_CHECK(s.a > 0 && s.a <= kIds && s.a == s.b && s.c == -s.a, "iteration shows a broken record");
      VX_CHECK(live[s.a] == &s, "iteration shows %d which is not registered", s.a);
      seen[s.a]++;
    });
    for (int i = 1; i <= kIds; ++i) VX_CHECK(seen[i] == (live[i] != nullptr), "record %d visited %d times", i, seen[i]);
    VX_CHECK(memcmp(want, disposed, sizeof want) == 0, "dispose callbacks differ from the unregistrations");
    VX_CHECK(W.alloc.made == most, "%d records created, %d were ever live at once", W.alloc.made, most);
    uint64_t h = cb;
    for (int i = 1; i <= kIds; ++i) h = vx::mix(h, live[i] ? live[i] - pool + 1 : 0);
    vx::state(h);
  }
  r.~Recorder();
  VX_CHECK(W.alloc.made == 0, "%d records never deleted", W.alloc.made);
}

// ---- concurrent ----
struct Life {
  bool reg_called, reg_done, un_called, un_done;
  mc::Stamp r0, r1, u0, u1;
  Rec* p;
};
static Life life[kIds + 1];
static bool use_hb;
static int next_id;
static bool all_called;  // UnregisterAll running or done
static bool before(const mc::Stamp& s, const mc::Stamp& now) {
  return use_hb ? mc::before(s) : s.at < now.at;
}
static int do_register(Recorder& r) {
  int v;
  {
    mc::Off o;
    v = next_id++;
    life[v].reg_called = true;
    life[v].r0 = mc::stamp();
  }
  Rec* s = r.Register(v);
  int a = s->a, b = s->b, c = s->c;
  mc::Off o;
  if (!all_called) VX_CHECK(a == v && b == v && c == -v, "a fresh record holds %d, not %d", a, v);
  for (int i = 1; i <= kIds; ++i)
    VX_CHECK(!(life[i].reg_done && !life[i].un_called && !all_called && life[i].p == s), "one record handed out twice (%d and %d)", i, v);
  life[v].p = s;
  life[v].reg_done = true;
  life[v].r1 = mc::stamp();
  vx::op("thread %d: registered %d", mc::self(), v);
  return v;
}
static void do_unregister(Recorder& r, int v) {
  Rec* p;
  {
    mc::Off o;
    life[v].un_called = true;
    life[v].u0 = mc::stamp();
    p = life[v].p;
  }
  r.Unregister(p);
  mc::Off o;
  life[v].un_done = true;
  life[v].u1 = mc::stamp();
  vx::op("thread %d: unregistered %d", mc::self(), v);
}
static void do_iterate(Recorder& r) {
  bool must[kIds + 1], mustnot[kIds + 1];
  {
    mc::Off o;
    mc::Stamp s = mc::stamp();
    for (int v = 1; v <= kIds; ++v) {
      must[v] = life[v].reg_done && before(life[v].r1, s) && !all_called;
      mustnot[v] = life[v].un_done && before(life[v].u1, s);
    }
  }
  int seen[kIds + 1] = {};
  int n = 0;
  auto f = [&](const Rec& s) {
    int a = s.a, b = s.b, c = s.c;
    mc::Off o;
    VX_CHECK(a > 0 && a <= kIds && a == b && a == -c, "iteration shows a half-initialised record (%d %d %d)", a, b, c);
    VX_CHECK(life[a].reg_called, "iteration shows %d which was never registered", a);
    seen[a]++;
    ++n;
  };
  r.Iterate(f);
  mc::Off o;
  for (int v = 1; v <= kIds; ++v) {
    VX_CHECK(seen[v] <= 1, "record %d visited %d times", v, seen[v]);
    if (mustnot[v]) VX_CHECK(!seen[v], "record %d visited after it was unregistered", v);
    if (must[v] && !life[v].un_called && !all_called) VX_CHECK(seen[v], "record %d not visited although registered throughout", v);
  }
  vx::op("thread %d: visited %d", mc::self(), n);
}

static void concurrent(bool weakmem) {
  fresh();
  memset(life, 0, sizeof life);
  next_id = 1;
  all_called = false;
  use_hb = weakmem;
  Recorder& r = *W.rec;
  (void)r.SetDisposeCallback(disp0);
  mc::reset();
  // starting states: how many live, how many dead records
  static const int kLive[] = {0, 1, 2, 1, 2}, kDead[] = {0, 0, 0, 1, 2};
  int st = vx::choose(5);
  for (int i = 0; i < kLive[st] + kDead[st]; ++i) do_register(r);
  for (int i = 0; i < kDead[st]; ++i) do_unregister(r, kLive[st] + i + 1);
  int na = vx::choose(4), nb = vx::choose(5), nc = vx::thorough() ? vx::choose(2) : 0;
  auto ta = [&] {
    if (na == 0) {
      int v = do_register(r);
      do_unregister(r, v);
    } else if (na == 1) {
      do_register(r);
      do_register(r);
    } else if (na == 2 && kLive[st]) {
      do_unregister(r, 1);
      do_register(r);
    } else if (na == 3) {
      int v = do_register(r);
      do_unregister(r, v);
      do_register(r);
    }
  };
  auto tb = [&] {
    if (nb == 0) {
      int v = do_register(r);
      do_unregister(r, v);
    } else if (nb == 1) {
      do_register(r);
    } else if (nb == 2 && kLive[st] > 1) {
      do_unregister(r, 2);
    } else if (nb == 3) {
      do_iterate(r);
    } else if (nb == 4 && kLive[st] > 1) {
      do_unregister(r, 2);
      do_register(r);
    }
  };
  auto tc = [&] {
    do_iterate(r);
    if (nc) do_iterate(r);
  };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = (vx::thorough() ? 3 : 2) - weakmem;
  c.stale = weakmem ? 1 : 0;
  c.weak = 1;
  mc::go(c);
  int seen[kIds + 1] = {};
  uint64_t h = st;
  r.Iterate([&](const Rec& s) { seen[s.a]++; h = vx::mix(h, s.a * 64 + (&s - pool)); });
  for (int v = 1; v <= kIds; ++v) {
    VX_CHECK(seen[v] == (life[v].reg_done && !life[v].un_done), "record %d visited %d times at the end", v, seen[v]);
    VX_CHECK(disposed[0][v] == life[v].un_done, "dispose callback called %d times for %d", disposed[0][v], v);
  }
  vx::state(h);
  r.UnregisterAll();
  for (int v = 1; v <= kIds; ++v) VX_CHECK(disposed[0][v] == life[v].reg_done, "dispose callback called %d times for %d", disposed[0][v], v);
  // every record can be used again, and no more than exist
  int made = W.alloc.made;
  for (int i = 0; i < made; ++i) (void)r.Register(next_id++);
  VX_CHECK(W.alloc.made == made, "a record was lost");
}
static void interleavings() { concurrent(false); }
static void weak_memory() { concurrent(true); }

// Unregistering everything while others register and iterate.
static void clearing() {
  fresh();
  memset(life, 0, sizeof life);
  next_id = 1;
  all_called = false;
  use_hb = false;
  Recorder& r = *W.rec;
  (void)r.SetDisposeCallback(disp0);
  mc::reset();
  int nl = vx::choose(3), nd = vx::choose(2);
  for (int i = 0; i < nl + nd; ++i) do_register(r);
  if (nd) do_unregister(r, nl + 1);
  int two = vx::choose(2);
  bool cleared = false;
  mc::Stamp c0 = {};
  auto ta = [&] {
    {
      mc::Off o;
      all_called = true;
      c0 = mc::stamp();
    }
    r.UnregisterAll();
    mc::Off o;
    cleared = true;
  };
  auto tb = [&] {
    do_register(r);
    if (two) do_register(r);
  };
  auto tc = [&] { do_iterate(r); };
  mc::spawn(ta);
  mc::spawn(tb);
  mc::spawn(tc);
  mc::Cfg c;
  c.preempt = vx::thorough() ? 3 : 2;
  c.weak = 1;
  mc::go(c);
  int seen[kIds + 1] = {};
  uint64_t h = nl * 2 + nd;
  r.Iterate([&](const Rec& s) { seen[s.a]++; h = vx::mix(h, s.a * 64 + (&s - pool)); });
  for (int v = 1; v <= kIds; ++v) {
    VX_CHECK(seen[v] + disposed[0][v] == life[v].reg_done, "record %d: visited %d, disposed %d", v, seen[v], disposed[0][v]);
    if (life[v].reg_done && life[v].r1.at < c0.at && (v <= nl + nd)) VX_CHECK(disposed[0][v] == 1, "record %d registered before was not unregistered", v);
  }
  vx::state(h);
  int made = W.alloc.made;
  r.UnregisterAll();
  for (int i = 0; i < made; ++i) (void)r.Register(next_id++);
  VX_CHECK(W.alloc.made == made, "a record was lost");
}

static const vx::Scenario kScenarios[] = {
    {"sequential", sequential, 100000},
    {"interleavings", interleavings, 100000},
    {"weak-memory", weak_memory, 100000},
    {"clearing", clearing, 100000},
};
int main(int argc, char** argv) {
  return vx::explore_main(argc, argv, kScenarios, 4);
}

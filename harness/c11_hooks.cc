// C11: every allocation and release is reported to the installed hooks once.
#include "lib/e2e.h"
#include "tcmalloc/malloc_hook.h"
using namespace e2e;
using tcmalloc::MallocHook;
using vx::choose;

struct Event { int hook; bool is_new; void* p; size_t req, usable; bool sized; };
static Event ev[65536];
static int nev;
static void log_new(int h, const MallocHook::NewInfo& i) {
  if (nev < 65536) ev[nev++] = {h, true, i.ptr, i.requested_size, i.allocated_size, true};
}
static void log_del(int h, const MallocHook::DeleteInfo& i) {
  if (i.ptr == nullptr) return;  // releases of null may be reported or not
  if (nev < 65536) ev[nev++] = {h, false, i.ptr, i.deallocated_size.value_or(0), i.allocated_size, i.deallocated_size.has_value()};
}
static void na(const MallocHook::NewInfo& i) { log_new(0, i); }
static void nb(const MallocHook::NewInfo& i) { log_new(1, i); }
static void da(const MallocHook::DeleteInfo& i) { log_del(0, i); }
static void db(const MallocHook::DeleteInfo& i) { log_del(1, i); }
static bool on_new[2], on_del[2];
static void set_new(int h, bool on) {
  if (on == on_new[h]) return;
  bool ok = on ? MallocHook::AddNewHook(h ? nb : na) : MallocHook::RemoveNewHook(h ? nb : na);
  VX_CHECK(ok, "%s new hook %d failed", on ? "installing" : "removing", h);
  on_new[h] = on;
}
static void set_del(int h, bool on) {
  if (on == on_del[h]) return;
  bool ok = on ? MallocHook::AddDeleteHook(h ? db : da) : MallocHook::RemoveDeleteHook(h ? db : da);
  VX_CHECK(ok, "%s delete hook %d failed", on ? "installing" : "removing", h);
  on_del[h] = on;
}

// What the calls since the last check must have reported, in order.
struct Want { bool is_new; void* p; size_t req, usable; bool sized_call; };
static Want want[16384];
static int nwant;
static void want_new(void* p, size_t req, size_t usable) { want[nwant++] = {true, p, req, usable, true}; }
static void want_del(void* p, size_t stated, size_t usable, bool sized) { want[nwant++] = {false, p, stated, usable, sized}; }
// The events of each hook must be the wanted ones; of one call that both
// allocates and releases different blocks the order is free.
static void settle(const char* what) {
  for (int h = 0; h < 2; ++h) {
    int w = 0;
    static Event mine[65536];
    int nm = 0;
    for (int i = 0; i < nev; ++i)
      if (ev[i].hook == h) mine[nm++] = ev[i];
    static Want exp[16384];
    for (int i = 0; i < nwant; ++i)
      if (want[i].is_new ? on_new[h] : on_del[h]) exp[w++] = want[i];
    auto same = [&](const Event& e, const Want& x) {
      return e.is_new == x.is_new && e.p == x.p && e.usable == x.usable &&
             (x.is_new ? e.req == x.req : (!e.sized || (x.sized_call && e.req == x.req)));
    };
    for (int i = 0; i < w || i < nm; ++i) {
      if (i >= nm) vx::fail("%s: the %s of %p (%zu bytes) was not reported to hook %d", what, exp[i].is_new ? "allocation" : "release", exp[i].p, exp[i].usable, h);
      if (i >= w)
        vx::fail("%s: hook %d was told of a%s of %p (%zu bytes, usable %zu) that %s", what, h, mine[i].is_new ? "n allocation" : " release", mine[i].p,
                 mine[i].req, mine[i].usable, (mine[i].is_new ? on_new[h] : on_del[h]) ? "was not performed or was reported already" : "happened while it was not installed");
      if (same(mine[i], exp[i])) continue;
      if (i + 1 < w && i + 1 < nm && same(mine[i], exp[i + 1]) && same(mine[i + 1], exp[i]) && exp[i].p != exp[i + 1].p && exp[i].is_new != exp[i + 1].is_new) { ++i; continue; }
      vx::fail("%s: hook %d was told of a%s of %p (size %zu, usable %zu), what happened is the %s of %p (size %zu, usable %zu)", what, h,
               mine[i].is_new ? "n allocation" : " release", mine[i].p, mine[i].req, mine[i].usable, exp[i].is_new ? "allocation" : "release", exp[i].p, exp[i].req, exp[i].usable);
    }
  }
  nev = nwant = 0;
}

static const size_t kSizes[] = {0, 1, 8, 100, 1024, 5000, 70000, kMaxSize, kMaxSize + 1, 1 << 20, (3 << 20) + 5};
static const size_t kAligns[] = {8, 64, 4096, 8192, 1 << 18};

static void each_entry() {
  init(0);
  pin(0);
  int e = choose(kNumAllocs);
  size_t size = kSizes[choose(sizeof(kSizes) / sizeof(kSizes[0]))];
  size_t al = kAllocs[e].aligned ? kAligns[choose(5)] : 0;
  int conf = choose(4);
  if (al && kAllocs[e].fam == kMallocFam && size == 0) size = 1;
  uint64_t h = vx::hash_bytes(conf, &size, 8);
  vx::state(vx::mix(vx::mix(h, e), al));
  vx::op("%s(%zu, %zu), hooks %d", kAllocs[e].name, size, al, conf);
  // without hooks first
  nev = nwant = 0;
  size_t plain;
  {
    int b = do_alloc(e, size, al);
    plain = blk[b].usable;
    free_any(b);
    settle("without hooks");
  }
  set_new(0, conf != 1);
  set_del(0, conf != 0);
  set_new(1, conf == 3);
  set_del(1, conf == 3);
  for (int f = 0; f < kNumFrees; ++f) {
    Block probe{nullptr, size, plain, al, e, 0};
    if (!free_matches(kFrees[f], probe)) continue;
    for (int v = 0; v < (kFrees[f].sized ? 2 : 1); ++v) {
      nev = nwant = 0;
      Got g = kAllocs[e].fn({size, al});
      int b = adopt(g.p, size, al, e, g.cap);
      VX_CHECK(MallocExtension::GetProfileSamplingInterval() == 1 || blk[b].usable == plain, "usable size %zu with hooks, %zu without", blk[b].usable, plain);
      want_new(g.p, g.cap ? g.cap : size, blk[b].usable);
      settle("allocation");
      size_t stated = v == 0 ? size : g.cap;
      if (v == 1 && !g.cap) { stated = size; }
      void* p = blk[b].p;
      size_t us = blk[b].usable;
      vx::op("%s(%zu)", kFrees[f].name, stated);
      do_free(b, f, false, stated);
      want_del(p, stated, us, kFrees[f].sized);
      settle(kFrees[f].name);
      vx::step(2);
    }
  }
  for (int k = 0; k < 2; ++k) { set_new(k, false); set_del(k, false); }
  nev = nwant = 0;
  { int b = do_alloc(e, size, al); free_any(b); }
  settle("after removal");
}
static void each_entry_sampled() {
  init(1);
  each_entry();
}

// Every reallocation: in place and moving, to sizes around the requested, usable and class sizes.
static void each_realloc() {
  pin(0);
  size_t size = kSizes[choose(sizeof(kSizes) / sizeof(kSizes[0]))];
  int target = choose(14), conf = choose(4);
  bool arr = choose(2);
  set_new(0, conf != 1);
  set_del(0, conf != 0);
  set_new(1, conf == 3);
  set_del(1, conf == 3);
  nev = nwant = 0;
  char* p = static_cast<char*>(malloc(size));
  int b = adopt(p, size, 0, find_alloc("malloc"), 0);
  size_t us = blk[b].usable;
  want_new(p, size, us);
  settle("allocation");
  size_t n;
  switch (target) {
    case 0: n = us; break;
    case 1: n = us - 1; break;
    case 2: n = us + 1; break;
    case 3: n = size; break;
    case 4: n = 1; break;
    case 5: n = us / 2; break;
    case 6: n = us / 2 + 1; break;
    case 7: n = us / 2 - 1; break;
    case 8: n = us / 4 * 3; break;
    case 9: n = us * 2; break;
    case 10: n = us + us / 4; break;
    case 11: n = 0; break;
    case 12: n = 600000; break;
    default: n = us > 8 ? us - 8 : us; break;
  }
  vx::op("%s of a block of %zu (usable %zu) to %zu, hooks %d", arr ? "reallocarray" : "realloc", size, us, n, conf);
  vx::state(vx::mix(vx::mix(size, n), conf * 2 + arr));
  forget(b);
  char* q = static_cast<char*>(arr ? reallocarray(p, n, 1) : realloc(p, n));
  vx::step();
  if (n == 0) {
    VX_CHECK(!q, "reallocation to nothing returned a block");
    want_del(p, 0, us, false);
    settle("reallocation to nothing");
  } else {
    int k = adopt(q, n, 0, find_alloc("malloc"), 0);
    if (q == p) { want_del(p, 0, us, false); want_new(q, n, blk[k].usable); }
    else { want_new(q, n, blk[k].usable); want_del(p, 0, us, false); }
    settle("reallocation");
    size_t us2 = blk[k].usable;
    forget(k);
    free(q);
    want_del(q, 0, us2, false);
    settle("free");
  }
  for (int k = 0; k < 2; ++k) { set_new(k, false); set_del(k, false); }
}
static void reallocs() { init(0); each_realloc(); }
static void reallocs_sampled() { init(1); each_realloc(); }

// ---- histories -----------------------------------------------------------------
static Helper g_helper;
static size_t g_asize;
static void alloc_n(void* v) {
  int n = *static_cast<int*>(v);
  for (int i = 0; i < n; ++i) {
    static int m = find_alloc("malloc"), nw = find_alloc("new");
    int b = do_alloc(i % 2 ? nw : m, g_asize);
    want_new(blk[b].p, g_asize, blk[b].usable);
  }
}
static void free_n(void* v) {
  int n = *static_cast<int*>(v);
  for (int i = 0; i < n && nblk; ++i) {
    Block b = blk[nblk - 1];
    bool sized = i % 3 == 0 && b.entry >= 0;
    int f = default_free(b);
    if (sized)
      for (int k = 0; k < kNumFrees; ++k)
        if (kFrees[k].sized && free_matches(kFrees[k], b)) f = k;
    want_del(b.p, b.req, b.usable, kFrees[f].sized);
    do_free(nblk - 1, f, false, b.req);
  }
}
static void warm(void*) {
  void* v[60];
  for (size_t s : {size_t{24}, size_t{64}, size_t{200}}) {
    for (auto& p : v) p = malloc(s);
    for (auto& p : v) free(p);
  }
}
// A thread that is running with a warm cache while hooks are installed.
static std::atomic<int> g_stage;
static void run_through(void*) {
  warm(nullptr);
  g_stage.store(1);
  while (g_stage.load() != 2) __builtin_ia32_pause();
  int n = 3;
  g_asize = 64;
  alloc_n(&n);
  int k = 2;
  free_n(&k);
}
static void install_under_running_thread() {
  for (int k = 0; k < 2; ++k) { set_new(k, false); set_del(k, false); }
  g_stage.store(0);
  g_helper.fn = run_through;
  g_helper.state.store(1);
  fwake(&g_helper.state);
  while (g_stage.load() != 1) __builtin_ia32_pause();
  set_new(0, true);
  set_del(0, true);
  g_stage.store(2);
  int s;
  while ((s = g_helper.state.load()) != 2) fwait(&g_helper.state, s);
  g_helper.state.store(0);
}
static void re_alloc(size_t n) {
  // newest malloc-family block
  for (int i = nblk - 1; i >= 0; --i) {
    if (kAllocs[blk[i].entry].fam != kMallocFam) continue;
    Block b = blk[i];
    verify(b);
    if (n == 0) n = b.req > 1 ? b.req - 1 : b.req;
    if (n > b.usable * 4 || n + 8 < b.usable) { }
    forget(i);
    char* q = static_cast<char*>(realloc(b.p, n));
    int k = adopt(q, n, 0, b.entry, 0);
    if (q == b.p) { want_del(b.p, 0, b.usable, false); want_new(q, n, blk[k].usable); }
    else { want_new(q, n, blk[k].usable); want_del(b.p, 0, b.usable, false); }
    return;
  }
}
static void history(int sampling) {
  init(sampling);
  pin(0);
  warm(nullptr);
  helper_run(g_helper, [](void*) { pin(1); warm(nullptr); }, nullptr);
  uint64_t h = sampling;
  int depth = vx::thorough() ? 5 : sampling ? 3 : 4;
  nev = nwant = 0;
  int n = 12;
  for (int d = 0; d < depth; ++d) {
    int o = choose(12);
    h = vx::mix(h, o);
    vx::step();
    const char* w = "";
    switch (o) {
      case 0: w = "toggle new hook"; set_new(0, !on_new[0]); break;
      case 1: w = "toggle delete hook"; set_del(0, !on_del[0]); break;
      case 2: w = "toggle second hooks"; set_new(1, !on_new[1]); set_del(1, !on_del[1]); break;
      case 3: w = "allocate small"; g_asize = 64; alloc_n(&n); break;
      case 4: w = "allocate large"; g_asize = 300000; { int two = 2; alloc_n(&two); } break;
      case 5: w = "free newest"; { int k = 7; free_n(&k); } break;
      case 6: w = "realloc within the class"; re_alloc(0); break;
      case 7: w = "realloc to 5000"; re_alloc(5000); break;
      case 8: w = "another thread allocates"; g_asize = 200; helper_run(g_helper, alloc_n, &n); break;
      case 9: w = "another thread frees"; { int k = 9; helper_run(g_helper, free_n, &k); } break;
      case 10:
        w = "flush";
        if (g_percpu) { for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]); }
        else MallocExtension::MarkThreadIdle();
        break;
      case 11: w = "install hooks while another thread is running"; install_under_running_thread(); break;
    }
    vx::op("%s", w);
    settle(w);
  }
  vx::state(h);
  int all = nblk;
  free_n(&all);
  settle("free all");
  for (int k = 0; k < 2; ++k) { set_new(k, false); set_del(k, false); }
  warm(nullptr);
  helper_run(g_helper, warm, nullptr);
  settle("after removal");
}
static void plain_history() { history(0); }
static void sampled_history() { history(1); }

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"entries", each_entry, 400}, {"entries sampled", each_entry_sampled, 400}, {"reallocations", reallocs, 400}, {"reallocations sampled", reallocs_sampled, 400}, {"histories", plain_history, 300}, {"histories sampled", sampled_history, 300}};
  return vx::explore_main(argc, argv, sc, sizeof(sc) / sizeof(sc[0]));
}

// C10: memory limits, for every bounded history under every limit setting.
#include "lib/e2e.h"
#include "tcmalloc/parameters.h"
using namespace e2e;
using vx::choose;
using Kind = MallocExtension::LimitKind;
constexpr size_t kMax = SIZE_MAX;
constexpr size_t MB = 1 << 20;

// What the copy was about to do when it died.
struct Status {
  int ops;
  size_t needed;   // bytes that cannot be given back at that point, including the request
  size_t limit;
  char what[200];
  char msg[600];
};
static Status* st;

static size_t backed() { return prop("generic.heap_size") + prop("tcmalloc.metadata_bytes"); }
static void flush() {
  if (g_percpu) for (int i = 0; i < g_ncpus; ++i) MallocExtension::ReleaseCpuMemory(g_cpus[i]);
  else MallocExtension::MarkThreadIdle();
}
struct Ask { const char* entry; size_t size, align; int count; };
static const Ask kAsk[] = {{"malloc", 8192, 0, 300}, {"malloc", 700000, 0, 5}, {"malloc", 3 * MB + 1, 0, 3}, {"new cold", 30000, 0, 100},
                           {"malloc", 24 * MB, 0, 1}, {"memalign", 100, MB, 2}};
constexpr int kNAsk = sizeof(kAsk) / sizeof(kAsk[0]);
static const size_t kRoom[] = {0, 3 * MB, 9 * MB, 26 * MB, 60 * MB};

static size_t g_soft, g_hard;
// Bytes in live blocks and caches, plus metadata.
static size_t required() {
  Books b = books();
  return b.in_use + b.cached() + b.meta;
}
static void about(const char* what, size_t extra) {
  st->needed = required() + extra;
  snprintf(st->what, sizeof st->what, "%s", what);
}
static size_t g_released;
static size_t limit_released() { return prop("tcmalloc.num_released_soft_limit_exceeded_bytes") + prop("tcmalloc.num_released_hard_limit_exceeded_bytes"); }
static void after_op(const char* what, size_t before, size_t soft_hits, size_t hard_hits) {
  Books b = check_books(SIZE_MAX);
  size_t now = b.heap + b.meta;
  if (g_hard != kMax) VX_CHECK(b.heap <= g_hard, "%s: the heap uses %zu bytes although the hard limit is %zu", what, b.heap, g_hard);
  size_t sh = prop("tcmalloc.soft_limit_hits"), hh = prop("tcmalloc.hard_limit_hits");
  if (g_soft == kMax) {
    VX_CHECK(sh == soft_hits && hh == hard_hits, "%s: a limit was hit although none is set", what);
    VX_CHECK(limit_released() == g_released, "%s: memory was given back for a limit although none is set", what);
  } else if (now > g_soft + 2 * MB && b.heap > before) {
    // Over the limit: then everything that is free has been given back.
    VX_CHECK(b.free <= 4 * MB, "%s: %zu bytes are in use over a soft limit of %zu, yet %zu free bytes are kept", what, now, g_soft, b.free);
  }
  if (b.heap > g_soft && b.heap > before) VX_CHECK(sh > soft_hits, "%s: usage rose from %zu to %zu over the soft limit %zu without counting a hit", what, before, b.heap, g_soft);
  g_released = limit_released();
  VX_CHECK(sh >= soft_hits && hh >= hard_hits, "%s: a hit counter went back", what);
  VX_CHECK(sh - soft_hits >= hh - hard_hits, "%s: more hard hits than soft hits", what);
  VX_CHECK(prop("tcmalloc.successful_shrinks_after_soft_limit_hit") <= sh, "more successful shrinks than hits (soft)");
  VX_CHECK(prop("tcmalloc.successful_shrinks_after_hard_limit_hit") <= hh, "more successful shrinks than hits (hard)");
}

// Runs the choices `seq` in a copy of the process.
static void run_copy(int nops, const int* seq, int soft, int hard, bool subrelease) {
  if (!st) st = static_cast<Status*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(st, 0, sizeof *st);
  int fd = memfd_create("err", 0);
  pid_t c = fork();
  if (c < 0) vx::fail("harness error: fork");
  if (c == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd, 2);
    // some free memory to start with
    for (int i = 0; i < 4; ++i) do_alloc(find_alloc("malloc"), 4 * MB);
    for (int i = 0; i < 10; ++i) do_alloc(find_alloc("malloc"), 300000);
    for (int i = nblk - 1; i >= 0; i -= 2) free_any(i);
    size_t base = backed();
    g_soft = g_hard = kMax;
    g_released = 0;
    auto set = [&](int which, Kind k, const char* what) {
      if (which < 0) return;
      size_t l = base + kRoom[which];
      size_t sh = prop("tcmalloc.soft_limit_hits"), hh = prop("tcmalloc.hard_limit_hits"), b0 = prop("generic.heap_size");
      if (k == Kind::kHard) g_hard = l; else g_soft = l;
      if (g_soft > g_hard) g_soft = g_hard;
      st->limit = g_hard;
      about(what, 0);
      MallocExtension::SetMemoryLimit(l, k);
      VX_CHECK(MallocExtension::GetMemoryLimit(Kind::kHard) == g_hard && prop("tcmalloc.hard_usage_limit_bytes") == g_hard, "hard limit set to %zu reads %zu", g_hard, MallocExtension::GetMemoryLimit(Kind::kHard));
      VX_CHECK(MallocExtension::GetMemoryLimit(Kind::kSoft) == g_soft && prop("tcmalloc.desired_usage_limit_bytes") == g_soft, "soft limit should be %zu, reads %zu", g_soft, MallocExtension::GetMemoryLimit(Kind::kSoft));
      after_op(what, b0, sh, hh);
    };
    set(soft, Kind::kSoft, "setting the soft limit");
    set(hard, Kind::kHard, "setting the hard limit");
    for (int d = 0; d < nops; ++d) {
      int o = seq[d];
      size_t sh = prop("tcmalloc.soft_limit_hits"), hh = prop("tcmalloc.hard_limit_hits"), b0 = prop("generic.heap_size");
      char what[100];
      if (o < kNAsk) {
        const Ask& a = kAsk[o];
        for (int i = 0; i < a.count; ++i) {
          snprintf(what, sizeof what, "%s(%zu)", a.entry, a.size);
          about(what, a.size < a.align ? a.align * 2 : a.size);
          size_t h0 = prop("generic.heap_size"), s0 = prop("tcmalloc.soft_limit_hits"), x0 = prop("tcmalloc.hard_limit_hits");
          const Alloc& al = kAllocs[find_alloc(a.entry)];
          Got g = al.fn({a.size, a.align});
          if (!g.p) {
            VX_CHECK(g_hard != kMax, "%s failed without a hard limit", what);
            VX_CHECK(st->needed + 5 * MB > g_hard, "%s failed: %zu bytes are needed, the limit is %zu", what, st->needed, g_hard);
          } else {
            adopt(g.p, a.size, a.align, find_alloc(a.entry), g.cap);
          }
          if (i < 3 || i % 50 == 0) after_op(what, h0, s0, x0);
        }
      } else {
        snprintf(what, sizeof what, "op %d", o);
        about(what, 0);
        if (o == kNAsk) { for (int i = nblk - 1; i >= 0; i -= 2) free_any(i); flush(); }
        else if (o == kNAsk + 1) { free_all(); flush(); }
        else if (o == kNAsk + 2) { set(1, Kind::kSoft, "lowering the soft limit"); }
        else { g_soft = g_hard = kMax; MallocExtension::SetMemoryLimit(kMax, Kind::kHard); MallocExtension::SetMemoryLimit(kMax, Kind::kSoft);
               VX_CHECK(MallocExtension::GetMemoryLimit(Kind::kHard) == kMax && MallocExtension::GetMemoryLimit(Kind::kSoft) == kMax, "limits were not lifted"); st->limit = kMax; g_released = limit_released(); continue; }
        if (o < kNAsk + 2) after_op(what, b0, sh, hh);
      }
      verify_all();
      ++st->ops;
    }
    _exit(50);
  }
  int ws;
  while (waitpid(c, &ws, 0) < 0 && errno == EINTR) {}
  struct stat sb;
  fstat(fd, &sb);
  char tail[1200] = "";
  if (sb.st_size) { size_t n = sb.st_size < 1000 ? sb.st_size : 1000; (void)!pread(fd, tail, n, sb.st_size - n); }
  close(fd);
  if (WIFEXITED(ws)) {
    if (WEXITSTATUS(ws) == 50) return;
    vx::fail("%s", strstr(tail, "FAIL") ? strstr(tail, "FAIL") : vx::me ? vx::me->msg : "copy failed");
  }
  VX_CHECK(hard >= 0 && st->limit != kMax, "%s: killed by signal %d although no hard limit is set: %s", st->what, WTERMSIG(ws), tail);
  VX_CHECK(WTERMSIG(ws) == SIGABRT || WTERMSIG(ws) == SIGTRAP || WTERMSIG(ws) == SIGILL, "%s: killed by signal %d: %s", st->what, WTERMSIG(ws), tail);
  VX_CHECK(strstr(tail, "limit"), "%s: stopped, but not for the limit: %s", st->what, tail);
  // With breaking of huge pages allowed, everything free can be given back.
  if (subrelease)
    VX_CHECK(st->needed + 5 * MB > st->limit, "%s: stopped at a limit of %zu although only %zu bytes cannot be given back", st->what, st->limit, st->needed);
  vx::extra(0);
}
static void body_impl(bool sub) {
  init();
  pin(0);
  TCMalloc_Internal_SetHPAASubrelease(sub);
  static const int kPair[][2] = {{-1, -1}, {0, -1}, {2, -1}, {-1, 1}, {-1, 2}, {-1, 3}, {1, 3}, {0, 4}, {2, 2}, {4, 3}};
  int soft, hard;
  if (vx::thorough()) { soft = choose(6) - 1; hard = choose(6) - 1; }
  else { int k = choose(10); soft = kPair[k][0]; hard = kPair[k][1]; }
  int seq[6];
  int n = vx::thorough() ? 4 : sub && rseq_possible() ? 3 : 2;
  uint64_t h = vx::mix(soft + 1, hard + 1);
  for (int i = 0; i < n; ++i) { seq[i] = choose(kNAsk + 4); h = vx::mix(h, seq[i]); }
  vx::op("soft %d hard %d ops %d %d %d", soft, hard, seq[0], seq[1], n > 2 ? seq[2] : -1);
  vx::state(h);
  vx::step(n);
  run_copy(n, seq, soft, hard, sub);
}
static void body() { body_impl(true); }
static void body_nosub() { body_impl(false); }

// Every sequence of settings, against the rule "soft never above hard".
static void settings() {
  if (!vx::replaying()) dup2(open("/dev/null", O_WRONLY), 2);
  init();
  size_t soft = kMax, hard = kMax;
  uint64_t h = 3;
  static const size_t kL[] = {kMax, size_t{1} << 40, (size_t{1} << 40) + 1, size_t{1} << 45};
  for (int d = 0; d < (vx::thorough() ? 6 : 5); ++d) {
    int k = choose(2), v = choose(4);
    h = vx::mix(h, k * 4 + v);
    vx::op("%s := %zu", k ? "hard" : "soft", kL[v]);
    MallocExtension::SetMemoryLimit(kL[v], k ? Kind::kHard : Kind::kSoft);
    (k ? hard : soft) = kL[v];
    if (soft > hard) soft = hard;
    vx::step();
    size_t gs = MallocExtension::GetMemoryLimit(Kind::kSoft), gh = MallocExtension::GetMemoryLimit(Kind::kHard);
    VX_CHECK(gs == soft && gh == hard, "limits should read soft %zu hard %zu, read %zu %zu", soft, hard, gs, gh);
    VX_CHECK(prop("tcmalloc.soft_limit_hits") == 0 && prop("tcmalloc.hard_limit_hits") == 0, "a limit far away counted a hit");
    free(malloc(5 * MB));
  }
  vx::state(h);
  MallocExtension::SetMemoryLimit(kMax, Kind::kHard);
  MallocExtension::SetMemoryLimit(kMax, Kind::kSoft);
}

int main(int argc, char** argv) {
  static const vx::Scenario sc[] = {{"histories", body, 1}, {"histories, huge pages kept whole", body_nosub, 1}, {"settings", settings, 5000}};
  return vx::explore_main(argc, argv, sc, 3);
}

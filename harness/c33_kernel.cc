// C33: texts and tables the kernel gives are parsed exactly, however they are
// split over reads, and malformed, truncated or failing input is rejected.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <unistd.h>
#include <new>
#include <string>
#include <vector>
#include "lib/explore.h"
#include "tcmalloc/internal/cache_topology.h"
#include "tcmalloc/internal/memory_stats.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/proc_maps.h"
#include "tcmalloc/internal/sysinfo.h"
#include "tcmalloc/internal/util.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
using subtle::percpu::__rseq_abi;
typedef uint64_t u64;

#if TCMALLOC_INTERNAL_PERCPU_USE_RSEQ
// The harness plays the part of the kernel's per-thread area.
namespace tcmalloc::tcmalloc_internal::subtle::percpu {
bool InitFastPerCpu() { return __rseq_abi.cpu_id != unsigned(kCpuIdUnsupported); }
}
#endif

// ---- the modelled files ---------------------------------------------------------
struct File { std::string path, data; int err; };
static std::vector<File> g_files;
static int g_open_errno = ENOENT;
struct Fd { int file; size_t pos; bool open; };
static Fd g_fd[256];
static int g_nfd, g_open;
static bool g_on;
static size_t g_step;      // most bytes one read delivers
static bool g_eintr;       // every other read is interrupted first
static bool g_poll0;       // poll says there is nothing yet
static int g_fail_at, g_calls, g_flip;
static void fs_reset() {
  g_files.clear();
  g_nfd = g_open = 0;
  g_step = 1 << 20;
  g_eintr = g_poll0 = false;
  g_fail_at = -1;
  g_calls = g_flip = 0;
  g_open_errno = ENOENT;
  g_on = true;
}
static int fs_open(int f) {
  if (g_files[f].err) { errno = g_files[f].err; return -1; }
  VX_CHECK(g_nfd < 256, "harness error: descriptors");
  g_fd[g_nfd] = {f, 0, true};
  ++g_open;
  return 1000 + g_nfd++;
}
static int do_open(const char* path) {
  for (size_t i = 0; i < g_files.size(); ++i)
    if (g_files[i].path == path) return fs_open(i);
  errno = g_open_errno;
  return -1;
}
static ssize_t do_read(size_t& pos, const std::string& d, void* buf, size_t n) {
  if (g_fail_at == g_calls++) { errno = EIO; return -1; }
  if (g_eintr && (g_flip ^= 1)) { errno = EINTR; return -1; }
  size_t k = std::min({n, g_step, d.size() - pos});
  memcpy(buf, d.data() + pos, k);
  pos += k;
  return k;
}
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_open(const char* p, int fl, ...) {
  if (g_on) return do_open(p);
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  return __real_open(p, fl, m);
}
int __wrap_close(int fd) {
  if (fd >= 1000) {
    VX_CHECK(g_fd[fd - 1000].open, "descriptor closed twice");
    g_fd[fd - 1000].open = false;
    --g_open;
    return 0;
  }
  if (g_on) { errno = EBADF; return -1; }
  return __real_close(fd);
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd >= 1000) {
    Fd& f = g_fd[fd - 1000];
    VX_CHECK(f.open, "read from a closed descriptor");
    return do_read(f.pos, g_files[f.file].data, b, n);
  }
  if (g_on) { errno = EBADF; return -1; }
  return __real_read(fd, b, n);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t) {
  if (!g_on) return __real_poll(p, n, t);
  if (g_poll0) return 0;
  p->revents = POLLIN;
  return 1;
}
}
static void clobber() {  // stale stack contents must not matter
  char b[9000];
  memset(b, '7', sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}

// ---- CPU lists ------------------------------------------------------------------
struct Want { int verdict; /* 1 exact, 0 reject, -1 either */ std::vector<bool> set; };
static Want cpu_oracle(const std::string& s0) {
  Want w;
  w.set.assign(kMaxCpus, false);
  std::string s = s0;
  // a final newline is part of the format
  if (!s.empty() && s.back() == '\n') s.pop_back();
  if (s.empty()) { w.verdict = 1; return w; }
  w.verdict = 1;
  size_t i = 0;
  while (true) {
    size_t j = s.find(',', i);
    std::string el = s.substr(i, j == std::string::npos ? j : j - i);
    if (el.empty() && j == std::string::npos && i > 0) {  // trailing comma
      w.verdict = w.verdict == 0 ? 0 : -1;
      break;
    }
    auto num = [&](std::string t, int* out) {  // 1 good, 0 bad, -1 lenient forms
      int q = 1;
      bool pad = false;
      while (!t.empty() && isspace((unsigned char)t.front())) t.erase(0, 1), pad = true;
      while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(), pad = true;
      if (pad) q = -1;
      if (t.empty()) return 0;
      long v = 0;
      for (char c : t) {
        if (c < '0' || c > '9') return 0;
        v = v * 10 + (c - '0');
        if (v > 1000000) return 0;
      }
      if (t.size() > 1 && t[0] == '0') q = -1;
      if (v >= kMaxCpus) return 0;
      *out = v;
      return q;
    };
    size_t d = el.find('-');
    int a = 0, b = 0, qa, qb;
    if (d == std::string::npos) {
      qa = qb = num(el, &a);
      b = a;
    } else {
      qa = num(el.substr(0, d), &a);
      qb = num(el.substr(d + 1), &b);
    }
    if (qa == 0 || qb == 0 || (qa == 1 && qb == 1 && a > b)) w.verdict = 0;
    else if (a > b) w.verdict = 0;
    else if (qa < 0 || qb < 0) w.verdict = w.verdict == 0 ? 0 : -1;
    if (w.verdict == 0) return w;
    for (int c = a; c <= b; ++c) w.set[c] = true;
    if (j == std::string::npos) break;
    i = j + 1;
  }
  return w;
}
static void show(const std::string& s, char* out, size_t n) {
  size_t k = 0;
  for (char c : s) {
    if (k + 3 >= n) break;
    if (c == '\n') out[k++] = '\\', out[k++] = 'n';
    else out[k++] = c;
  }
  out[k] = 0;
}
static void check_cpulist(const std::string& s, const Want& w, unsigned cuts, size_t step, int fail_at) {
  // cuts: bit i set = a read ends after byte i; otherwise limited by `step`
  size_t pos = 0;
  int calls = 0;
  bool failed = false;
  auto read = [&](char* b, size_t n) -> ssize_t {
    if (calls++ == fail_at) { failed = true; errno = EIO; return -1; }
    size_t k = 0;
    while (k < n && k < step && pos < s.size()) {
      b[k++] = s[pos++];
      if (pos <= 31 && (cuts >> (pos - 1) & 1)) break;
    }
    return k;
  };
  std::optional<CpuSet> r = ParseCpulist(read);
  vx::step();
  char t[300];
  if (failed) {
    if (r.has_value()) {
      show(s, t, sizeof t);
      vx::fail("CPU list \"%s\" accepted although read %d failed", t, fail_at);
    }
    return;
  }
  if (w.verdict == 0 && r.has_value()) {
    show(s, t, sizeof t);
    vx::fail("malformed CPU list \"%s\" (cuts %x, %zu per read) accepted with %d CPUs", t, cuts, step, r->Count());
  }
  if (w.verdict == 1 && !r.has_value()) {
    show(s, t, sizeof t);
    vx::fail("valid CPU list \"%s\" (cuts %x, %zu per read) rejected", t, cuts, step);
  }
  if (w.verdict == 1) {
    for (int c = 0; c < kMaxCpus; ++c)
      if (r->IsSet(c) != w.set[c]) {
        show(s, t, sizeof t);
        vx::fail("CPU list \"%s\" (cuts %x, %zu per read): CPU %d %s", t, cuts, step, c,
                 w.set[c] ? "missing" : "present though not listed");
      }
  }
}
static const char kAlpha[] = "0172,-\nx ";  // order matters only for speed
void cpulist_short() {
  static const char* al = "017,-\n x";
  const int A = 8;
  int len = choose(vx::thorough() ? 8 : 7);
  std::string s;
  int head = std::min(len, 3);
  for (int i = 0; i < head; ++i) s += al[choose(A)];
  char t[64];
  show(s, t, sizeof t);
  vx::op("length %d starting \"%s\"", len, t);
  vx::state(vx::mix(len, std::hash<std::string>()(s)));
  int rest = len - head;
  long total = 1;
  for (int i = 0; i < rest; ++i) total *= A;
  s.resize(len);
  for (long x = 0; x < total; ++x) {
    long y = x;
    for (int i = 0; i < rest; ++i) s[head + i] = al[y % A], y /= A;
    Want w = cpu_oracle(s);
    unsigned ncut = len > 1 ? 1u << (len - 1) : 1;
    for (unsigned c = 0; c < ncut; ++c) {
      if (len > 5 && w.verdict == -1 && c) continue;
      check_cpulist(s, w, c, 1000, -1);
    }
    if (w.verdict == 1 || len <= 3)
      for (int f = 0; f < 4; ++f) check_cpulist(s, w, ncut - 1, 1000, f);
  }
}
static const char* kElems[] = {"0", "7", "10", "99-100", "8-9", "1023", "1024-1030", "2046", "2047",
                               "2040-2047", "0-2047", "127-128", "2048", "0-2048", "3-2", "5-", "1-2-3",
                               "-1", "4294967296", "4294967297", "99999999999999999999", "1a", "512-1023"};
void cpulist_long() {
  // lists longer than the reader's buffer, with every read size
  const int E = sizeof kElems / sizeof *kElems;
  int n = 1 + choose(vx::thorough() ? 5 : 4);
  int rep = 1 + choose(3);
  std::string one;
  int bad = 0;
  for (int i = 0; i < n; ++i) {
    int e;
    if (i < 2) e = choose(E);
    else e = choose(vx::thorough() ? 12 : 6) * (vx::thorough() ? 1 : 2) % 12;
    if (e >= 12 && e < 22) ++bad;
    one += (i ? "," : "");
    one += kElems[e];
  }
  std::string s;
  for (int r = 0; r < rep; ++r) s += (r ? "," : "") + one;
  int tail = choose(3);
  if (tail == 1) s += "\n";
  if (tail == 2) s += ",\n";
  char t[300];
  show(s, t, sizeof t);
  vx::op("\"%s\"", t);
  vx::state(std::hash<std::string>()(s));
  Want w = cpu_oracle(s);
  for (size_t st = 1; st <= 17; ++st) check_cpulist(s, w, 0, st, -1);
  for (int f = 0; f < 3; ++f) check_cpulist(s, w, 0, 5, f);
}

// ---- number of CPUs ---------------------------------------------------------------
void num_cpus() {
  static const char* txt[] = {"0\n", "0-7\n", "0-3,8-11\n", "5\n", "\n", "", "0-2047\n", "0-2048\n", "junk\n", "0-\n", "2-1\n", "0,2,4\n", "0-1-2\n"};
  static const int want[] = {1, 8, 12, 6, -1, -1, 2048, -1, -1, -1, -1, 5, -1};
  int k = choose(13);
  int fault = choose(5);
  fs_reset();
  g_files.push_back({"/sys/devices/system/cpu/possible", txt[k], 0});
  int w = want[k];
  if (fault == 1) g_eintr = true;
  if (fault == 2) g_step = 1;
  if (fault == 3) g_files[0].err = choose(2) ? ENOENT : EACCES, w = -1;
  if (fault == 4) g_fail_at = 0, w = -1;
  vx::op("possible = %s, trouble %d", k == 5 ? "(empty)" : txt[k], fault);
  vx::state(k * 8 + fault);
  clobber();
  std::optional<int> r = sysinfo_internal::NumPossibleCPUsNoCache();
  g_on = false;
  vx::step();
  VX_CHECK(g_open == 0, "descriptor left open");
  VX_CHECK(r.value_or(-1) == w, "%d CPUs, should be %d", r.value_or(-1), w);
}

// ---- NUMA ---------------------------------------------------------------------------
template <size_t P, size_t S>
static void numa_one(int nodes, const std::vector<std::vector<int>>& cpus, const char* env, bool fast, int fault) {
  typedef NumaTopology<P, S> T;
  static char mem[sizeof(T) + 64] __attribute__((aligned(64)));
  memset(mem, 0, sizeof mem);
  T* t = new (mem) T();
  int nfiles0 = g_files.size();
  for (int n = 0; n < nodes; ++n) {
    std::string s;
    // runs are written as ranges, as the kernel does
    const auto& v = cpus[n];
    for (size_t i = 0; i < v.size();) {
      size_t j = i;
      while (j + 1 < v.size() && v[j + 1] == v[j] + 1) ++j;
      char b[64];
      if (i == j) snprintf(b, sizeof b, "%d", v[i]);
      else snprintf(b, sizeof b, "%d-%d", v[i], v[j]);
      s += (i ? "," : "");
      s += b;
      i = j + 1;
    }
    s += "\n";
    g_files.push_back({"node", s, 0});
  }
  g_eintr = fault == 1;
  if (fault == 2) g_step = 1;
#if TCMALLOC_INTERNAL_PERCPU_USE_RSEQ
  __rseq_abi.cpu_id = fast ? 0 : unsigned(subtle::percpu::kCpuIdUnsupported);
#endif
  size_t asked = 0;
  bool bad_order = false;
  t->InitForTest([&](size_t node) {
    if (node != asked++) bad_order = true;
    if (node >= size_t(nodes)) { errno = ENOENT; return -1; }
    return fs_open(nfiles0 + node);
  });
  vx::step();
  VX_CHECK(g_open == 0, "NUMA: descriptor left open");
  VX_CHECK(!bad_order, "NUMA: nodes not visited in order");
  const int parts = std::max<size_t>(2, P);
  bool rseq = fast && TCMALLOC_INTERNAL_PERCPU_USE_RSEQ;
  bool on = env != nullptr && strcmp(env, "0") != 0;
  bool beyond = false;
  for (int n = 0; n < nodes; ++n)
    if (n % parts != 0 && !cpus[n].empty()) beyond = true;
  bool aware = P > 1 && rseq && on && beyond;
  VX_CHECK(t->numa_aware() == aware, "NUMA awareness is %d with %d nodes", t->numa_aware(), nodes);
  VX_CHECK(t->active_partitions() == (aware ? size_t(parts) : 1), "active partitions");
  if (!rseq) return;
  VX_CHECK(t->num_nodes() == size_t(nodes), "%zu nodes reported of %d", t->num_nodes(), nodes);
  NumaBindMode m = NumaBindMode::kAdvisory;
  if (env && !strcmp(env, "no-binding")) m = NumaBindMode::kNone;
  if (env && !strcmp(env, "strict-binding")) m = NumaBindMode::kStrict;
  VX_CHECK(t->bind_mode() == m, "binding mode %d for %s", int(t->bind_mode()), env ? env : "(unset)");
  u64 seen = 0;
  for (int p = 0; p < parts; ++p) {
    u64 w = p == 0 ? 1 : 0;
    for (int n = 0; n < nodes; ++n)
      if (n % parts == p) w |= u64{1} << n;
    VX_CHECK(t->GetPartitionNodes(p) == w, "nodes of partition %d of %d: %llx, should be %llx (%d nodes)", p, parts,
             (unsigned long long)t->GetPartitionNodes(p), (unsigned long long)w, nodes);
    VX_CHECK((seen & w) == 0, "a node in two partitions");
    seen |= w;
  }
  std::vector<int> part(kMaxCpus, 0);
  for (int n = 0; n < nodes; ++n)
    for (int c : cpus[n]) part[c] = n % parts;
  for (int c = -2; c < kMaxCpus; ++c) {
    size_t w = c < 0 ? 0 : part[c];
    VX_CHECK(t->GetCpuPartition(c) == w, "partition of CPU %d is %zu, should be %zu", c, t->GetCpuPartition(c), w);
    VX_CHECK(t->GetCpuScaledPartition(c) == w * S, "scaled partition of CPU %d", c);
#if TCMALLOC_INTERNAL_PERCPU_USE_RSEQ
    __rseq_abi.cpu_id = c;
    size_t cw = aware ? w : 0;
    VX_CHECK(t->GetCurrentPartition() == cw, "current partition on CPU %d is %zu, should be %zu", c, t->GetCurrentPartition(), cw);
    VX_CHECK(t->GetCurrentScaledPartition() == cw * S, "current scaled partition on CPU %d", c);
#endif
  }
}
static const char* kEnvs[] = {nullptr, "no-binding", "advisory-binding", "1", "strict-binding", "0"};
static void numa_setup(const char* env) {
  fs_reset();
  g_files.push_back({"/sys/devices/system/cpu/possible", "0-2047\n", 0});
  if (env) setenv("TCMALLOC_NUMA_AWARE", env, 1);
  else unsetenv("TCMALLOC_NUMA_AWARE");
}
void numa() {
  // every assignment of 5 CPUs (of awkward numbers) to up to 3 nodes, or none
  static const int ids[] = {0, 1, 2, 64, 2047};
  int nodes = choose(4);
  std::vector<std::vector<int>> c(nodes);
  int h = nodes;
  for (int i = 0; i < 5; ++i) {
    int n = choose(nodes + 1);
    h = h * 5 + n;
    if (n < nodes) c[n].push_back(ids[i]);
  }
  int e = choose(6), fast = choose(2), fault = choose(3), p = choose(3);
  vx::op("%d nodes, %s, rseq %d, reads %d, partitions %d", nodes, kEnvs[e] ? kEnvs[e] : "(unset)", fast, fault, p);
  vx::state(vx::mix(h, e * 100 + fast * 50 + fault * 10 + p));
  numa_setup(kEnvs[e]);
  if (p == 0) numa_one<1, 1>(nodes, c, kEnvs[e], fast, fault);
  else if (p == 1) numa_one<2, 172>(nodes, c, kEnvs[e], fast, fault);
  else numa_one<4, 3>(nodes, c, kEnvs[e], fast, fault);
  g_on = false;
}
void numa_many() {
  // every number of nodes up to the 64 the node bitmap has room for
  int nodes = choose(65), p = choose(3), per = 1 + choose(2);
  std::vector<std::vector<int>> c(nodes);
  for (int n = 0; n < nodes; ++n)
    for (int i = 0; i < per; ++i) c[n].push_back(n + i * 1000);
  vx::op("%d nodes with %d CPUs, partitions %d", nodes, per, p);
  vx::state(vx::mix(nodes, p * 2 + per));
  numa_setup("1");
  if (p == 0) numa_one<1, 1>(nodes, c, "1", true, 0);
  else if (p == 1) numa_one<2, 172>(nodes, c, "1", true, 0);
  else numa_one<4, 3>(nodes, c, "1", true, 0);
  g_on = false;
}
void numa_reject() {
  // what must stop the program rather than be guessed at
  int k = choose(5);
  static const char* what[] = {"unknown setting", "unreadable node", "malformed list", "failing read", "empty setting"};
  vx::op("%s", what[k]);
  vx::state(k);
  numa_setup(k == 0 ? "yes" : k == 4 ? "" : "1");
  g_files.push_back({"node", "0\n", 0});
  g_files.push_back({"node", k == 2 ? "1-x\n" : "1\n", k == 1 ? EACCES : 0});
  g_files.push_back({"node", "2\n", 0});
  pid_t pid = fork();
  if (pid == 0) {
    int nul = __real_open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    signal(SIGILL, SIG_DFL);
    signal(SIGTRAP, SIG_DFL);
#if TCMALLOC_INTERNAL_PERCPU_USE_RSEQ
    __rseq_abi.cpu_id = 0;
#endif
    NumaTopology<2, 1> t;
    t.InitForTest([&](size_t n) {
      if (n > 2) { errno = ENOENT; return -1; }
      int fd = fs_open(1 + n);
      if (k == 3 && n == 1) g_fail_at = g_calls;
      return fd;
    });
    _exit(0);
  }
  g_on = false;
  int st = 0;
  waitpid(pid, &st, 0);
  vx::step();
  VX_CHECK(WIFSIGNALED(st), "NUMA set-up went on with a %s", what[k]);
}

// ---- cache topology ----------------------------------------------------------------
void l3() {
  // every partition of up to 6 CPUs into shared caches
  int n = 1 + choose(6);
  int blk[6], nb = 0;
  for (int i = 0; i < n; ++i) {
    blk[i] = choose(nb + 1);
    if (blk[i] == nb) ++nb;
  }
  int fault = choose(4);
  int gone = fault == 3 ? choose(n) : n;  // first CPU without the file
  vx::op("%d CPUs, %d caches, trouble %d, file missing from CPU %d", n, nb, fault, gone);
  uint64_t h = n;
  fs_reset();
  char b[128];
  if (n == 1) snprintf(b, sizeof b, "0\n"); else snprintf(b, sizeof b, "0-%d\n", n - 1);
  g_files.push_back({"/sys/devices/system/cpu/possible", b, 0});
  for (int i = 0; i < n; ++i) {
    h = vx::mix(h, blk[i]);
    if (i >= gone) continue;
    std::string s;
    for (int j = 0; j < n;) {
      if (blk[j] != blk[i]) { ++j; continue; }
      int k = j;
      while (k + 1 < n && blk[k + 1] == blk[i]) ++k;
      s += (s.empty() ? "" : ",") + std::to_string(j);
      if (k > j) s += "-" + std::to_string(k);
      j = k + 1;
    }
    s += "\n";
    snprintf(b, sizeof b, "/sys/devices/system/cpu/cpu%d/cache/index3/shared_cpu_list", i);
    g_files.push_back({b, s, 0});
  }
  vx::state(vx::mix(h, fault * 8 + gone));
  g_eintr = fault == 1;
  if (fault == 2) g_step = 1;
  static char mem[sizeof(CacheTopology)] __attribute__((aligned(64)));
  CacheTopology* t = new (mem) CacheTopology();
  t->Init();
  g_on = false;
  vx::step();
  VX_CHECK(g_open == 0, "cache topology: descriptor left open");
  if (gone < n) {
    // no information beyond the first missing file; what was read is right
    int k = 0;
    bool used[6] = {};
    for (int i = 0; i < gone; ++i)
      if (!used[blk[i]]) used[blk[i]] = true, ++k;
    if (gone > 0 && !used[blk[gone]]) {
      VX_CHECK(int(t->l3_count()) == k, "%u caches, %d seen", t->l3_count(), k);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (used[blk[i]] && used[blk[j]])
            VX_CHECK((t->GetL3FromCpuId(i) == t->GetL3FromCpuId(j)) == (blk[i] == blk[j]), "CPUs %d and %d", i, j);
    }
    return;
  }
  VX_CHECK(int(t->l3_count()) == nb, "%u caches reported, %d exist", t->l3_count(), nb);
  for (int i = 0; i < n; ++i) {
    VX_CHECK(int(t->GetL3FromCpuId(i)) < nb, "cache number out of range");
    for (int j = 0; j < n; ++j)
      VX_CHECK((t->GetL3FromCpuId(i) == t->GetL3FromCpuId(j)) == (blk[i] == blk[j]),
               "CPUs %d and %d %s a cache", i, j, blk[i] == blk[j] ? "share" : "do not share");
  }
}
void l3_unknown() {
  vx::op("number of CPUs unavailable");
  fs_reset();
  static char mem[sizeof(CacheTopology)] __attribute__((aligned(64)));
  CacheTopology* t = new (mem) CacheTopology();
  t->Init();
  g_on = false;
  vx::step();
  vx::state(1);
  VX_CHECK(t->l3_count() == 1, "%u caches without any information", t->l3_count());
}

// ---- /proc/self/maps ------------------------------------------------------------------
struct Line { u64 a, e; const char* perm; u64 off; int maj, min; long long ino; std::string name; };
static std::string line_text(const Line& l) {
  char b[256];
  snprintf(b, sizeof b, "%llx-%llx %s %08llx %02x:%02x %lld", (unsigned long long)l.a, (unsigned long long)l.e, l.perm,
           (unsigned long long)l.off, l.maj, l.min, l.ino);
  std::string s = b;
  if (!l.name.empty()) {
    s.resize(std::max<size_t>(s.size() + 1, 73), ' ');
    s += l.name;
  } else {
    s += " ";
  }
  return s;
}
static const char* kBad[] = {"", "garbage", "1000-2000 r-xp", "1000 r-xp 0 0:0 0", "zz-yy r--p 00 00:00 1", "1000-2000 r-xp 00000000 08:02"};
static std::string g_pathbuf;
static Line shape(int k) {
  switch (k) {
    case 0: return {0x400000, 0x452000, "r-xp", 0, 8, 2, 173521, "/usr/bin/dbus-daemon"};
    case 1: return {0x7fff12345000, 0x7fff12366000, "rw-p", 0, 0, 0, 0, "[stack]"};
    case 2: return {0x7f0000000000, 0x7f0000001000, "---p", 0, 0, 0, 0, ""};
    case 3: return {0x55d0c0000000, 0x55d0c0001000, "rw-s", 0xfffff000, 0xfe, 0xff, 9223372036854775807LL, "/tmp/a b c (deleted)"};
    case 4: return {0xffffffffff600000ull, 0xffffffffff601000ull, "--xp", 0, 0, 0, 0, "[vsyscall]"};
    case 5: return {0x1000, 0x2000, "rwxp", 0x123456789000ull, 0x103, 0x12, 1, "/x"};
    default: return {0x10000, 0x20000, "r--p", 0x1000, 8, 1, 77, "/1000-2000 r-xp 00 00:00 1 /y"};
  }
}
static void check_maps(const std::string& text, const std::vector<Line>& want, int mask, bool prefix_ok) {
  ProcMapsIterator::Buffer* buf = new ProcMapsIterator::Buffer[2];
  memset((void*)buf, 0x5a, sizeof(*buf) * 2);
  {
    clobber();
    ProcMapsIterator it(buf);
    VX_CHECK(it.Valid(), "maps not readable");
    size_t i = 0;
    for (int extra = 0; extra < 3;) {
      u64 a = 1, e = 2, off = 3;
      int64_t ino = 4;
      char *fl = nullptr, *fn = nullptr;
      dev_t dev = 5;
      bool r = it.NextExt(mask & 1 ? &a : nullptr, mask & 2 ? &e : nullptr, mask & 4 ? &fl : nullptr,
                          mask & 8 ? &off : nullptr, mask & 16 ? &ino : nullptr, mask & 32 ? &fn : nullptr,
                          mask & 64 ? &dev : nullptr);
      vx::step();
      if (!r) {
        if (!prefix_ok) VX_CHECK(i == want.size(), "only %zu of %zu mappings reported", i, want.size());
        ++extra;
        continue;
      }
      VX_CHECK(prefix_ok || extra == 0, "a mapping reported after the end");
      VX_CHECK(i < want.size(), "more mappings reported than the %zu there are", want.size());
      const Line& w = want[i];
      if (mask & 1) VX_CHECK(a == w.a, "mapping %zu: start %llx, should be %llx", i, (unsigned long long)a, (unsigned long long)w.a);
      if (mask & 2) VX_CHECK(e == w.e, "mapping %zu: end %llx, should be %llx", i, (unsigned long long)e, (unsigned long long)w.e);
      if (mask & 4) VX_CHECK(!strcmp(fl, w.perm), "mapping %zu: flags %s, should be %s", i, fl, w.perm);
      if (mask & 8) VX_CHECK(off == w.off, "mapping %zu: offset %llx", i, (unsigned long long)off);
      if (mask & 16) VX_CHECK(ino == w.ino, "mapping %zu: inode %lld, should be %lld", i, (long long)ino, w.ino);
      if (mask & 32) VX_CHECK(w.name == fn, "mapping %zu: name \"%.80s\", should be \"%.80s\"", i, fn, w.name.c_str());
      if (mask & 64) VX_CHECK(dev == makedev(w.maj, w.min), "mapping %zu: device", i);
      ++i;
    }
    VX_CHECK(((unsigned char*)buf)[sizeof(*buf)] == 0x5a, "written beyond the buffer");
  }
  delete[] buf;
  VX_CHECK(g_open == 0, "maps: descriptor left open");
}
static const size_t kSteps[] = {1 << 20, 1, 2, 3, 7, 31, 64, 4096};
void maps() {
  int n = choose(vx::thorough() ? 5 : 4);
  std::vector<Line> want;
  std::string text;
  for (int i = 0; i < n; ++i) {
    int k = choose(13);
    if (k < 7) {
      want.push_back(shape(k));
      text += line_text(shape(k)) + "\n";
    } else {
      text += std::string(kBad[k - 7]) + "\n";
    }
  }
  vx::op("%d lines, %zu well-formed", n, want.size());
  vx::state(std::hash<std::string>()(text));
  for (size_t st : kSteps)
    for (int e = 0; e < 2; ++e) {
      fs_reset();
      g_files.push_back({"/proc/thread-self/maps", text, 0});
      g_step = st;
      g_eintr = e;
      check_maps(text, want, 127, false);
      g_on = false;
    }
  for (int mask = 0; mask < 127; ++mask) {
    fs_reset();
    g_files.push_back({"/proc/thread-self/maps", text, 0});
    check_maps(text, want, mask, false);
    g_on = false;
  }
}
void maps_boundary() {
  // a line of every length so that the buffer ends at every place of the next
  int len = 1 + choose(44) * 100;
  len += choose(100);
  std::vector<Line> want;
  std::string text;
  Line l = shape(0);
  l.name = "/" + std::string(std::min(len, 4094), 'p');
  int k = choose(3);
  int copies = len < 600 ? 5120 / (len + 74) + 2 : 2;
  for (int i = 0; i < copies; ++i) {
    l.ino = i;
    want.push_back(l);
    text += line_text(l) + "\n";
  }
  for (int i = 0; i < 3; ++i) {
    Line x = shape((k + i) % 7);
    want.push_back(x);
    text += line_text(x) + "\n";
  }
  vx::op("%d names of %d characters", copies, len);
  vx::state(len * 3 + k);
  for (size_t st : {size_t(1) << 20, size_t(64), size_t(4096)}) {
    fs_reset();
    g_files.push_back({"/proc/thread-self/maps", text, 0});
    g_step = st;
    check_maps(text, want, 127, false);
    g_on = false;
  }
}
void maps_fault() {
  // every failing read; what is reported before it must be right
  int k = choose(7), k2 = choose(7);
  std::vector<Line> want = {shape(k), shape(k2), shape(3)};
  std::string text;
  for (auto& l : want) text += line_text(l) + "\n";
  vx::op("shapes %d %d", k, k2);
  vx::state(k * 8 + k2);
  for (size_t st : {size_t(1), size_t(5), size_t(50), size_t(5000)})
    for (size_t f = 0; f <= text.size() / st + 1; ++f) {
      fs_reset();
      g_files.push_back({"/proc/thread-self/maps", text, 0});
      g_step = st;
      g_fail_at = f;
      check_maps(text, want, 127, true);
      g_on = false;
    }
  fs_reset();
  g_files.push_back({"/proc/thread-self/maps", text, EACCES});
  ProcMapsIterator::Buffer* buf = new ProcMapsIterator::Buffer;
  {
    ProcMapsIterator it(buf);
    VX_CHECK(!it.Valid(), "unreadable maps said to be valid");
  }
  delete buf;
  g_on = false;
}

// ---- /proc/self/status -----------------------------------------------------------------
struct St { const char* key; int idx; };
static const St kSt[] = {{"VmSize", 0}, {"VmRSS", 1}, {"RssFile", 2}, {"RssShmem", 3}, {"VmData", 4},
                         {"VmStk", 5}, {"VmExe", 6}, {"VmPTE", 7}};
static const u64 kVals[] = {0, 1, 4, 123456, 8589934592ull, 9007199254740991ull};
static std::string status_text(const u64* v, int omit, const std::string& groups, bool kb) {
  std::string s = "Name:\tVmSize\nUmask:\t0022\nState:\tR (running)\nPid:\t42\nGroups:\t" + groups + "\nVmPeak:\t  99999 kB\n";
  for (int i = 0; i < 8; ++i) {
    if (omit >> i & 1) continue;
    char b[96];
    snprintf(b, sizeof b, "%s:\t%8llu%s\n", kSt[i].key, (unsigned long long)v[i], kb ? " kB" : "");
    s += b;
    if (i == 0) s += "VmLck:\t       5 kB\nVmHWM:\t    7777 kB\n";
    if (i == 1) s += "RssAnon:\t    1111 kB\n";
    if (i == 6) s += "VmLib:\t    2222 kB\n";
  }
  s += "VmSwap:\t       3 kB\nThreads:\t1\nSigQ:\t0/127\nCpus_allowed_list:\t0-7\n";
  return s;
}
static void check_status(const std::string& text, const u64* v, int omit, bool kb, size_t step, bool eintr, int fail, size_t cut) {
  size_t pos = 0;
  g_step = step;
  g_eintr = false;
  g_fail_at = fail;
  g_calls = 0;
  (void)eintr;
  std::string t = text.substr(0, cut);
  MemoryStats st;
  clobber();
  bool r = GetMemoryStatsFromStatus(st, [&](char* b, size_t n) { return do_read(pos, t, b, n); });
  vx::step();
  u64 f = kb ? 1024 : 1;
  auto x = [&](int i) { return omit >> i & 1 ? 0 : v[i] * f; };
  bool complete = !(omit & 1) && !(omit & 2) && (omit & 12) != 12 && (omit & 48) != 48 && !(omit & 64) && !(omit & 128);
  bool whole = cut >= text.size() && fail < 0;
  if (!complete) VX_CHECK(!r, "memory statistics reported though fields are missing (%x)", omit);
  if (complete && whole) VX_CHECK(r, "memory statistics not found with %zu per read", step);
  if (r) {
    VX_CHECK(u64(st.vss) == x(0), "vss %lld, should be %llu", (long long)st.vss, (unsigned long long)x(0));
    VX_CHECK(u64(st.rss) == x(1), "rss %lld, should be %llu", (long long)st.rss, (unsigned long long)x(1));
    VX_CHECK(u64(st.shared) == x(2) + x(3), "shared %lld, should be %llu", (long long)st.shared, (unsigned long long)(x(2) + x(3)));
    VX_CHECK(u64(st.data) == x(4) + x(5), "data %lld, should be %llu", (long long)st.data, (unsigned long long)(x(4) + x(5)));
    VX_CHECK(u64(st.code) == x(6), "code %lld, should be %llu", (long long)st.code, (unsigned long long)x(6));
    VX_CHECK(u64(st.vmpte) == x(7), "vmpte %lld, should be %llu", (long long)st.vmpte, (unsigned long long)x(7));
  }
}
static const size_t kSt2[] = {1 << 20, 1, 2, 3, 5, 16, 100, 511, 1023, 1024};
void status() {
  u64 v[8];
  int a = choose(8), av = choose(6), omit = choose(16) * 16;
  omit += choose(16);
  for (int i = 0; i < 8; ++i) v[i] = 1000 + 37 * i;
  v[a] = kVals[av];
  int kb = choose(2);
  vx::op("%s = %llu, omitted %x, kB %d", kSt[a].key, (unsigned long long)v[a], omit, kb);
  vx::state(vx::mix(a * 6 + av, omit * 2 + kb));
  std::string s = status_text(v, omit, "0 27 1000", kb);
  for (size_t st : kSt2) check_status(s, v, omit, kb, st, false, -1, 1 << 20);
}
void status_boundary() {
  // other lines of every length up to beyond twice the buffer
  int len = choose(23) * 100;
  len += choose(100);
  u64 v[8];
  for (int i = 0; i < 8; ++i) v[i] = 100000 + 3777 * i;
  std::string g;
  while (g.size() + 6 < size_t(len)) g += "65534 ";
  g.resize(len, '1');
  std::string s = status_text(v, 0, g, true);
  vx::op("a line of %d characters", len);
  vx::state(len);
  for (size_t st : kSt2) check_status(s, v, 0, true, st, false, -1, 1 << 20);
}
void status_fault() {
  u64 v[8];
  for (int i = 0; i < 8; ++i) v[i] = 100000 + 3777 * i;
  int pad = choose(40) * 25;
  std::string s = status_text(v, 0, std::string(pad, '1'), true);
  vx::op("padding %d", pad);
  vx::state(pad);
  for (size_t cut = 0; cut <= s.size(); ++cut) check_status(s, v, 0, true, cut & 1 ? 64 : 1 << 20, false, -1, cut);
  for (size_t st : {size_t(7), size_t(64), size_t(1024)})
    for (size_t f = 0; f < s.size() / st + 2; ++f) check_status(s, v, 0, true, st, false, f, 1 << 20);
  static const char* bad[] = {"VmRSS:\tabc kB\n", "VmRSS\t5 kB\n", "VmRSS:\t kB\n", "VmRSS:\t99999999999999999999999 kB\n", "XVmRSS:\t5 kB\n", "VmRSSX:\t5 kB\n", "vmrss:\t5 kB\n"};
  for (const char* b : bad) {
    std::string t = status_text(v, 2, "0", true);
    size_t p = t.find("RssAnon");
    if (p == std::string::npos) p = t.find("RssFile");
    t.insert(p, b);
    check_status(t, v, 2, true, 1 << 20, false, -1, 1 << 20);
  }
}
void status_file() {
  int fault = choose(5);
  vx::op("trouble %d", fault);
  vx::state(fault);
  u64 v[8];
  for (int i = 0; i < 8; ++i) v[i] = 1000 + i;
  fs_reset();
  g_files.push_back({"/proc/self/status", status_text(v, 0, "0", true), 0});
  g_eintr = fault == 1;
  if (fault == 2) g_step = 3;
  if (fault == 3) g_fail_at = 0;
  if (fault == 4) g_poll0 = true, g_step = 10;
  MemoryStats st;
  bool r = GetMemoryStats(st);
  g_on = false;
  vx::step();
  VX_CHECK(g_open == 0, "status: descriptor left open");
  VX_CHECK(r == (fault != 3), "GetMemoryStats returned %d", r);
  if (r) VX_CHECK(st.vss == 1000 * 1024 && st.vmpte == 1007 * 1024 && st.shared == 2005 * 1024, "statistics differ");
}

// ---- hugepage fragmentation ----------------------------------------------------------------
void frag() {
  static const struct { const char* t; double v; } k[] = {{"0.25\n", .25}, {"0\n", 0}, {"1\n", 1}, {"0.0625", .0625}, {"0.123456789012\n", 0.123456789012},
      {"", -1}, {"\n", -1}, {"x\n", -1}, {"0.5x\n", -1}, {"1 2\n", -1}};
  int i = choose(10), fault = choose(5), node = choose(3) * 7;
  vx::op("node %d, ratio \"%s\", trouble %d", node, k[i].t, fault);
  vx::state(i * 15 + fault * 3 + node / 7);
  fs_reset();
  char p[96];
  snprintf(p, sizeof p, "/sys/devices/system/node/node%d/hugepage_fragmentation_ratio", node);
  g_files.push_back({p, k[i].t, 0});
  double w = k[i].v;
  g_eintr = fault == 1;
  if (fault == 2) g_step = 1;
  if (fault == 3) g_fail_at = 0, w = -1;
  if (fault == 4) g_files[0].err = ENOENT, w = -1;
  clobber();
  std::optional<double> r = GetHugepageFragmentationRatio(node);
  g_on = false;
  vx::step();
  VX_CHECK(g_open == 0, "fragmentation: descriptor left open");
  VX_CHECK(r.value_or(-1) == w, "ratio %f, should be %f", r.value_or(-1), w);
}

// ---- the reading helper -------------------------------------------------------------------
void safe_read() {
  // every file length and request up to 6, every sequence of read outcomes
  int n = choose(7), want = choose(8), step = 1 + choose(3), eintr = choose(2), poll0 = choose(2), fail = choose(6) - 1;
  vx::op("%d of %d bytes, %d at a time, eintr %d, poll %d, failure at %d", want, n, step, eintr, poll0, fail);
  vx::state(((((n * 8 + want) * 3 + step) * 2 + eintr) * 2 + poll0) * 8 + fail + 1);
  fs_reset();
  g_files.push_back({"f", std::string("abcdef").substr(0, n), 0});
  g_step = step;
  g_eintr = eintr;
  g_poll0 = poll0;
  g_fail_at = fail;
  int fd = signal_safe_open("f", O_RDONLY);
  char b[16];
  memset(b, '#', sizeof b);
  size_t got = 99;
  errno = 0;
  ssize_t r = signal_safe_read(fd, b, want, &got);
  bool failed = g_fail_at >= 0 && g_calls > g_fail_at;
  size_t pos = g_fd[0].pos;
  signal_safe_close(fd);
  g_on = false;
  vx::step();
  VX_CHECK(got == pos, "%zu bytes reported, %zu taken from the file", got, pos);
  VX_CHECK(got <= size_t(want) && !memcmp(b, "abcdef", got), "wrong bytes");
  for (size_t i = got; i < sizeof b; ++i) VX_CHECK(b[i] == '#', "written beyond what was read");
  if (failed) VX_CHECK(r == -1, "a failing read reported as %zd", r);
  else {
    VX_CHECK(r == ssize_t(got), "returned %zd of %zu", r, got);
    if (!poll0) VX_CHECK(r == std::min(n, want), "stopped after %zd of %d", r, std::min(n, want));
    else VX_CHECK(r > 0 || std::min(n, want) == 0, "nothing read though there is data");
  }
}

int main(int argc, char** argv) {
  tcmalloc::tcmalloc_internal::log_message_writer = [](const char*, int) {};
  static vx::Scenario sc[] = {
      {"CPU lists, every short text and split", cpulist_short, 4},
      {"CPU lists longer than the buffer", cpulist_long, 2000},
      {"number of CPUs", num_cpus, 50},
      {"NUMA topology", numa, 500},
      {"NUMA topology, many nodes", numa_many, 50},
      {"NUMA topology, rejected", numa_reject, 1},
      {"shared caches", l3, 1},
      {"shared caches, number of CPUs unknown", l3_unknown, 1},
      {"mappings", maps, 100},
      {"mappings, buffer boundary", maps_boundary, 100},
      {"mappings, failing reads", maps_fault, 10},
      {"memory statistics", status, 500},
      {"memory statistics, buffer boundary", status_boundary, 50},
      {"memory statistics, truncated or failing", status_fault, 5},
      {"memory statistics, file", status_file, 50},
      {"fragmentation ratio", frag, 50},
      {"reading helper", safe_read, 500},
  };
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

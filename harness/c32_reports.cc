// C32: the statistics reports of the whole allocator against every kind of
// buffer size.
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <string>
#include <vector>
#include "lib/e2e.h"
using namespace e2e;
using vx::choose;
extern "C" size_t TCMalloc_Internal_GetStats(char*, size_t);
extern "C" int MallocExtension_Internal_GetStatsInPbtxt(char*, int);

static const size_t kArea = 1 << 21;
static unsigned char* g_area;
static char *g_f1, *g_f2;
static size_t g_n1, g_n2;

// Reports contain times: while one is made, the processor's counter stands
// still (reading it traps, and the handler supplies a constant).
static uint64_t g_tsc;
static struct sigaction g_old;
static void on_segv(int sig, siginfo_t* si, void* uc) {
  ucontext_t* c = (ucontext_t*)uc;
  greg_t* r = c->uc_mcontext.gregs;
  const unsigned char* p = (const unsigned char*)r[REG_RIP];
  // Any fault at an instruction that is not a counter read is a real one.
  size_t len = 0;
  if (si->si_addr == nullptr || si->si_code == SI_KERNEL) {
    if (p[0] == 0x0f && p[1] == 0x31) len = 2;
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) len = 3, r[REG_RCX] = 0;
  }
  if (!len) {
    sigaction(SIGSEGV, &g_old, nullptr);
    return;
  }
  r[REG_RAX] = g_tsc & 0xffffffff;
  r[REG_RDX] = g_tsc >> 32;
  r[REG_RIP] += len;
}
// ... and so do the process's resident size and the like.
static int g_status = -1;
extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  if (g_status >= 0 && !strcmp(p, "/proc/self/status")) {
    char b[64];
    snprintf(b, sizeof b, "/proc/self/fd/%d", g_status);
    return __real_open(b, O_RDONLY);
  }
  return __real_open(p, fl, m);
}
static void freeze_status() {
  int f = __real_open("/proc/self/status", O_RDONLY);
  char b[8192];
  ssize_t n = read(f, b, sizeof b);
  close(f);
  g_status = memfd_create("status", 0);
  VX_CHECK(n > 0 && g_status >= 0 && write(g_status, b, n) == n, "harness error: status");
}
static size_t report(bool pb, char* b, size_t n) {
  struct sigaction sa = {};
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, &g_old);
  if (!g_tsc) g_tsc = __builtin_ia32_rdtsc();
  VX_CHECK(prctl(PR_SET_TSC, PR_TSC_SIGSEGV) == 0, "harness error: cannot stop the counter");
  size_t r = pb ? size_t(MallocExtension_Internal_GetStatsInPbtxt(b, n)) : TCMalloc_Internal_GetStats(b, n);
  prctl(PR_SET_TSC, PR_TSC_ENABLE);
  sigaction(SIGSEGV, &g_old, nullptr);
  return r;
}
// Structured text: key: value and key { ... }, brackets balanced.
static const char* parse(const char* p, const char* e, int depth) {
  auto ws = [&] { while (p < e && (*p == ' ' || *p == '\n')) ++p; };
  auto word = [&](const char* extra) {
    const char* s = p;
    while (p < e && (isalnum((unsigned char)*p) || strchr(extra, *p))) ++p;
    return p - s;
  };
  for (;;) {
    ws();
    if (p == e) { VX_CHECK(depth == 0, "structured text ends inside %d regions", depth); return p; }
    if (*p == '}') { VX_CHECK(depth > 0, "structured text: unmatched bracket"); return p + 1; }
    const char* at = p;
    VX_CHECK((isalpha((unsigned char)*p) || *p == '_') && word("_") > 0, "structured text: key expected at \"%.30s\"", p);
    if (p < e && *p == ':') {
      ++p;
      ws();
      if (p < e && *p == '"') {
        ++p;
        while (p < e && *p != '"') ++p;
        VX_CHECK(p < e, "structured text: open string");
        ++p;
      } else {
        VX_CHECK(word("_+-.") > 0, "structured text: no value at \"%.30s\"", at);
      }
      VX_CHECK(p == e || *p == ' ' || *p == '\n' || *p == '}', "structured text: junk after a value at \"%.30s\"", at);
    } else {
      ws();
      VX_CHECK(p < e && *p == '{', "structured text: neither value nor region at \"%.30s\"", at);
      p = parse(p + 1, e, depth + 1);
    }
  }
}
static void one(bool pb, size_t n, const char* full, size_t nfull, bool exact) {
  // `full`: the longest text known for this level; exact when it is complete
  unsigned char* b = g_area + 64;
  memset(g_area, 0xaa, 64 + n + 4096);
  size_t r = report(pb, (char*)b, n);
  vx::step();
  for (int i = 0; i < 64; ++i) VX_CHECK(g_area[i] == 0xaa, "written before the buffer");
  for (size_t i = n; i < n + 4096; ++i) VX_CHECK(b[i] == 0xaa, "%s report into %zu bytes: written %zu beyond the end", pb ? "structured" : "text", n, i - n);
  size_t w = 0;
  while (w < n && b[w] != 0 && b[w] != 0xaa) ++w;
  if (!pb) VX_CHECK(w < n && b[w] == 0, "text report into %zu bytes not terminated", n);
  size_t m = std::min(w, nfull);
  if (memcmp(b, full, m) != 0) {
    size_t d = 0;
    while (b[d] == (unsigned char)full[d]) ++d;
    vx::fail("%s report into %zu bytes differs from the longer one at %zu: \"%.40s\" / \"%.40s\"", pb ? "structured" : "text", n, d, b + (d > 20 ? d - 20 : 0), full + (d > 20 ? d - 20 : 0));
  }
  if (exact) {
    VX_CHECK(w <= nfull, "%s report into %zu bytes longer than the complete one", pb ? "structured" : "text", n);
    if (n > nfull) {
      VX_CHECK(r == nfull, "%s report into %zu bytes states %zu, needs %zu", pb ? "structured" : "text", n, r, nfull);
      VX_CHECK(w == nfull, "%s report into %zu bytes: %zu of %zu written", pb ? "structured" : "text", n, w, nfull);
      VX_CHECK(b[r] == 0, "%s report into %zu bytes not terminated though it fits", pb ? "structured" : "text", n);
    } else {
      VX_CHECK(r >= n, "%s report that needs %zu claims to fit %zu", pb ? "structured" : "text", nfull, n);
      VX_CHECK(r <= nfull, "%s report that needs %zu states %zu", pb ? "structured" : "text", nfull, r);
      if (!pb) VX_CHECK(w == std::min(n - 1, nfull) || r > n, "text report into %zu: %zu written", n, w);
    }
  } else {
    VX_CHECK(r >= n || w == r, "%s report into %zu bytes states %zu, %zu written", pb ? "structured" : "text", n, r, w);
    if (!pb && r >= n) VX_CHECK(w == n - 1, "text report into %zu bytes: only %zu written", n, w);
  }
}
static void prepare(int shape) {
  // report shapes: how much there is to report
  if (shape == 0) return;
  for (int i = 0; i < 200; ++i) do_alloc(0, 8 + i * 40);
  do_alloc(0, 300 << 10);
  do_alloc(0, 3 << 20);
  if (shape >= 2) {
    for (int i = 0; i < 40; ++i) do_alloc(0, 20 << 10);
    for (int i = 0; i < nblk; i += 2) free_any(i);
    MallocExtension::ReleaseMemoryToSystem(1 << 20);
  }
  if (shape >= 3) {
    MallocExtension::SetMemoryLimit(100ull << 30, MallocExtension::LimitKind::kSoft);
    background_once();
  }
}
void reports() {
  int shape = choose(4), pb = choose(2), slice = choose(16);
  vx::op("shape %d, %s, slice %d of the sizes", shape, pb ? "structured" : "text", slice);
  vx::state(shape * 32 + pb * 16 + slice);
  g_area = (unsigned char*)mmap(nullptr, kArea, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_f1 = (char*)mmap(nullptr, kArea, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_f2 = (char*)mmap(nullptr, kArea, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  // touch everything first: the reports include the process's resident size
  memset(g_area, 0xaa, kArea);
  memset(g_f1, 0, kArea);
  memset(g_f2, 0, kArea);
  prepare(shape);
  freeze_status();
  for (int i = 0; i < 6; ++i) report(pb, (char*)g_area + 64, i & 1 ? 9000 : kArea - 8192);
  g_n2 = report(pb, g_f2, kArea - 8192);
  VX_CHECK(g_n2 < kArea - 8192 && g_n2 > 10000, "a report of %zu bytes", g_n2);
  VX_CHECK(strlen(g_f2) == g_n2, "report of %zu bytes, stated %zu", strlen(g_f2), g_n2);
  size_t r1 = report(pb, g_f1, 9999);
  bool exact1 = r1 < 9999;
  g_n1 = exact1 ? r1 : strnlen(g_f1, 9999);
  if (pb) {
    parse(g_f2, g_f2 + g_n2, 0);
    if (exact1) parse(g_f1, g_f1 + g_n1, 0);
  }
  auto go = [&](size_t n) {
    if (n < 1 || n > kArea - 8192) return;
    if (n < 10000) one(pb, n, g_f1, g_n1, exact1);
    else one(pb, n, g_f2, g_n2, true);
  };
  size_t k = 0;
  auto mine = [&](size_t n) { if (k++ % 16 == size_t(slice)) go(n); };
  for (size_t n = 1; n <= 400; ++n) mine(n);
  for (size_t n = 401; n < 9980; n += vx::thorough() ? 1 : 37) mine(n);
  for (size_t n = 9980; n <= 10020; ++n) mine(n);
  for (size_t n = 10021; n < g_n2; n += vx::thorough() ? 331 : 7331) mine(n);
  for (size_t n = g_n2 - 260; n <= g_n2 + 20; ++n) mine(n);
  if (exact1) for (size_t n = g_n1 > 260 ? g_n1 - 260 : 1; n <= g_n1 + 20; ++n) mine(n);
  if (!pb && slice == 0) {
    std::string* s = new std::string;
    *s = MallocExtension::GetStats();
    VX_CHECK(s->size() > 10000 && strlen(s->c_str()) == s->size(), "GetStats string of %zu bytes", s->size());
    delete s;
  }
}

int main(int argc, char** argv) {
  init(0);
  static vx::Scenario sc[] = {
      {"reports", reports, 1},
  };
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

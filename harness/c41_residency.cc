// C41: resident, swapped, stale and locked bytes of a range are the exact
// totals over its pages, across every buffer boundary; errors are reported.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include <string>
#include <vector>
#include "lib/explore.h"
#include "tcmalloc/internal/logging.h"
#define private public
#include "tcmalloc/internal/mincore.h"
#include "tcmalloc/internal/pageflags.h"
#include "tcmalloc/internal/residency.h"
#undef private
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;
typedef uint64_t u64;
typedef uintptr_t u;
static const size_t PG = 4096;
static const u kBase = 0x7f1234400000;  // huge-page aligned

// ---- the modelled kernel files: one 8-byte entry per page -------------------------
static bool g_on;
static u64 (*g_entry)(u page);
static size_t g_step;
static bool g_eintr;
static int g_flip, g_calls, g_fail_at, g_fail_kind, g_seeks, g_seek_fail, g_open;
static bool g_open_fail;
static size_t g_off;
static bool g_failed;
static const char* g_scan;  // contents of scan_seconds, or null
static size_t g_scan_pos;
static int g_scan_err;
static size_t g_total, g_cap;
static void io_reset() {
  g_step = 1 << 20;
  g_eintr = false;
  g_flip = g_calls = g_seeks = g_open = 0;
  g_fail_at = g_seek_fail = -1;
  g_fail_kind = 0;
  g_open_fail = g_failed = false;
  g_scan = "120\n";
  g_scan_pos = 0;
  g_scan_err = 0;
  g_on = true;
}
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
int __real_poll(struct pollfd*, nfds_t, int);
off_t __real_lseek(int, off_t, int);
int __wrap_open(const char* p, int fl, ...) {
  if (g_on) {
    if (strstr(p, "scan_seconds")) {
      if (!g_scan) { errno = ENOENT; return -1; }
      ++g_open;
      g_scan_pos = 0;
      return 2000;
    }
    if (g_open_fail) { errno = EACCES; return -1; }
    ++g_open;
    return 1000;
  }
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  return __real_open(p, fl, m);
}
int __wrap_close(int fd) {
  if (fd >= 1000) { --g_open; return 0; }
  return __real_close(fd);
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
  if (fd < 1000 && !g_on) return __real_lseek(fd, o, wh);
  if (fd != 1000) { errno = EBADF; return -1; }
  VX_CHECK(wh == SEEK_SET, "harness error: lseek");
  if (g_seeks++ == g_seek_fail) { g_failed = true; errno = EINVAL; return -1; }
  g_off = o;
  return o;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd == 2000) {
    if (g_scan_err) { errno = g_scan_err; return -1; }
    size_t k = std::min(n, strlen(g_scan) - g_scan_pos);
    memcpy(b, g_scan + g_scan_pos, k);
    g_scan_pos += k;
    return k;
  }
  if (fd != 1000) {
    if (g_on) { errno = EBADF; return -1; }
    return __real_read(fd, b, n);
  }
  if (g_calls++ == g_fail_at) {
    g_failed = true;
    if (g_fail_kind == 0) { errno = EIO; return -1; }
    if (g_fail_kind == 1) return 0;               // end of file
    g_fail_at = g_calls;                          // a short read, then the end
    g_fail_kind = 1;
    n = n > 8 ? n - 8 : n / 2;
    if (n < 8) { memset(b, 0xff, n); return n; }
  } else if (g_eintr && (g_flip ^= 1)) {
    errno = EINTR;
    return -1;
  }
  n = std::min(n, g_step);
  char* out = (char*)b;
  for (size_t i = 0; i < n;) {
    u64 e = g_entry((g_off + i) / 8);
    size_t in = (g_off + i) % 8, k = std::min(8 - in, n - i);
    memcpy(out + i, (char*)&e + in, k);
    i += k;
  }
  g_off += n;
  return n;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t) {
  if (!g_on) return __real_poll(p, n, t);
  p->revents = POLLIN;
  return 1;
}
}
static void clobber() {
  char b[9000];
  memset(b, 0xff, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}

// ---- page states -----------------------------------------------------------------
static const int kMaxPg = 9000;
static unsigned char g_state[kMaxPg];  // per page from kBase
static int state_of(u page) {
  u b = kBase / PG;
  return page >= b && page < b + kMaxPg ? g_state[page - b] : 9;  // outside: must not count
}
// what else is in an entry must not matter
static u64 noise(u page) { return (page * 0x9e3779b97f4a7c15ull) & 0x1fffffffffffffffull; }
static u64 pagemap_entry(u page) {
  switch (state_of(page)) {
    case 0: return noise(page);
    case 1: return noise(page) | 1ull << 63;
    case 2: return noise(page) | 1ull << 62;
    case 3: return noise(page) | 3ull << 62;
    default: return ~0ull;
  }
}
static size_t part(u a, size_t n, u page) {
  u lo = std::max(a, page * PG), hi = std::min(a + n, (page + 1) * PG);
  return hi > lo ? hi - lo : 0;
}

static void check_residency(u a, size_t n) {
  clobber();
  char mem[sizeof(ResidencyPageMap)] __attribute__((aligned(64)));
  memset(mem, 0xff, sizeof mem);
  ResidencyPageMap* r = new (mem) ResidencyPageMap();
  g_failed = false;
  auto got = r->Get((void*)a, n);
  vx::step();
  bool failed = g_failed || (g_open_fail);
  if (failed) VX_CHECK(!got.has_value(), "a failing query of %zu bytes reported as a number", n);
  else {
    VX_CHECK(got.has_value(), "residency of %zu bytes at +%llx unavailable", n, (unsigned long long)(a - kBase));
    size_t res = 0, sw = 0;
    size_t pages = n ? (a + n - 1) / PG - a / PG + 1 : 0;
    for (size_t i = 0; i < pages; ++i) {
      u p = a / PG + i;
      int s = state_of(p);
      if (s & 1) res += part(a, n, p);
      if (s & 2) sw += part(a, n, p);
      if (i < kMaxResidencyBits)
        VX_CHECK(got->page_is_resident.GetBit(i) == !!(s & 1), "page %zu of the range is %d in the bitmap", i, got->page_is_resident.GetBit(i));
    }
    for (size_t i = pages; i < kMaxResidencyBits; ++i) VX_CHECK(!got->page_is_resident.GetBit(i), "a page beyond the range is set in the bitmap");
    VX_CHECK(got->bytes_resident == res, "%zu bytes at +%llx: %zu resident, should be %zu", n, (unsigned long long)(a - kBase), got->bytes_resident, res);
    VX_CHECK(got->bytes_swapped == sw, "%zu bytes at +%llx: %zu swapped, should be %zu", n, (unsigned long long)(a - kBase), got->bytes_swapped, sw);
  }
  r->~ResidencyPageMap();
  VX_CHECK(g_open == 0, "descriptor left open");
}
static const size_t kOffs[] = {0, 1, 2048, 4095};
void res_small() {
  // up to 4 pages in every combination of states, every start/end class
  int n = 1 + choose(4);
  u64 h = n;
  for (int i = 0; i < n; ++i) { g_state[i + 1] = choose(4); h = h * 5 + g_state[i + 1]; }
  g_state[0] = g_state[n + 1] = 3;
  vx::op("%d pages, states %llx", n, (unsigned long long)h);
  vx::state(h);
  g_entry = pagemap_entry;
  for (size_t so : kOffs)
    for (size_t eo : {size_t(1), size_t(2), size_t(2048), size_t(4095), size_t(4096)}) {
      if (n == 1 && eo <= so) continue;
      u a = kBase + PG + so, e = kBase + n * PG + eo;
      io_reset();
      check_residency(a, e - a);
      io_reset();
      g_step = 3;
      g_eintr = true;
      check_residency(a, e - a);
    }
  io_reset();
  check_residency(kBase + PG, 0);
  for (int k = 0; k < 3; ++k)
    for (int f = 0; f < 4; ++f) {
      io_reset();
      g_fail_at = f;
      g_fail_kind = k;
      check_residency(kBase + PG + 5, n * PG - 7);
    }
  io_reset();
  g_seek_fail = 0;
  check_residency(kBase + PG + 5, n * PG - 7);
  io_reset();
  g_open_fail = true;
  check_residency(kBase + PG + 5, n * PG - 7);
  g_on = false;
}
void res_long() {
  // lengths around the read buffer and around the bitmap, special pages at the edges
  static const int base[] = {510, 1022, 1534, 2046};
  int n = base[choose(vx::thorough() ? 4 : 2)] + choose(7);
  int bg = choose(4), st = choose(4);
  static const int at[] = {0, 1, 510, 511, 512, 513, 514, 1023, 1024, 1025, -1, -2};
  int w = at[choose(12)], w2 = at[choose(12)];
  if (w < 0) w += n;
  if (w2 < 0) w2 += n;
  memset(g_state, 3, sizeof g_state);
  memset(g_state + 7, bg, n);
  if (w < n) g_state[7 + w] = st;
  if (w2 < n) g_state[7 + w2] = st ^ 1;
  vx::op("%d pages of state %d, %d at %d, %d at %d", n, bg, st, w, st ^ 1, w2);
  vx::state(vx::mix(n * 16 + bg * 4 + st, w * 10000 + w2));
  g_entry = pagemap_entry;
  for (size_t so : {size_t(0), size_t(4095)})
    for (size_t eo : {size_t(1), size_t(4096)}) {
      u a = kBase + 7 * PG + so, e = kBase + (7 + n - 1) * PG + eo;
      io_reset();
      check_residency(a, e - a);
    }
  if (w == 0 && w2 == 0)
    for (int k = 0; k < 3; ++k)
      for (int f = 0; f < 6; ++f) {
        io_reset();
        g_fail_at = f;
        g_fail_kind = k;
        g_eintr = k == 2;
        check_residency(kBase + 7 * PG + 5, n * PG - 7);
      }
  g_on = false;
}
void bitmaps() {
  // one huge page: every run of one state against a background of another
  int bg = choose(4), st = choose(4), lo = choose(16), hi = choose(16);
  static const int at[] = {0, 1, 2, 62, 63, 64, 65, 127, 128, 255, 256, 447, 448, 510, 511, 512};
  int a = at[lo], b = at[hi];
  memset(g_state, 3, sizeof g_state);
  memset(g_state + 512, bg, 512);
  for (int i = a; i < b; ++i) g_state[512 + i] = st;
  vx::op("states %d, %d in [%d,%d)", bg, st, a, b);
  vx::state(((bg * 4 + st) * 16 + lo) * 16 + hi);
  g_entry = pagemap_entry;
  for (int fault = 0; fault < 8; ++fault) {
    io_reset();
    if (fault == 1) g_eintr = true, g_step = 100;
    if (fault >= 2 && fault <= 4) g_fail_at = 0, g_fail_kind = fault - 2;
    if (fault == 5) g_seek_fail = 0;
    if (fault == 6) g_open_fail = true;
    if (fault == 4 && lo) continue;
    ResidencyPageMap r;
    g_failed = false;
    clobber();
    u addr = kBase + 512 * PG + (fault == 7 ? PG : 0);
    auto got = r.GetUnbackedAndSwappedBitmaps((void*)addr);
    vx::step();
    if (fault >= 2) {
      VX_CHECK(got.status != absl::StatusCode::kOk, "failing query (trouble %d) reported as fine", fault);
      continue;
    }
    VX_CHECK(got.status == absl::StatusCode::kOk, "status %d", int(got.status));
    for (int i = 0; i < 512; ++i) {
      int s = g_state[512 + i];
      VX_CHECK(got.unbacked.GetBit(i) == (s == 0), "page %d unbacked: %d", i, got.unbacked.GetBit(i));
      VX_CHECK(got.swapped.GetBit(i) == (s == 2), "page %d swapped: %d", i, got.swapped.GetBit(i));
    }
  }
  g_on = false;
}

// ---- page flags: native pages and transparent huge pages -----------------------------
// g_huge[h]: region h is one huge page; its state is that of its first page.
static bool g_huge[16];
static u64 fl_bits(int s) { return (s & 1 ? 1ull << 44 : 0) | (s & 2 ? 1ull << 33 : 0) | (s & 4 ? 1ull << 18 : 0); }
static u64 fl_noise(u page) { return (page * 0x9e3779b97f4a7c15ull) & 0x3fff & ~0ull; }
static int eff(u page) {  // state of the page for the oracle
  u i = page - kBase / PG;
  if (i >= u(kMaxPg)) return 9;
  if (g_huge[i / 512]) return g_state[i / 512 * 512];
  return g_state[i];
}
static u64 flags_entry(u page) {
  u i = page - kBase / PG;
  if (i >= u(kMaxPg)) return 1ull << 44 | 1ull << 33;
  if (g_huge[i / 512]) {
    if (i % 512 == 0) return fl_noise(page) | fl_bits(g_state[i]) | 1ull << 15 | 1ull << 22;
    return fl_noise(page) | 1ull << 16 | 1ull << 22;  // tails carry neither
  }
  return fl_noise(page) | fl_bits(g_state[i]);
}
static void check_flags(PageFlags& f, u a, size_t n, u64 scan) {
  g_failed = false;
  clobber();
  auto got = f.Get((void*)a, n);
  vx::step();
  if (g_failed || g_open_fail) {
    VX_CHECK(!got.has_value(), "a failing page-flags query of %zu bytes reported as a number", n);
    return;
  }
  VX_CHECK(got.has_value(), "page flags of %zu bytes at +%llx unavailable", n, (unsigned long long)(a - kBase));
  size_t stale = 0, locked = 0;
  if (n)
    for (u p = a / PG; p <= (a + n - 1) / PG; ++p) {
      int s = eff(p);
      if (s & 1) stale += part(a, n, p);
      if (s & 6) locked += part(a, n, p);
    }
  VX_CHECK(got->bytes_stale == stale, "%zu bytes at +%llx: %zu stale, should be %zu", n, (unsigned long long)(a - kBase), got->bytes_stale, stale);
  VX_CHECK(got->bytes_locked == locked, "%zu bytes at +%llx: %zu locked, should be %zu", n, (unsigned long long)(a - kBase), got->bytes_locked, locked);
  VX_CHECK(got->stale_scan_seconds == (stale ? scan : 0), "scan period %llu, should be %llu", (unsigned long long)got->stale_scan_seconds, (unsigned long long)(stale ? scan : 0));
}
void flags_small() {
  memset(g_huge, 0, sizeof g_huge);
  int n = 1 + choose(4);
  u64 h = n;
  memset(g_state, 7, sizeof g_state);
  for (int i = 0; i < n; ++i) { g_state[i + 1] = choose(n < 4 ? 8 : 4); h = h * 9 + g_state[i + 1]; }
  vx::op("%d pages, states %llx", n, (unsigned long long)h);
  vx::state(h);
  g_entry = flags_entry;
  io_reset();
  {
    PageFlags f;
    for (size_t so : kOffs)
      for (size_t eo : {size_t(1), size_t(2), size_t(2048), size_t(4095), size_t(4096)}) {
        if (n == 1 && eo <= so) continue;
        u a = kBase + PG + so, e = kBase + n * PG + eo;
        g_eintr = eo == 1;
        g_step = eo == 1 ? 3 : 1 << 20;
        check_flags(f, a, e - a, 120);
      }
    check_flags(f, kBase + PG, 0, 120);
  }
  VX_CHECK(g_open == 0, "descriptor left open");
  for (int k = 0; k < 5; ++k)
    for (int c = 0; c < 4; ++c) {
      io_reset();
      if (k < 3) g_fail_at = c, g_fail_kind = k;
      if (k == 3) g_seek_fail = c;
      if (k == 4) g_open_fail = true;
      PageFlags f;
      check_flags(f, kBase + PG + 5, n * PG - 7, 120);
    }
  g_on = false;
}
void flags_huge() {
  // three regions, each native or huge, with every kind of start and end
  int kind[3];
  u64 h = 0;
  memset(g_state, 0, sizeof g_state);
  memset(g_huge, 0, sizeof g_huge);
  for (int r = 0; r < 3; ++r) {
    kind[r] = choose(7);  // 0-3: huge with state 0-3; 4: native clear; 5: native stale edges; 6: native alternating
    h = h * 8 + kind[r];
    int b = (r + 1) * 512;
    if (kind[r] < 4) {
      g_huge[r + 1] = true;
      g_state[b] = kind[r];
      memset(g_state + b + 1, 3 ^ kind[r], 511);  // must not be looked at
    } else if (kind[r] == 5) {
      g_state[b] = g_state[b + 511] = 1;
      g_state[b + 1] = 2;
    } else if (kind[r] == 6) {
      for (int i = 0; i < 512; ++i) g_state[b + i] = i % 3;
    }
  }
  memset(g_state, 7, 512);
  memset(g_state + 2048, 7, 512);
  int sp = choose(6);
  static const size_t st[] = {0, 1, 255, 510, 511, 512};
  vx::op("regions %d %d %d from page %zu", kind[0], kind[1], kind[2], st[sp]);
  vx::state(h * 8 + sp);
  g_entry = flags_entry;
  io_reset();
  PageFlags f;
  static const size_t len[] = {1, 2, 3, 256, 510, 511, 512, 513, 514, 1023, 1024, 1025, 1534, 1535, 1536};
  for (size_t l : len) {
    if (st[sp] + l > 1536) continue;
    for (size_t so : {size_t(0), size_t(4095)})
      for (size_t eo : {size_t(1), size_t(4096)}) {
        u a = kBase + (512 + st[sp]) * PG + so, e = kBase + (512 + st[sp] + l - 1) * PG + eo;
        if (e <= a) continue;
        check_flags(f, a, e - a, 120);
      }
    if (choose(1) == 0 && (l == 1 || l == 513 || l == 1536)) {
      u a = kBase + (512 + st[sp]) * PG + 9;
      for (int k = 0; k < 4; ++k)
        for (int c = 0; c < 6; ++c) {
          io_reset();
          if (k < 3) g_fail_at = c, g_fail_kind = k;
          else g_seek_fail = c;
          check_flags(f, a, l * PG - 20, 120);
        }
      io_reset();
    }
  }
  // what backs a page, and the per-page view of a whole huge page
  for (int i : {0, 1, 511, 512, 700, 1024, 1535}) {
    g_failed = false;
    u a = kBase + (512 + i) * PG + 77;
    auto b = f.IsHugepageBacked((void*)a);
    vx::step();
    VX_CHECK(b.has_value() && *b == g_huge[1 + i / 512], "page %d said to be %s", i, b.has_value() && *b ? "huge" : "not huge");
    for (int k = 0; k < 4; ++k) {
      io_reset();
      if (k < 3) g_fail_at = 0, g_fail_kind = k;
      else g_seek_fail = 0;
      b = f.IsHugepageBacked((void*)a);
      vx::step();
      VX_CHECK(!b.has_value(), "a failing query (trouble %d) answered %d", k, b.value_or(false));
    }
    io_reset();
  }
  for (int r = 0; r < 3; ++r)
    for (int fault = 0; fault < 6; ++fault) {
      io_reset();
      if (fault == 1) g_eintr = true, g_step = 100;
      if (fault >= 2 && fault <= 4) g_fail_at = 0, g_fail_kind = fault - 2;
      if (fault == 5) g_seek_fail = 0;
      clobber();
      auto got = f.GetSinglePageBitmaps((void*)(kBase + (r + 1) * 512 * PG));
      vx::step();
      if (fault >= 2) {
        VX_CHECK(got.status != absl::StatusCode::kOk, "failing query reported as fine");
        continue;
      }
      VX_CHECK(got.status == absl::StatusCode::kOk, "status %d", int(got.status));
      for (int i = 0; i < 512; ++i)
        VX_CHECK(got.stale.GetBit(i) == !!(eff(kBase / PG + (r + 1) * 512 + i) & 1), "page %d of region %d stale: %d", i, r, got.stale.GetBit(i));
    }
  io_reset();
  VX_CHECK(f.GetSinglePageBitmaps((void*)(kBase + 512 * PG + PG)).status != absl::StatusCode::kOk, "unaligned address accepted");
  g_on = false;
}
void flags_runs() {
  // per-page stale bits of a native region: every run
  static const int at[] = {0, 1, 2, 62, 63, 64, 65, 127, 128, 255, 256, 447, 448, 510, 511, 512};
  int a = at[choose(16)], b = at[choose(16)], c = at[choose(16)], inv = choose(2);
  memset(g_huge, 0, sizeof g_huge);
  memset(g_state, inv, sizeof g_state);
  for (int i = a; i < b; ++i) g_state[512 + i] ^= 1;
  for (int i = c; i < 512; ++i) g_state[512 + i] ^= 1;
  vx::op("stale runs [%d,%d) and from %d, inverted %d", a, b, c, inv);
  vx::state(vx::mix(a * 1000 + b, c * 2 + inv));
  g_entry = flags_entry;
  io_reset();
  PageFlags f;
  clobber();
  auto got = f.GetSinglePageBitmaps((void*)(kBase + 512 * PG));
  vx::step();
  VX_CHECK(got.status == absl::StatusCode::kOk, "status %d", int(got.status));
  for (int i = 0; i < 512; ++i) VX_CHECK(got.stale.GetBit(i) == (g_state[512 + i] & 1), "page %d stale: %d", i, got.stale.GetBit(i));
  check_flags(f, kBase + 512 * PG, 512 * PG, 120);
  check_flags(f, kBase + 511 * PG + 9, 514 * PG, 120);
  g_on = false;
}
void flags_scan() {
  // the scan period: every content of the control file
  static const struct { const char* t; u64 v; int err; } k[] = {{"120\n", 120, 0}, {"0\n", 0, 0}, {"7", 7, 0}, {"x\n", 0, 0}, {"", 0, 0}, {nullptr, 0, 0},
      {"18446744073709551615\n", ~0ull, 0}, {"18446744073709551616\n", 0, 0}, {"1234567890123456789012345678901\n", 0, 0}, {"99999999999999999999999999999999999999\n", 0, 0}, {"5\n", 0, EIO}};
  int i = choose(11), j = choose(11);
  vx::op("scan_seconds \"%s\" then \"%s\"", k[i].t ? k[i].t : "(absent)", k[j].t ? k[j].t : "(absent)");
  vx::state(i * 16 + j);
  memset(g_huge, 0, sizeof g_huge);
  memset(g_state, 0, sizeof g_state);
  g_state[1] = 1;
  g_entry = flags_entry;
  io_reset();
  {
    PageFlags f;
    g_scan = k[i].t;
    g_scan_err = k[i].err;
    check_flags(f, kBase, PG, 0);
    check_flags(f, kBase + PG, PG, k[i].v);
    g_scan = k[j].t;
    g_scan_err = k[j].err;
    // a valid period is remembered, anything else asked for again
    check_flags(f, kBase, 3 * PG, k[i].v ? k[i].v : k[j].v);
  }
  VX_CHECK(g_open == 0, "descriptor left open");
  g_on = false;
}
void flags_odd() {
  // tables that cannot be: compound pages that are not transparent huge pages,
  // tails without a head
  int k = choose(4), pos = choose(3), n = choose(3);
  static int s_k, s_pos;
  s_k = k;
  s_pos = 512 + (pos == 0 ? 0 : pos == 1 ? 1 : 5);
  vx::op("odd entry %d at page %d, %d pages", k, s_pos - 512, n);
  vx::state(k * 9 + pos * 3 + n);
  memset(g_huge, 0, sizeof g_huge);
  memset(g_state, 0, sizeof g_state);
  g_entry = [](u page) -> u64 {
    if (page == kBase / PG + s_pos) return s_k == 0 ? 1ull << 15 : s_k == 1 ? 1ull << 16 : s_k == 2 ? (1ull << 16 | 1ull << 22) : (1ull << 15 | 1ull << 17);
    return 0;
  };
  io_reset();
  PageFlags f;
  u a = kBase + s_pos * PG;
  // the odd page itself is the first page asked about
  auto got = f.Get((void*)a, n == 0 ? 10 : n == 1 ? PG * 2 : PG * 600);
  vx::step();
  bool ok_tail = k == 2 && pos > 0;  // its head, page 512, is a plain page: nothing is known for certain
  if (!ok_tail) VX_CHECK(!got.has_value(), "page flags that cannot be were answered");
  if (k == 2 && pos > 0) {
    auto m = f.GetSinglePageBitmaps((void*)(kBase + 512 * PG));
    VX_CHECK(m.status != absl::StatusCode::kOk, "a tail page without a head was accepted");
  }
  // a tail without a head in the middle of a range, after queries that saw a
  // head elsewhere
  if (k == 2 && pos == 2) {
    g_entry = [](u page) -> u64 {
      u i = page - kBase / PG;
      if (i == 1024) return 1ull << 15 | 1ull << 22 | 1ull << 44;
      if (i > 1024 && i < 1536) return 1ull << 16 | 1ull << 22;
      if (i == u(s_pos)) return 1ull << 16 | 1ull << 22;
      return 0;
    };
    auto first = f.Get((void*)(kBase + 1023 * PG), 3 * PG);
    VX_CHECK(first.has_value() && first->bytes_stale == 2 * PG, "the huge page is stale");
    if (n == 1) VX_CHECK(f.GetSinglePageBitmaps((void*)(kBase + 1024 * PG)).status == absl::StatusCode::kOk, "a proper huge page");
    auto r = f.Get((void*)(kBase + 514 * PG), 6 * PG);
    vx::step();
    VX_CHECK(!r.has_value(), "a tail page without a head in the range was answered from an earlier query");
  }
  g_on = false;
}

// ---- mincore -----------------------------------------------------------------------
struct FakeMinCore final : MInCoreInterface {
  size_t total = 0;
  int calls = 0, fail = -1;
  bool failed = false;
  int mincore(void* addr, size_t len, unsigned char* out) final {
    VX_CHECK(u(addr) % PG == 0, "mincore of an unaligned address");
    if (calls++ == fail) { failed = true; errno = ENOMEM; return -1; }
    size_t n = (len + PG - 1) / PG;
    VX_CHECK(n <= 4096, "mincore of %zu pages into an array of 4096", n);
    for (size_t i = 0; i < n; ++i) {
      int s = state_of(u(addr) / PG + i);
      out[i] = (s & 1) | 0xa0 | (i * 2 & 0x1e);  // only the low bit means something
    }
    return 0;
  }
  static void operator delete(void*) {}
};
static void check_mincore(u a, size_t n, int fail) {
  FakeMinCore m;
  m.fail = fail;
  clobber();
  size_t got = MInCore::residence_impl((void*)a, n, &m);
  vx::step();
  size_t want = 0;
  if (n && !m.failed)
    for (u p = a / PG; p <= (a + n - 1) / PG; ++p)
      if (state_of(p) & 1) want += part(a, n, p);
  VX_CHECK(got == want, "mincore: %zu bytes at +%llx: %zu resident, should be %zu", n, (unsigned long long)(a - kBase), got, want);
}
void mincore_small() {
  int n = 1 + choose(5);
  memset(g_state, 1, sizeof g_state);
  u64 h = n;
  for (int i = 0; i < n; ++i) { g_state[i + 1] = choose(2); h = h * 2 + g_state[i + 1]; }
  vx::op("%d pages, states %llx", n, (unsigned long long)h);
  vx::state(h);
  for (size_t so : kOffs)
    for (size_t eo : {size_t(1), size_t(2), size_t(2048), size_t(4095), size_t(4096)}) {
      if (n == 1 && eo <= so) continue;
      u a = kBase + PG + so, e = kBase + n * PG + eo;
      check_mincore(a, e - a, -1);
      check_mincore(a, e - a, 0);
    }
  check_mincore(kBase + PG + 3, 0, -1);
}
void mincore_long() {
  static const int base[] = {4093, 8189};
  int n = base[choose(2)] + choose(7);
  int bg = choose(2);
  static const int at[] = {0, 1, 2, 4094, 4095, 4096, 4097, 8191, 8192, 8193, -1, -2};
  int w = at[choose(12)], w2 = at[choose(12)];
  if (w < 0) w += n;
  if (w2 < 0) w2 += n;
  memset(g_state, 1, sizeof g_state);
  memset(g_state + 3, bg, n);
  if (w < n) g_state[3 + w] ^= 1;
  if (w2 < n) g_state[3 + w2] ^= 1;
  vx::op("%d pages of state %d, others at %d and %d", n, bg, w, w2);
  vx::state(vx::mix(n * 2 + bg, w * 100000 + w2));
  for (size_t so : {size_t(0), size_t(4095)})
    for (size_t eo : {size_t(1), size_t(4096)}) {
      u a = kBase + 3 * PG + so, e = kBase + (3 + n - 1) * PG + eo;
      check_mincore(a, e - a, -1);
    }
  for (int f = 0; f < 3; ++f) check_mincore(kBase + 3 * PG, n * PG, f);
}
void mincore_real() {
  // the real system call on real memory: every pattern of 8 touched pages
  int pat = choose(16) * 16;
  pat += choose(16);
  char* p = (char*)mmap(nullptr, 10 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  madvise(p, 10 * PG, MADV_NOHUGEPAGE);
  for (int i = 0; i < 8; ++i)
    if (pat >> i & 1) p[(i + 1) * PG] = 1;
  vx::op("touched pages %x", pat);
  vx::state(pat);
  for (int a = 1; a < 9; ++a)
    for (int e = a; e < 9; ++e) {
      size_t want = 0;
      u s = u(p) + a * PG + 100, t = u(p) + e * PG + 3000;
      for (int i = 0; i < 8; ++i)
        if (pat >> i & 1) want += part(s, t - s, u(p) / PG + 1 + i);
      size_t got = MInCore::residence((void*)s, t - s);
      vx::step();
      VX_CHECK(got == want, "mincore: pages %d-%d of pattern %x: %zu, should be %zu", a, e, pat, got, want);
    }
  munmap(p, 10 * PG);
}

int main(int argc, char** argv) {
  tcmalloc::tcmalloc_internal::log_message_writer = [](const char*, int) {};
  static vx::Scenario sc[] = {
      {"residency, small ranges", res_small, 4},
      {"residency, around the buffers", res_long, 50},
      {"residency, one huge page", bitmaps, 50},
      {"page flags, small ranges", flags_small, 20},
      {"page flags, huge pages", flags_huge, 20},
      {"page flags, stale runs", flags_runs, 200},
      {"page flags, scan period", flags_scan, 20},
      {"page flags, impossible tables", flags_odd, 20},
      {"mincore, small ranges", mincore_small, 10},
      {"mincore, around the buffer", mincore_long, 20},
      {"mincore, real memory", mincore_real, 20},
  };
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

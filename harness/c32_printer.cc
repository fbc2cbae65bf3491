// C32, the machinery reports are written with: every short sequence of pieces
// against every buffer size; log and check messages of every length.
#include <stdint.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include "lib/explore.h"
#include "absl/strings/string_view.h"
#include "tcmalloc/internal/logging.h"
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

static const int kBuf = 64;
static unsigned char g_area[kBuf + 64];
// Writes the pieces in order; kind 0-5 are printf calls, 6-10 appended groups.
static const int kKinds = 12;
static std::string piece(int k) {
  static const char* t[] = {"", "a", "12", "x=7 y", "abcdefghij", "-5%", "", "b", "kk: 1", "", "zyxwvutsrq", "-9223372036854775808"};
  return t[k];
}
static void put(Printer& p, int k) {
  switch (k) {
    case 0: p.printf("%s", ""); break;
    case 1: p.printf("a"); break;
    case 2: p.printf("%d", 12); break;
    case 3: p.printf("x=%d %c", 7, 'y'); break;
    case 4: p.printf("%s%s", "abcde", "fghij"); break;
    case 5: p.printf("%d%%", -5); break;
    case 6: p.Append(""); break;
    case 7: p.Append("b"); break;
    case 8: p.Append("kk", ": ", 1); break;
    case 9: p.Append("", ""); break;
    case 10: p.Append("zyx", "", "wvutsrq"); break;
    default: p.Append(INT64_MIN); break;
  }
}
void pieces() {
  int n = choose(vx::thorough() ? 6 : 5);
  int k[6];
  std::string full;
  bool app = false, prn = false;
  uint64_t h = n;
  for (int i = 0; i < n; ++i) {
    k[i] = choose(kKinds);
    h = vx::mix(h, k[i]);
    if (k[i] < 6) prn = true; else app = true;
    full += piece(k[i]);
  }
  vx::op("%d pieces giving \"%s\"", n, full.c_str());
  vx::state(h);
  size_t top = full.size() + 3;
  for (size_t size = 1; size <= top; ++size) {
    memset(g_area, 0xaa, sizeof g_area);
    unsigned char* b = g_area + 16;
    size_t need;
    {
      Printer p((char*)b, size);
      std::string sofar;
      for (int i = 0; i < n; ++i) {
        put(p, k[i]);
        sofar += piece(k[i]);
        VX_CHECK(p.SpaceRequired() == sofar.size(), "%zu said to be required after \"%s\"", p.SpaceRequired(), sofar.c_str());
      }
      need = p.SpaceRequired();
    }
    vx::step();
    for (size_t i = 0; i < 16; ++i) VX_CHECK(g_area[i] == 0xaa, "written before the buffer");
    for (size_t i = 16 + size; i < sizeof g_area; ++i) VX_CHECK(g_area[i] == 0xaa, "buffer of %zu: written %zu beyond its end", size, i - 16 - size);
    // what has been written: up to the first untouched or terminating byte
    size_t w = 0;
    while (w < size && b[w] != 0xaa && b[w] != 0) ++w;
    VX_CHECK(full.compare(0, w, (char*)b, w) == 0, "buffer of %zu holds \"%.*s\", no prefix of \"%s\"", size, int(w), b, full.c_str());
    if (need < size) VX_CHECK(w == full.size(), "buffer of %zu: only %zu of %zu written", size, w, full.size());
    if (!app) {  // plain text is always terminated
      VX_CHECK(w < size && b[w] == 0, "buffer of %zu: \"%s\" not terminated", size, full.c_str());
      VX_CHECK(w == std::min(size - 1, full.size()), "buffer of %zu: %zu written", size, w);
    }
    if (app && !prn && need == size) VX_CHECK(w == full.size(), "groups that fill the buffer exactly are dropped");
  }
}
// Structured text: every tree shape of up to 4 fields or regions.
static std::string g_want;
static int g_seq[64], g_nseq, g_pos;
static int pick(int n) {  // the same choices for every buffer size
  if (g_pos < g_nseq) return g_seq[g_pos++];
  int c = choose(n);
  g_seq[g_nseq++] = c;
  ++g_pos;
  return c;
}
static void build(PbtxtRegion& r, int depth, int& left) {
  while (left > 0) {
    int k = pick(depth < 3 ? 7 : 6);
    if (k == 0) return;
    --left;
    switch (k) {
      case 1: r.PrintI64("i", INT64_MIN); g_want += " i: -9223372036854775808"; break;
      case 2: r.PrintI64("long_key", 42); g_want += " long_key: 42"; break;
      case 3: r.PrintBool("b", left & 1); g_want += left & 1 ? " b: true" : " b: false"; break;
      case 4: r.PrintRaw("e", "ENUM"); g_want += " e: ENUM"; break;
      case 5: r.PrintDouble("d", 0.5); g_want += " d: 0.5"; break;
      case 6: {
        g_want += " sub {";
        {
          PbtxtRegion s = r.CreateSubRegion("sub");
          build(s, depth + 1, left);
        }
        g_want += "}";
        break;
      }
    }
  }
}
void regions() {
  static unsigned char area[400];
  g_nseq = 0;
  int total = choose(vx::thorough() ? 6 : 5);
  size_t top = 250;
  for (size_t size = top; size >= 1;) {
    memset(area, 0xaa, sizeof area);
    unsigned char* b = area + 16;
    g_pos = 0;
    g_want.clear();
    size_t need;
    {
      Printer p((char*)b, size);
      {
        PbtxtRegion r(p, kTop);
        int left = total;
        build(r, 0, left);
      }
      need = p.SpaceRequired();
    }
    vx::step();
    if (size == top) {
      vx::op("%s", g_want.c_str());
      vx::state(std::hash<std::string>()(g_want));
    }
    VX_CHECK(need == g_want.size(), "%zu said to be required for \"%s\"", need, g_want.c_str());
    for (size_t i = 0; i < 16; ++i) VX_CHECK(area[i] == 0xaa, "written before the buffer");
    for (size_t i = 16 + size; i < sizeof area; ++i) VX_CHECK(area[i] == 0xaa, "buffer of %zu: written beyond its end", size);
    size_t w = 0;
    while (w < size && b[w] != 0xaa && b[w] != 0) ++w;
    VX_CHECK(w <= g_want.size() && g_want.compare(0, w, (char*)b, w) == 0, "buffer of %zu holds \"%.*s\", no prefix of \"%s\"", size, int(w), b, g_want.c_str());
    if (need <= size) VX_CHECK(w == need, "structured text of %zu not complete in %zu", need, size);
    size = size == top ? std::min(top - 1, g_want.size() + 2) : size - 1;
    if (size == 0) break;
  }
}
// log messages of every length
static char g_msg[2048];
static int g_len, g_nmsg;
static void catch_msg(const char* m, int n) {
  ++g_nmsg;
  g_len = n;
  if (n >= 0 && n < 2048) { memcpy(g_msg, m, n); g_msg[n] = 0; }
}
void logs() {
  int len = choose(80) * 10;
  len += choose(10);
  std::string s;
  for (int i = 0; i < len; ++i) s += char('a' + i % 26);
  vx::op("message of %d characters", len);
  vx::state(len);
  auto saved = log_message_writer;
  log_message_writer = catch_msg;
  g_nmsg = 0;
  TC_LOG("%s<%d>", s.c_str(), len);
  log_message_writer = saved;
  vx::step();
  VX_CHECK(g_nmsg == 1, "%d messages", g_nmsg);
  VX_CHECK(g_len > 0 && g_len < 512, "message of %d bytes", g_len);
  std::string got(g_msg, g_len);
  VX_CHECK(got.find('\0') == std::string::npos, "a terminator inside the message");
  size_t p = got.find("] ");
  VX_CHECK(p != std::string::npos, "no position in the message");
  std::string tail = s + "<" + std::to_string(len) + ">\n";
  std::string body = got.substr(p + 2);
  VX_CHECK(tail.compare(0, body.size(), body) == 0, "message \"%s\" is no prefix of what was logged", body.c_str());
  VX_CHECK(body == tail || g_len == 511, "message cut at %d", g_len);
}
void checks() {
  // fatal messages of every length, from another process
  int len = choose(27) * 30;
  int kind = choose(3);
  vx::op("check kind %d, messages of %d.. characters", kind, len);
  vx::state(len * 4 + kind);
  for (int l = len; l < len + 30; l += (kind ? 7 : 1)) {
    std::string s(l, 'm');
    int fd[2];
    VX_CHECK(pipe(fd) == 0, "harness error: pipe");
    pid_t pid = fork();
    if (pid == 0) {
      static int out;
      out = fd[1];
      signal(SIGABRT, SIG_DFL);
      log_message_writer = [](const char* m, int n) { (void)!write(out, m, n < 0 || n > 4000 ? 4000 : n); };
      if (kind == 0) TC_BUG("%s|", s.c_str());
      else if (kind == 1) TC_CHECK_EQ(l, -1, "%s|", s.c_str());
      else TC_CHECK(false, "%s|", s.c_str());
      _exit(0);
    }
    close(fd[1]);
    std::string got;
    char b[512];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) got.append(b, k);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    vx::step();
    VX_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a failed check ended with %x", st);
    VX_CHECK(got.size() < 512 && got.size() > 20, "fatal message of %zu bytes", got.size());
    VX_CHECK(got.find('\0') == std::string::npos, "a terminator inside the message");
    size_t p = got.find("CHECK in ");
    VX_CHECK(p != std::string::npos, "fatal message: %.60s", got.c_str());
    std::string want = s + "|\n";
    size_t q = got.find("mm", p);
    if (l >= 2 && q != std::string::npos) VX_CHECK(want.compare(0, got.size() - q, got, q, std::string::npos) == 0, "fatal message ends %.40s", got.c_str() + q);
    VX_CHECK(got.size() == 511 || (got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0), "fatal message of %zu bytes incomplete", got.size());
  }
}

int main(int argc, char** argv) {
  static vx::Scenario sc[] = {
      {"pieces", pieces, 300},
      {"structured text", regions, 100},
      {"log messages", logs, 100},
      {"fatal messages", checks, 1},
  };
  return vx::explore_main(argc, argv, sc, sizeof sc / sizeof *sc);
}

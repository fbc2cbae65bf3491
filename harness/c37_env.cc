// C37: thread_safe_getenv against every small environment.
#include "lib/explore.h"
#include "tcmalloc/internal/environment.h"
using tcmalloc::tcmalloc_internal::thread_safe_getenv;
using vx::choose;
extern "C" char** environ;

static const char* kEntries[] = {
    "A=1", "A=", "AB=2", "ABC=3", "A", "AB", "=A", "A==x", "", "B=A=1", "a=9",
    "=", "AB=", "A=2", "LONG_NAME=v", "LONG_NAM=w", "LONG_NAMES=x", "AB=1=2"};
static const char* kNames[] = {"A", "AB", "ABC", "B", "a", "LONG_NAME", "LONG_NAM",
                               "LONG_NAMES", "C", "ABCD", "LONG", "AA"};

static const char* oracle(char** env, const char* name) {
  size_t n = strlen(name);
  for (; *env; ++env) {
    const char* eq = strchr(*env, '=');
    if (!eq) continue;
    if (size_t(eq - *env) == n && memcmp(*env, name, n) == 0) return eq + 1;
  }
  return nullptr;
}

void body() {
  int n = choose(vx::thorough() ? 5 : 4);
  static char buf[8][64];
  char* env[9];
  uint64_t h = n;
  for (int i = 0; i < n; ++i) {
    int k = choose(18);
    // exact-size copies with poison behind them
    memset(buf[i], '=', sizeof buf[i]);
    strcpy(buf[i], kEntries[k]);
    env[i] = buf[i];
    vx::op("\"%s\"", kEntries[k]);
    h = vx::mix(h, k);
  }
  env[n] = nullptr;
  vx::state(h);
  char** saved = environ;
  environ = env;
  for (const char* name : kNames) {
    const char* got = thread_safe_getenv(name);
    const char* want = oracle(env, name);
    vx::step();
    if (got != want) {
      environ = saved;
      vx::fail("getenv(%s) = %s, should be %s", name, got ? got : "(null)", want ? want : "(null)");
    }
  }
  environ = saved;
}
void no_env() {
  char** saved = environ;
  environ = nullptr;
  const char* r = thread_safe_getenv("A");
  environ = saved;
  vx::step();
  VX_CHECK(r == nullptr, "no environment at all");
}
// Long names and values: every length up to 300, with neighbours that differ
// in the last character or by one character more or less.
void lengths() {
  int len = 1 + choose(150) + 150 * choose(2);
  static char name[400], e0[900], e1[900], e2[900], e3[900];
  for (int i = 0; i < len; ++i) name[i] = 'A' + i % 26;
  name[len] = 0;
  int order = choose(4);
  snprintf(e0, sizeof e0, "%sX=short", name);
  snprintf(e1, sizeof e1, "%.*s=less", len - 1, name);
  snprintf(e2, sizeof e2, "%.*s%c=other", len - 1, name, '0');
  snprintf(e3, sizeof e3, "%s=right", name);
  char* env[5] = {e0, e1, e2, e3, nullptr};
  char* t = env[order];
  env[order] = env[3];
  env[3] = t;
  char** saved = environ;
  environ = env;
  const char* r = thread_safe_getenv(name);
  const char* want = oracle(env, name);
  bool ok = r == want;
  env[order] = e0;
  environ = saved;
  vx::step();
  vx::state(vx::mix(len, order));
  VX_CHECK(ok && want, "name of length %d", len);
}
int main(int argc, char** argv) {
  vx::Scenario s[] = {{"environments", body}, {"none", no_env}, {"lengths", lengths}};
  return vx::explore_main(argc, argv, s, 3);
}

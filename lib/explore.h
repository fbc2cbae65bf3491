// Exhaustive choice-tree explorer shared by every harness.
//
// A scenario body is a function whose only nondeterminism is vx::choose(n).
// The explorer enumerates *every* sequence of choices (depth-first, choice 0
// first), runs the body for each of them in worker processes, and treats as a
// violation: vx::fail(), death by signal, an unexpected exit, and a hang.
// Bodies record what they did with vx::op(), the number of steps with
// vx::step(), and canonical (model) states with vx::state()/vx::visited().
//
// The explorer itself never calls malloc, so that it can be linked together
// with the allocator under test.
#ifndef VERIF_EXPLORE_H_
#define VERIF_EXPLORE_H_

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstddef>

namespace vx {

constexpr int kMaxChoices = 1 << 16;
constexpr int kMaxPrefix = 1 << 13;
constexpr int kQueue = 256;
constexpr int kMaxWorkers = 16;
constexpr int kMsg = 2048;
constexpr int kText = 16384;
constexpr uint64_t kTable = 1ull << 24;

enum { kExitFail = 77, kExitDiverge = 78, kExitOverflow = 79, kExitChunk = 0 };

struct Slot {
  uint8_t val[kMaxChoices];
  uint8_t num[kMaxChoices];
  uint8_t lim[kMaxChoices];
  volatile int base;    // positions below base never change
  volatile int fixed;   // choices below `fixed` are replayed
  volatile int len;     // choices made by the current execution
  volatile bool has_work;
  std::atomic<uint64_t> heartbeat;
  std::atomic<int64_t> started_ns;
  // first execution of the chunk run by the current child process
  uint8_t cval[kMaxChoices];
  volatile int clen;
  volatile int cruns;
  pid_t pid;
  char msg[kMsg];
};

struct QEntry {
  int len, base;
  uint8_t val[kMaxPrefix], num[kMaxPrefix], lim[kMaxPrefix];
};

struct Shared {
  std::atomic_flag lock;
  int qn;
  int idle;
  int workers;
  volatile bool stop;
  std::atomic<uint64_t> runs, steps, states, pruned, choices, outcomes, known;
  std::atomic<int> maxlen;
  std::atomic<uint64_t> table_full;
  std::atomic<uint64_t> extra[16];
  std::atomic<uint64_t> knownc[64];
  int nsamples;
  char sample[6][kText];
  QEntry q[kQueue];
  Slot slot[kMaxWorkers];
};

inline Shared* S;
inline std::atomic<uint64_t>* T;  // visited table
inline Slot* me;
inline bool g_replay, g_record, g_thorough, g_child_died;
inline char* g_text;
inline int g_textn;
inline uint64_t g_run_index;
inline int g_lane;  // which worker: bodies that pin themselves use different CPUs
inline const char* g_scen;
inline const char* g_known[64];
inline int g_nknown;
inline int64_t g_deadline_ns;

[[noreturn]] inline void die(int code) { _exit(code); }

inline int64_t now_ns() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = mix(h, c[i] + 1);
  return h;
}

// ---- API for bodies --------------------------------------------------------

inline bool thorough() { return g_thorough; }
inline bool replaying() { return g_replay; }

inline void vlog(const char* fmt, va_list ap) {
  if (g_replay) {
    char b[1024];
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    (void)!write(2, b, n);
    return;
  }
  if (!g_record) return;
  int room = kText - g_textn - 2;
  if (room <= 0) return;
  int n = vsnprintf(g_text + g_textn, room, fmt, ap);
  if (n < 0) return;
  if (n > room - 1) n = room - 1;
  g_textn += n;
  g_text[g_textn++] = ';';
  g_text[g_textn++] = ' ';
  if (g_textn >= kText) g_textn = kText - 1;
  g_text[g_textn < kText ? g_textn : kText - 1] = 0;
}
__attribute__((format(printf, 1, 2))) inline void op(const char* fmt, ...) {
  if (!g_replay && !g_record) return;
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}

__attribute__((format(printf, 1, 2), noreturn)) inline void fail(
    const char* fmt, ...) {
  char b[kMsg];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (me) {
    strncpy(me->msg, b, kMsg - 1);
    me->msg[kMsg - 1] = 0;
  }
  if (g_replay || !me) {
    (void)!write(2, "FAIL: ", 6);
    (void)!write(2, b, strlen(b));
    (void)!write(2, "\n", 1);
  }
  die(kExitFail);
}
#define VX_CHECK(c, ...)                                                  \
  do {                                                                    \
    if (__builtin_expect(!(c), 0)) ::vx::fail(__VA_ARGS__);               \
  } while (0)

// Picks one of n alternatives; alternative 0 first.
inline int choose(int n) {
  if (n <= 1) return 0;
  if (n > 255) fail("harness error: choose(%d)", n);
  int i = me->len;
  if (i >= kMaxChoices - 1) die(kExitOverflow);
  int v;
  if (i < me->fixed) {
    v = me->val[i];
    if (me->num[i] == 0 && v < n) {  // replay from a file: size not recorded
      me->num[i] = n;
      me->lim[i] = n;
    } else if (me->num[i] != n) {
      snprintf(me->msg, kMsg, "divergence at choice %d: had %d options, now %d",
               i, me->num[i], n);
      die(kExitDiverge);
    }
  } else {
    me->val[i] = 0;
    me->num[i] = n;
    me->lim[i] = n;
    v = 0;
  }
  me->len = i + 1;
  return v;
}
inline int choose_in(int lo, int hi) { return lo + choose(hi - lo + 1); }

inline void step(uint64_t n = 1) { S->steps.fetch_add(n, std::memory_order_relaxed); }
inline void extra(int i, uint64_t n = 1) { S->extra[i].fetch_add(n, std::memory_order_relaxed); }

// Records a state; returns true if it had been seen with >= `left` remaining.
inline bool visit_impl(uint64_t h, unsigned left, bool count) {
  uint64_t key = (h & ~0xffull) | 0;
  if (key == 0) key = 0x100;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 40;
  for (int probe = 0; probe < 4096; ++probe, i = (i + 1) & (kTable - 1)) {
    uint64_t cur = T[i].load(std::memory_order_relaxed);
    for (;;) {
      if (cur == 0) {
        if (T[i].compare_exchange_weak(cur, key | left,
                                       std::memory_order_relaxed)) {
          if (count) S->states.fetch_add(1, std::memory_order_relaxed);
          return false;
        }
        continue;
      }
      if ((cur & ~0xffull) != key) break;
      if ((cur & 0xff) >= left) return true;
      if (T[i].compare_exchange_weak(cur, key | left, std::memory_order_relaxed))
        return false;
    }
  }
  S->table_full.fetch_add(1);
  return false;
}
// Counts a distinct state (no pruning).
inline void state(uint64_t h) { visit_impl(mix(h, 0x5151), 0, true); }
// Counts a distinct state; true = an equal state was (or is being) explored
// with at least as many remaining steps, so the body may return. Never prunes
// while a prefix is being replayed.
inline bool visited(uint64_t h, unsigned left) {
  if (me->len < me->fixed || g_replay) return false;
  if (visit_impl(mix(h, 0x77), left & 0xff, true)) {
    S->pruned.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  return false;
}
inline void outcome(uint64_t h) {
  if (!visit_impl(mix(h, 0xabcdef), 1, false))
    S->outcomes.fetch_add(1, std::memory_order_relaxed);
}

// A violation that is listed as a known finding: reported, not fatal.
inline bool known(const char* key) {
  for (int i = 0; i < g_nknown; ++i)
    if (strcmp(g_known[i], key) == 0) {
      S->known.fetch_add(1);
      S->knownc[i].fetch_add(1);
      return true;
    }
  return false;
}

struct Scenario {
  const char* name;
  void (*body)();
  // executions per child process: 1 = every execution in a fresh fork
  int chunk = 1000;
  bool thorough_only = false;
  int hang_s = 20;
};

// ---- engine ----------------------------------------------------------------

inline void lock() {
  while (S->lock.test_and_set(std::memory_order_acquire)) sched_yield();
}
inline void unlock() { S->lock.clear(std::memory_order_release); }

// Moves to the next choice vector; false if the subtree is exhausted.
inline bool advance(Slot* s) {
  int i = s->len - 1;
  while (i >= s->base) {
    if (s->val[i] + 1 < s->lim[i]) {
      s->val[i]++;
      s->fixed = i + 1;
      return true;
    }
    --i;
  }
  return false;
}

inline void donate(Slot* s) {
  if (S->idle == 0 || S->qn >= kQueue) return;
  lock();
  if (S->idle > 0 && S->qn < kQueue) {
    for (int i = s->base; i < s->len && i < kMaxPrefix; ++i) {
      if (s->val[i] + 1 < s->lim[i]) {
        QEntry& q = S->q[S->qn++];
        q.len = i + 1;
        q.base = i;
        memcpy(q.val, s->val, i + 1);
        memcpy(q.num, s->num, i + 1);
        memcpy(q.lim, s->lim, i + 1);
        q.val[i] = s->val[i] + 1;
        s->lim[i] = s->val[i] + 1;
        break;
      }
    }
  }
  unlock();
}

inline void run_once(const Scenario& sc) {
  me->len = 0;
  me->started_ns.store(now_ns(), std::memory_order_relaxed);
  g_record = false;
  g_textn = 0;
  if (!g_replay) {
    uint64_t r = S->runs.load(std::memory_order_relaxed);
    if ((r == 3 || r == 40 || r == 700 || r == 12000) && S->nsamples < 5) {
      lock();
      if (S->nsamples < 5) {
        g_record = true;
        g_text = S->sample[S->nsamples++];
        g_text[0] = 0;
      }
      unlock();
      if (g_record) {
        g_textn = snprintf(g_text, kText, "%s: ", sc.name);
      }
    }
  }
  sc.body();
  if (me->len < me->fixed && !g_replay) {
    snprintf(me->msg, kMsg, "divergence: execution ended after %d of %d choices",
             me->len, me->fixed);
    die(kExitDiverge);
  }
  S->runs.fetch_add(1, std::memory_order_relaxed);
  S->choices.fetch_add(me->len, std::memory_order_relaxed);
  int m = S->maxlen.load(std::memory_order_relaxed);
  while (m < me->len && !S->maxlen.compare_exchange_weak(m, me->len)) {
  }
  me->heartbeat.fetch_add(1, std::memory_order_relaxed);
}

// Child process: runs up to chunk executions.
[[noreturn]] inline void child(const Scenario& sc) {
  me->clen = me->fixed;
  memcpy(me->cval, me->val, me->fixed);
  me->cruns = 0;
  for (int k = 0; k < sc.chunk; ++k) {
    run_once(sc);
    me->cruns = me->cruns + 1;
    if (S->stop) break;
    donate(me);
    if (!advance(me)) {
      me->has_work = false;
      break;
    }
  }
  die(0);
}

[[noreturn]] inline void worker(int w, const Scenario& sc, int parent_pid) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (getppid() != parent_pid) die(0);
  me = &S->slot[w];
  bool idle = false;
  for (;;) {
    if (S->stop) die(0);
    if (!me->has_work) {
      lock();
      if (S->qn > 0) {
        // take the shallowest = largest piece
        int best = 0;
        for (int i = 1; i < S->qn; ++i)
          if (S->q[i].len < S->q[best].len) best = i;
        QEntry& q = S->q[best];
        memcpy(me->val, q.val, q.len);
        memcpy(me->num, q.num, q.len);
        memcpy(me->lim, q.lim, q.len);
        me->base = q.base;
        me->fixed = q.len;
        me->len = q.len;
        me->has_work = true;
        if (best != S->qn - 1) memcpy(&S->q[best], &S->q[S->qn - 1], sizeof(QEntry));
        S->qn--;
        if (idle) S->idle--;
        idle = false;
        unlock();
      } else {
        if (!idle) {
          idle = true;
          S->idle++;
        }
        bool done = S->idle == S->workers;
        unlock();
        if (done) die(0);
        usleep(200);
        continue;
      }
    }
    me->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      child(sc);
    }
    if (p < 0) {
      usleep(1000);
      continue;
    }
    me->pid = p;
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    me->pid = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (S->stop) die(0);
    // a failing execution: keep its choices in the slot for the parent
    if (WIFSIGNALED(st) && me->msg[0] == 0)
      snprintf(me->msg, kMsg, "killed by signal %d (%s)", WTERMSIG(st),
               strsignal(WTERMSIG(st)));
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (me->msg[0] == 0) snprintf(me->msg, kMsg, "process exited with code %d", code);
    S->stop = true;
    die(code == 0 ? 1 : code);
  }
}

// Runs the given choices (a chunk of `runs` executions starting there) in a
// fresh process. Returns the exit status word; fills msg.
inline int replay_choices(const Scenario& sc, const uint8_t* val, int len,
                          int runs, char* msg, int limit_s, bool verbose) {
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &S->slot[kMaxWorkers - 1];
    me->msg[0] = 0;
    memcpy(me->val, val, len);
    memset(me->num, 0, len);
    me->fixed = len;
    me->base = 0;
    g_replay = verbose;
    for (int k = 0; k < runs; ++k) {
      if (k) g_replay = verbose && k + 1 == runs;
      run_once(sc);
      if (k + 1 < runs && !advance(me)) break;
    }
    die(0);
  }
  int st = 0;
  int64_t t0 = now_ns();
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now_ns() - t0 > limit_s * 1000000000ll) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      snprintf(msg, kMsg, "hang: no progress for %d s", limit_s);
      return 0xdead;
    }
    usleep(1000);
  }
  strncpy(msg, S->slot[kMaxWorkers - 1].msg, kMsg - 1);
  if (WIFSIGNALED(st) && msg[0] == 0)
    snprintf(msg, kMsg, "killed by signal %d (%s)", WTERMSIG(st),
             strsignal(WTERMSIG(st)));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) msg[0] = 0;
  return st;
}

inline void out_dec(int fd, const char* fmt, ...) {
  char b[20000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b) n = sizeof b;
  (void)!write(fd, b, n);
}
inline void out_json(int fd, const char* s) {
  static char b[2 * kText + 16];
  int n = 0;
  b[n++] = '"';
  for (; *s && n < (int)sizeof b - 10; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      b[n++] = '\\';
      b[n++] = c;
    } else if (c < 32 || c > 126) {
      n += snprintf(b + n, 8, "\\u%04x", c);
    } else {
      b[n++] = c;
    }
  }
  b[n++] = '"';
  (void)!write(fd, b, n);
}

// main(): [--tier T] [--out FILE] [--only SCENARIO] [--replay FILE]
//         [--replay-out FILE] [--known KEY]... [--workers N]
inline int explore_main(int argc, char** argv, const Scenario* scs, int n) {
  if (!getenv("VX_NOASLR")) {
    personality(ADDR_NO_RANDOMIZE);
    setenv("VX_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  const char *out = nullptr, *only = nullptr, *replay = nullptr,
             *rout = nullptr;
  int workers = sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; ++i) {
    auto arg = [&](const char* k) {
      return strcmp(argv[i], k) == 0 && i + 1 < argc;
    };
    if (arg("--tier")) g_thorough = strcmp(argv[++i], "thorough") == 0;
    else if (arg("--out")) out = argv[++i];
    else if (arg("--only")) only = argv[++i];
    else if (arg("--replay")) replay = argv[++i];
    else if (arg("--replay-out")) rout = argv[++i];
    else if (arg("--known")) g_known[g_nknown++] = argv[++i];
    else if (arg("--workers")) workers = atoi(argv[++i]);
    else {
      fprintf(stderr, "unknown argument %s\n", argv[i]);
      return 2;
    }
  }
  if (workers > kMaxWorkers - 1) workers = kMaxWorkers - 1;
  if (workers < 1) workers = 1;
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                                0));
  T = static_cast<std::atomic<uint64_t>*>(
      mmap(nullptr, kTable * 8, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (S == MAP_FAILED || T == MAP_FAILED) return 2;
  static uint8_t vals[kMaxChoices];

  if (replay) {
    FILE* f = fopen(replay, "r");
    if (!f) return 2;
    char name[256];
    int len = 0, runs = 1;
    if (fscanf(f, "scenario \"%255[^\"]\" runs %d choices %d", name, &runs, &len) != 3)
      return 2;
    for (int i = 0; i < len; ++i) {
      int v;
      if (fscanf(f, "%d", &v) != 1) return 2;
      vals[i] = v;
    }
    char tier[32];
    if (fscanf(f, " tier %31s", tier) == 1)
      g_thorough = strcmp(tier, "thorough") == 0;
    if (fscanf(f, " lane %d", &g_lane) != 1) g_lane = 0;
    fclose(f);
    for (int k = 0; k < n; ++k)
      if (strcmp(scs[k].name, name) == 0) {
        char msg[kMsg] = "";
        g_replay = true;
        int st = replay_choices(scs[k], vals, len, runs, msg, 120, true);
        if (st == 0) {
          printf("replay: no violation\n");
          return 0;
        }
        printf("replay: VIOLATION %s\n", msg);
        return 1;
      }
    return 2;
  }

  int fd = out ? open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 1;
  out_dec(fd, "{\"scenarios\": [\n");
  int rc = 0;
  bool first = true;
  for (int k = 0; k < n && rc == 0; ++k) {
    const Scenario& sc = scs[k];
    if (only && strcmp(only, sc.name) != 0) continue;
    if (sc.thorough_only && !g_thorough && !only) continue;
    g_scen = sc.name;
    // fresh shared state per scenario
    memset((void*)S, 0, offsetof(Shared, q));
    for (int w = 0; w < kMaxWorkers; ++w) {
      S->slot[w].has_work = false;
      S->slot[w].msg[0] = 0;
      S->slot[w].pid = 0;
      S->slot[w].heartbeat = 0;
    }
    madvise((void*)T, kTable * 8, MADV_REMOVE);
    S->workers = workers;
    S->qn = 1;
    S->q[0].len = 0;
    S->q[0].base = 0;
    int64_t t0 = now_ns();
    pid_t pids[kMaxWorkers];
    int self = getpid();
    for (int w = 0; w < workers; ++w) {
      pids[w] = fork();
      if (pids[w] == 0) {
        g_lane = w;
        worker(w, sc, self);
      }
    }
    int live = workers;
    int bad = -1, badcode = 0;
    bool hang = false;
    uint64_t hb[kMaxWorkers] = {};
    int64_t hbt[kMaxWorkers] = {};
    while (live > 0) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        for (int w = 0; w < workers; ++w)
          if (pids[w] == p) {
            --live;
            pids[w] = 0;
            int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            if (code != 0 && bad < 0) {
              bad = w;
              badcode = code;
              S->stop = true;
            }
          }
        continue;
      }
      int64_t t = now_ns();
      for (int w = 0; w < workers; ++w) {
        Slot& s = S->slot[w];
        if (!pids[w]) continue;
        if (!s.has_work || s.heartbeat != hb[w] || hbt[w] == 0) {
          hb[w] = s.heartbeat;
          hbt[w] = t;
        } else if (t - hbt[w] > sc.hang_s * 1000000000ll && bad < 0) {
          bad = w;
          hang = true;
          S->stop = true;
        }
      }
      if (S->stop) {
        for (int w = 0; w < workers; ++w) {
          pid_t c = S->slot[w].pid;
          if (w != bad && c > 0 && bad >= 0) kill(c, SIGKILL);
          if (hang && w == bad && c > 0) {
            kill(c, SIGKILL);
          }
        }
      }
      usleep(2000);
    }
    double wall = (now_ns() - t0) / 1e9;
    if (!first) out_dec(fd, ",\n");
    first = false;
    out_dec(fd,
            "{\"name\": \"%s\", \"executions\": %lu, \"steps\": %lu, "
            "\"states\": %lu, \"pruned\": %lu, \"choices\": %lu, "
            "\"max_choices\": %d, \"outcomes\": %lu, \"known\": %lu, "
            "\"table_full\": %lu, \"wall_s\": %.2f, \"extra\": [",
            sc.name, S->runs.load(), S->steps.load(), S->states.load(),
            S->pruned.load(), S->choices.load(), S->maxlen.load(),
            S->outcomes.load(), S->known.load(), S->table_full.load(), wall);
    for (int i = 0; i < 16; ++i)
      out_dec(fd, "%s%lu", i ? ", " : "", S->extra[i].load());
    out_dec(fd, "], \"known_keys\": [");
    {
      bool f1 = true;
      for (int i = 0; i < g_nknown; ++i)
        if (S->knownc[i].load()) {
          out_dec(fd, "%s\"%s\"", f1 ? "" : ", ", g_known[i]);
          f1 = false;
        }
    }
    out_dec(fd, "], \"samples\": [");
    for (int i = 0; i < S->nsamples; ++i) {
      if (i) out_dec(fd, ", ");
      char save = S->sample[i][1500];
      if (strlen(S->sample[i]) > 1500) S->sample[i][1500] = 0;
      out_json(fd, S->sample[i]);
      S->sample[i][1500] = save;
    }
    out_dec(fd, "]}");
    fprintf(stderr,
            "[%s] executions=%lu steps=%lu states=%lu pruned=%lu outcomes=%lu "
            "maxchoices=%d known=%lu wall=%.1fs%s\n",
            sc.name, S->runs.load(), S->steps.load(), S->states.load(),
            S->pruned.load(), S->outcomes.load(), S->maxlen.load(),
            S->known.load(), wall, bad >= 0 ? "  ** stopped" : "");
    if (bad >= 0) {
      Slot& s = S->slot[bad];
      char msg[kMsg];
      strncpy(msg, s.msg, kMsg - 1);
      msg[kMsg - 1] = 0;
      int len = s.len, clen = s.clen, cruns = s.cruns + 1;
      memcpy(vals, s.val, len);
      static uint8_t cvals[kMaxChoices];
      memcpy(cvals, s.cval, clen);
      if (hang) snprintf(msg, kMsg, "hang: no progress for %d s", sc.hang_s);
      if (badcode == kExitDiverge || badcode == kExitOverflow) {
        out_dec(fd, "], \"error\": ");
        out_json(fd, badcode == kExitOverflow ? "too many choices in one execution" : msg);
        out_dec(fd, "}\n");
        return 2;
      }
      g_lane = bad;
      // replay before report: the single execution first, then its chunk
      char m1[kMsg] = "", m2[kMsg] = "";
      int runs = 1;
      const uint8_t* v = vals;
      int l = len;
      int lim = hang ? 3 * sc.hang_s : 120;
      // (several attempts: where real threads run, not everything is decided here)
      auto twice = [&](int n) {
        int seen = 0;
        for (int k = 0; k < 12 && seen < 2; ++k) {
          m2[0] = 0;
          int st = replay_choices(sc, v, l, n, m2, lim, false);
          if (st) {
            ++seen;
            strcpy(m1, m2);
          } else if (k >= 3 && !seen && n > 50) {
            break;
          }
        }
        return seen == 2;
      };
      int st1 = twice(1), st2 = st1;
      if (!st1 || !st2) {
        v = cvals;
        l = clen;
        runs = cruns;
        m1[0] = m2[0] = 0;
        st1 = st2 = twice(runs);
      }
      if (!st1 || !st2) {
        out_dec(fd, "], \"error\": ");
        char em[kMsg + 100];
        snprintf(em, sizeof em, "not reproducible: %s", msg);
        out_json(fd, em);
        out_dec(fd, "}\n");
        fprintf(stderr, "%s\n", em);
        return 2;
      }
      if (rout) {
        int rf = open(rout, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        out_dec(rf, "scenario \"%s\" runs %d choices %d\n", sc.name, runs, l);
        for (int i = 0; i < l; ++i) out_dec(rf, "%d ", v[i]);
        out_dec(rf, "\ntier %s lane %d\n# %s\n", g_thorough ? "thorough" : "quick", bad, m1);
        close(rf);
      }
      out_dec(fd, "], \"violation\": {\"scenario\": \"%s\", \"message\": ",
              sc.name);
      out_json(fd, m1[0] ? m1 : msg);
      out_dec(fd, "}}\n");
      fprintf(stderr, "violation in %s: %s\n", sc.name, m1[0] ? m1 : msg);
      return 1;
    }
  }
  out_dec(fd, "]}\n");
  return rc;
}

}  // namespace vx
#endif  // VERIF_EXPLORE_H_

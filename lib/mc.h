// Controlled-concurrency runtime ("mc"): runs the threads of a scenario as
// coroutines of one OS thread and explores every schedule up to a preemption
// bound with the choice-tree explorer of explore.h.
//
// Code under test and harness are compiled with -fsanitize=thread, but linked
// with mc_rt.cc instead of the sanitizer's runtime:
//   * every atomic operation and every SpinLock operation is a scheduling
//     point;
//   * every plain access is checked for data races (vector clocks, so that a
//     weakened memory order shows as a race even where the interleaving is
//     harmless on the machine at hand);
//   * atomic loads may return older values that the C++ memory model allows
//     (bounded by Cfg::stale per execution), weak compare-exchanges may fail
//     (Cfg::weak);
//   * all threads blocked = deadlock; too many steps = livelock.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <stdint.h>

#include "lib/explore.h"

namespace mc {

constexpr int kThreads = 6;

// Which thread reads and writes which atomic objects and locks.
struct Record {
  static constexpr int kSize = 1 << 14;
  struct E {
    uintptr_t key;
    uint8_t rd, wr;
  } e[kSize] = {};
  int n = 0;
  E* find(uintptr_t k) {
    for (uint64_t i = (k * 0x9e3779b97f4a7c15ull) >> 50;; i = (i + 1) & (kSize - 1))
      if (e[i].key == k || e[i].key == 0) return &e[i];
  }
};

struct Cfg {
  int preempt = 2;       // preemptions per execution (-1: no bound)
  int stale = 0;         // loads per execution that may return an older value
  int weak = 0;          // spurious failures of compare_exchange_weak
  int max_steps = 5000;  // scheduling points per execution
  bool plain = false;    // plain accesses are scheduling points, too
  bool race = true;      // report data races
  int first = -1;        // this thread starts, not every one
  Record* record = nullptr;  // collects the accesses
  Record* only = nullptr;    // scheduling points only at accesses that conflict
                             // with another thread's in the recorded executions
};

struct Stamp {
  int tid;
  uint32_t clk;
  uint64_t at;
};

// runtime (mc_rt.cc)
void reset();                            // before spawning
void spawn_raw(void (*f)(void*), void* arg);
void go(const Cfg& c);                   // runs all spawned threads to the end
int self();                              // index of the running thread
Stamp stamp();                           // the present moment of this thread
bool before(const Stamp& s);             // does s happen before now (C++ order)?
bool real_before(const Stamp& a, const Stamp& b);  // order in this execution
void yield();                            // a scheduling point
void off();                              // accesses below are the harness's own
void on();
extern void (*probe)();                  // called at every scheduling point
uint64_t points();                       // scheduling points in this execution
extern void (*resumed)();                // called when a coroutine goes on
void learn(int a, int b);                // a knows what b did so far
void tls_threads(int n);                 // give each coroutine its own TLS

struct Off {
  Off() { off(); }
  ~Off() { on(); }
};

template <typename F>
void spawn(F& f) {
  spawn_raw([](void* p) { (*static_cast<F*>(p))(); }, &f);
}

}  // namespace mc

#define MC_OP(...)        \
  do {                    \
    mc::Off mc_off_guard; \
    vx::op(__VA_ARGS__);  \
  } while (0)
#endif

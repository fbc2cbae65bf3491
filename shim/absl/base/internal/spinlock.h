// Stand-in for absl/base/internal/spinlock.h with the API of current Abseil
// (SpinLockHolder from a reference, lower-case lock/unlock, IsCooperative()).
// The lock itself is trusted: it is Abseil's, not TCMalloc's.  With VERIF_MC
// the lock operations are scheduling points of the model checker.
#ifndef VERIF_SHIM_ABSL_SPINLOCK_H_
#define VERIF_SHIM_ABSL_SPINLOCK_H_
#define ABSL_BASE_INTERNAL_SPINLOCK_H_  // keep the installed header out
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

#include <atomic>

#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/dynamic_annotations.h"
#include "absl/base/internal/low_level_scheduling.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/macros.h"
#include "absl/base/port.h"
#include "absl/base/thread_annotations.h"

extern "C" {
// Provided by the model checker's runtime (mc/); return nonzero if handled.
int verif_lock(void* lock) __attribute__((weak));
int verif_trylock(void* lock, int* ok) __attribute__((weak));
int verif_unlock(void* lock) __attribute__((weak));
}

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {

class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : w_(2) {}
  constexpr explicit SpinLock(SchedulingMode mode)
      : w_(mode == SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  constexpr SpinLock(absl::ConstInitType, SchedulingMode mode)
      : w_(mode == SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;

  __attribute__((no_sanitize("thread"), noinline)) void lock()
      ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    if (verif_lock && verif_lock(this)) {
      Set();
      return;
    }
    while (!Try()) sched_yield();
  }
  __attribute__((no_sanitize("thread"), noinline)) bool try_lock()
      ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    int ok = 0;
    if (verif_trylock && verif_trylock(this, &ok)) {
      if (ok) Set();
      return ok;
    }
    return Try();
  }
  __attribute__((no_sanitize("thread"), noinline)) void unlock()
      ABSL_UNLOCK_FUNCTION() {
    Clear();
    if (verif_unlock) verif_unlock(this);
  }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  __attribute__((no_sanitize("thread"), noinline)) bool IsHeld() const {
    return __atomic_load_n(&w_, __ATOMIC_RELAXED) & 1;
  }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {
    if (!IsHeld()) {
      fprintf(stderr, "thread should hold the lock on SpinLock\n");
      abort();
    }
  }
  bool IsCooperative() const { return w_ & 2; }

 private:
  __attribute__((no_sanitize("thread"), noinline)) bool Try() {
    uint32_t v = __atomic_load_n(&w_, __ATOMIC_RELAXED);
    return !(v & 1) &&
           __atomic_compare_exchange_n(&w_, &v, v | 1, false, __ATOMIC_ACQUIRE,
                                       __ATOMIC_RELAXED);
  }
  __attribute__((no_sanitize("thread"), noinline)) void Set() {
    __atomic_fetch_or(&w_, 1, __ATOMIC_ACQUIRE);
  }
  __attribute__((no_sanitize("thread"), noinline)) void Clear() {
    __atomic_fetch_and(&w_, ~1u, __ATOMIC_RELEASE);
  }
  uint32_t w_;
};

class ABSL_SCOPED_LOCKABLE SpinLockHolder {
 public:
  explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l)
      : l_(l) {
    l_.lock();
  }
  explicit SpinLockHolder(SpinLock* l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l)
      : l_(*l) {
    l_.lock();
  }
  ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { l_.unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;

 private:
  SpinLock& l_;
};

}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif

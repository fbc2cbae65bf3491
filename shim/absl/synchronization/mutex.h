#ifndef VERIF_SHIM_ABSL_MUTEX_H_
#define VERIF_SHIM_ABSL_MUTEX_H_
#include_next "absl/synchronization/mutex.h"
namespace verif_shim {
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(absl::Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_.Lock(); }
  explicit MutexLock(absl::Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(*m) { m_.Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  absl::Mutex& m_;
};
}
namespace absl { using VerifMutexLock = ::verif_shim::MutexLock; }
#define MutexLock VerifMutexLock
#endif

// With VERIF_CLOCK, time is a variable of the harness.
#ifndef VERIF_CLOCK
#include_next "absl/base/internal/cycleclock.h"
#else
#ifndef VERIF_CYCLECLOCK_H_
#define VERIF_CYCLECLOCK_H_
#include <cstdint>
#include "absl/base/config.h"
inline int64_t verif_clock;  // microseconds
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
struct CycleClock {
  static int64_t Now() { return verif_clock; }
  static double Frequency() { return 1e6; }
};
}
ABSL_NAMESPACE_END
}
#endif
#endif

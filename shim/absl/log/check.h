#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include "absl/log/log.h"
#define CHECK(c) if (c) {} else LOG(FATAL) << "CHECK failed: " #c " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define DCHECK_GE(a, b) CHECK((a) >= (b))
#endif

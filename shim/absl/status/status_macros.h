#ifndef VERIF_SHIM_ABSL_STATUS_MACROS_H_
#define VERIF_SHIM_ABSL_STATUS_MACROS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define ABSL_ASSIGN_OR_RETURN_IMPL(tmp, lhs, expr) \
  auto tmp = (expr);                               \
  if (!tmp.ok()) return tmp.status();              \
  lhs = std::move(tmp).value()
#define ABSL_ASSIGN_OR_RETURN(lhs, ...) \
  ABSL_ASSIGN_OR_RETURN_IMPL(VERIF_CAT(verif_tmp_, __LINE__), lhs, __VA_ARGS__)
#define ABSL_RETURN_IF_ERROR(expr)   \
  do {                               \
    auto s_ = (expr);                \
    if (!s_.ok()) return s_;         \
  } while (0)
#endif

#ifndef VERIF_SHIM_ABSL_RESIZE_AND_OVERWRITE_H_
#define VERIF_SHIM_ABSL_RESIZE_AND_OVERWRITE_H_
#include <string>
#include <utility>
namespace absl {
template <typename T, typename Op>
void StringResizeAndOverwrite(T& str, typename T::size_type n, Op op) {
  str.resize(n);
  str.resize(std::move(op)(&str[0], n));
}
}
#endif

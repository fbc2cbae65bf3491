#ifndef VERIF_SHIM_ABSL_ATTRIBUTES_H_
#define VERIF_SHIM_ABSL_ATTRIBUTES_H_
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#if defined(__clang__)
#define ABSL_ATTRIBUTE_TRIVIAL_ABI [[clang::trivial_abi]]
#else
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#endif
#ifndef ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS
#define ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS [[no_unique_address]]
#endif
#ifndef ABSL_ATTRIBUTE_UNINITIALIZED
#define ABSL_ATTRIBUTE_UNINITIALIZED
#endif
#ifndef ABSL_ATTRIBUTE_WARN_UNUSED
#define ABSL_ATTRIBUTE_WARN_UNUSED
#endif
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_OWNER
#endif
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
#endif

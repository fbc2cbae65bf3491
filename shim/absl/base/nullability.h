// Stand-in for an Abseil header that the installed Abseil (20220623) lacks.
#ifndef VERIF_SHIM_ABSL_NULLABILITY_H_
#define VERIF_SHIM_ABSL_NULLABILITY_H_
#if defined(__clang__)
#define absl_nonnull _Nonnull
#define absl_nullable _Nullable
#define absl_nullability_unknown _Null_unspecified
#else
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
#define ABSL_POINTERS_DEFAULT_NONNULL
#define ABSL_NULLABILITY_COMPATIBLE
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#endif

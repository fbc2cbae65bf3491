// The checks may compile with -fsanitize=thread only to have every memory
// access call the model checker's runtime: TCMalloc must then see itself as a
// normal build, so hide that instrumentation from it.
#ifndef VERIF_SHIM_ABSL_CONFIG_H_
#define VERIF_SHIM_ABSL_CONFIG_H_
#include_next "absl/base/config.h"
#ifdef VERIF_MC
#undef ABSL_HAVE_THREAD_SANITIZER
#endif
#ifdef VERIF_HIDE_ASAN
#undef ABSL_HAVE_ADDRESS_SANITIZER
#endif
#endif

#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <iostream>
#include <sstream>
#include <cstdlib>
namespace verif_shim {
struct LogSink {
  bool fatal;
  std::ostringstream os;
  explicit LogSink(bool f) : fatal(f) {}
  ~LogSink() {
    os << "\n";
    fputs(os.str().c_str(), stderr);
    if (fatal) abort();
  }
  std::ostream& stream() { return os; }
};
enum { kINFO = 0, kWARNING = 0, kERROR = 0, kFATAL = 1, kQFATAL = 1 };
}
#define LOG(sev) ::verif_shim::LogSink(::verif_shim::k##sev).stream()
#define PLOG(sev) LOG(sev)
#endif

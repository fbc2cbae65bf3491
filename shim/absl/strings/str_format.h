// Stand-in for absl/strings/str_format.h: the installed one has no %v and no
// AbslStringify.  Run-time formatting only (no compile-time format check); it
// does not allocate except to grow a std::string destination.
#ifndef VERIF_SHIM_ABSL_STR_FORMAT_H_
#define VERIF_SHIM_ABSL_STR_FORMAT_H_
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"

namespace absl {
struct VerifFormatSpec {
  constexpr VerifFormatSpec(const char* s) : f(s) {}           // NOLINT
  constexpr VerifFormatSpec(std::string_view s) : f(s) {}      // NOLINT
  VerifFormatSpec(const std::string& s) : f(s) {}              // NOLINT
  std::string_view f;
};
template <typename... A>
struct VerifFormatSpecFor {
  using type = VerifFormatSpec;
};
template <typename... A>
using FormatSpec = typename VerifFormatSpecFor<A...>::type;
struct UntypedFormatSpec : VerifFormatSpec {
  explicit constexpr UntypedFormatSpec(std::string_view s) : VerifFormatSpec(s) {}
};

// The sink given to AbslStringify and AbslFormatFlush users.
class FormatSink {
 public:
  FormatSink(void* o, void (*w)(void*, const char*, size_t)) : o_(o), w_(w) {}
  void Append(std::string_view s) { w_(o_, s.data(), s.size()); }
  void Append(size_t n, char c) {
    while (n--) w_(o_, &c, 1);
  }
  bool PutPaddedString(std::string_view s, int, int, bool) { Append(s); return true; }
  friend void AbslFormatFlush(FormatSink* s, std::string_view v) { s->Append(v); }

 private:
  void* o_;
  void (*w_)(void*, const char*, size_t);
};

namespace verif_fmt {
enum Kind { kI, kU, kD, kP, kS, kC, kB, kObj, kStar };
struct Arg {
  Kind k;
  long long i = 0;
  int bytes = 8;
  unsigned long long u = 0;
  long double d = 0;
  const void* p = nullptr;
  std::string_view s;
  void (*str)(FormatSink&, const void*) = nullptr;
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<FormatSink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T>
Arg Make(const T& v) {
  Arg a;
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, absl::Duration>) {
    a.k = kObj;
    a.p = &v;
    a.str = [](FormatSink& s, const void* p) { s.Append(absl::FormatDuration(*static_cast<const D*>(p))); };
  } else if constexpr (HasStringify<D>::value) {
    a.k = kObj;
    a.p = &v;
    a.str = [](FormatSink& s, const void* p) { AbslStringify(s, *static_cast<const D*>(p)); };
  } else if constexpr (std::is_same_v<D, bool>) {
    a.k = kB; a.i = a.u = v; a.bytes = 1;
  } else if constexpr (std::is_same_v<D, char>) {
    a.k = kC; a.i = v; a.u = static_cast<unsigned char>(v); a.bytes = 1;
  } else if constexpr (std::is_enum_v<D>) {
    using U = std::underlying_type_t<D>;
    a.k = std::is_signed_v<U> ? kI : kU;
    a.i = static_cast<long long>(v);
    a.u = static_cast<std::make_unsigned_t<U>>(v); a.bytes = sizeof(U);
  } else if constexpr (std::is_integral_v<D>) {
    a.k = std::is_signed_v<D> ? kI : kU;
    a.i = static_cast<long long>(v);
    a.u = static_cast<std::make_unsigned_t<D>>(v); a.bytes = sizeof(D);
  } else if constexpr (std::is_floating_point_v<D>) {
    a.k = kD; a.d = v;
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    a.k = kS;
    if constexpr (std::is_convertible_v<const T&, const char*>) {
      const char* c = v;
      a.p = c;
      a.s = c ? std::string_view(c) : std::string_view("(null)");
    } else {
      a.s = std::string_view(v);
    }
  } else if constexpr (std::is_pointer_v<D>) {
    a.k = kP; a.p = (const void*)v;
  } else if constexpr (std::is_same_v<D, std::nullptr_t>) {
    a.k = kP;
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    a.k = kS;
    absl::string_view t(v);
    a.s = std::string_view(t.data(), t.size());
  } else if constexpr (std::is_convertible_v<const T&, long long>) {
    a.k = kI; a.i = static_cast<long long>(v); a.u = a.i;
  } else {
    static_assert(!sizeof(T*), "unsupported argument");
  }
  return a;
}
inline void Pad(FormatSink& o, std::string_view s, int width, bool left) {
  size_t n = width > (int)s.size() ? width - s.size() : 0;
  if (!left) o.Append(n, ' ');
  o.Append(s);
  if (left) o.Append(n, ' ');
}
inline void Run(FormatSink& o, std::string_view f, const Arg* args, size_t nargs) {
  size_t ai = 0;
  static constexpr Arg* kNone = nullptr;
  (void)kNone;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') {
      size_t j = f.find('%', i);
      if (j == std::string_view::npos) j = f.size();
      o.Append(f.substr(i, j - i));
      i = j;
      continue;
    }
    ++i;
    if (i < f.size() && f[i] == '%') { o.Append("%"); ++i; continue; }
    char flags[8]; int nf = 0; bool left = false;
    while (i < f.size() && strchr("-+ #0", f[i]) && nf < 6) {
      if (f[i] == '-') left = true;
      flags[nf++] = f[i++];
    }
    int width = -1, prec = -1;
    if (i < f.size() && f[i] == '*') { width = ai < nargs ? (int)args[ai++].i : 0; ++i; }
    else while (i < f.size() && f[i] >= '0' && f[i] <= '9') { if (width < 0) width = 0; width = width * 10 + (f[i++] - '0'); }
    if (width < -1) { left = true; width = -width; }
    if (i < f.size() && f[i] == '.') {
      ++i; prec = 0;
      if (i < f.size() && f[i] == '*') { prec = ai < nargs ? (int)args[ai++].i : 0; ++i; }
      else while (i < f.size() && f[i] >= '0' && f[i] <= '9') prec = prec * 10 + (f[i++] - '0');
    }
    while (i < f.size() && strchr("hlLqjzt", f[i])) ++i;
    if (i >= f.size()) break;
    char c = f[i++];
    if (ai >= nargs) { o.Append("<missing>"); continue; }
    const Arg& a = args[ai++];
    if (c == 'v') c = a.k == kI ? 'd' : a.k == kU ? 'u' : a.k == kD ? 'g' : a.k == kP ? 'p' : a.k == kC ? 'c' : 's';
    if (a.k == kObj) { a.str(o, a.p); continue; }
    if (a.k == kB && c == 's') { Pad(o, a.i ? "true" : "false", width, left); continue; }
    if (c == 's' && a.k == kS) {
      Pad(o, prec >= 0 ? a.s.substr(0, prec) : a.s, width, left);
      continue;
    }
    char spec[32]; int n = 0; spec[n++] = '%';
    for (int k = 0; k < nf; ++k) spec[n++] = flags[k];
    if (width >= 0) n += snprintf(spec + n, 10, "%d", width);
    if (prec >= 0) n += snprintf(spec + n, 10, ".%d", prec);
    char buf[400]; int len = 0;
    if (strchr("diuxXo", c)) {
      if (a.k == kD) { len = snprintf(buf, sizeof buf, "%Lf", a.d); }
      else {
        if (c == 'd' && a.k == kU) c = 'u';
        if (c == 'u' && a.k == kI) c = 'u';
        spec[n++] = 'l'; spec[n++] = 'l'; spec[n++] = c; spec[n] = 0;
        if (c == 'd' || c == 'i') len = snprintf(buf, sizeof buf, spec, a.i);
        else len = snprintf(buf, sizeof buf, spec, a.k == kP || a.k == kS ? (unsigned long long)(uintptr_t)a.p : a.u);
      }
    } else if (strchr("fFeEgGaA", c)) {
      spec[n++] = 'L'; spec[n++] = c; spec[n] = 0;
      len = snprintf(buf, sizeof buf, spec, a.k == kD ? a.d : (long double)a.i);
    } else if (c == 'c') {
      spec[n++] = 'c'; spec[n] = 0;
      len = snprintf(buf, sizeof buf, spec, (int)a.i);
    } else if (c == 'p') {
      if (a.p == nullptr) len = snprintf(buf, sizeof buf, "(nil)");
      else len = snprintf(buf, sizeof buf, "%p", a.p);
    } else {
      len = snprintf(buf, sizeof buf, "<bad %%%c>", c);
    }
    if (len > (int)sizeof buf - 1) len = sizeof buf - 1;
    o.Append(std::string_view(buf, len));
  }
}
template <typename... A>
void Go(FormatSink o, std::string_view f, const A&... a) {
  Arg v[sizeof...(A) + 1] = {Make(a)...};
  Run(o, f, v, sizeof...(A));
}
inline FormatSink ToString(std::string* s) {
  return FormatSink(s, [](void* p, const char* d, size_t n) { static_cast<std::string*>(p)->append(d, n); });
}
struct Buf { char* p; size_t cap; size_t n; };
inline FormatSink ToBuf(Buf* b) {
  return FormatSink(b, [](void* q, const char* d, size_t n) {
    Buf* b = static_cast<Buf*>(q);
    for (size_t i = 0; i < n; ++i, ++b->n)
      if (b->n + 1 < b->cap) b->p[b->n] = d[i];
  });
}
}  // namespace verif_fmt

template <typename... A>
std::string StrFormat(const FormatSpec<A...>& f, const A&... a) {
  std::string s;
  verif_fmt::Go(verif_fmt::ToString(&s), f.f, a...);
  return s;
}
template <typename... A>
std::string& StrAppendFormat(std::string* s, const FormatSpec<A...>& f, const A&... a) {
  verif_fmt::Go(verif_fmt::ToString(s), f.f, a...);
  return *s;
}
template <typename... A>
int SNPrintF(char* out, size_t size, const FormatSpec<A...>& f, const A&... a) {
  verif_fmt::Buf b{out, size, 0};
  verif_fmt::Go(verif_fmt::ToBuf(&b), f.f, a...);
  if (size) out[b.n < size ? b.n : size - 1] = 0;
  return static_cast<int>(b.n);
}
template <typename... A>
int FPrintF(FILE* o, const FormatSpec<A...>& f, const A&... a) {
  size_t n = 0;
  struct C { FILE* f; size_t* n; } c{o, &n};
  verif_fmt::Go(FormatSink(&c, [](void* p, const char* d, size_t k) {
                  C* c = static_cast<C*>(p);
                  fwrite(d, 1, k, c->f);
                  *c->n += k;
                }), f.f, a...);
  return static_cast<int>(n);
}
template <typename... A>
int PrintF(const FormatSpec<A...>& f, const A&... a) { return FPrintF(stdout, f, a...); }

inline void VerifFlush(FormatSink* s, std::string_view v) { s->Append(v); }
inline void VerifFlush(std::string* s, std::string_view v) { s->append(v); }
template <typename Out>
auto VerifFlush(Out* o, std::string_view v)
    -> decltype(AbslFormatFlush(o, absl::string_view(v.data(), v.size()))) {
  AbslFormatFlush(o, absl::string_view(v.data(), v.size()));
}
template <typename Out, typename... A>
bool Format(Out* out, const FormatSpec<A...>& f, const A&... a) {
  verif_fmt::Go(FormatSink(out, [](void* p, const char* d, size_t n) {
                  VerifFlush(static_cast<Out*>(p), std::string_view(d, n));
                }), f.f, a...);
  return true;
}
struct VerifStreamable {
  std::string s;
  friend std::ostream& operator<<(std::ostream& o, const VerifStreamable& v) { return o << v.s; }
};
template <typename... A>
VerifStreamable StreamFormat(const FormatSpec<A...>& f, const A&... a) { return {StrFormat(f, a...)}; }
}  // namespace absl
#endif

#ifndef VERIF_SHIM_ABSL_NO_DESTRUCTOR_H_
#define VERIF_SHIM_ABSL_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <typename T> class NoDestructor {
 public:
  template <typename... A> explicit NoDestructor(A&&... a) { new (buf_) T(std::forward<A>(a)...); }
  T* get() { return reinterpret_cast<T*>(buf_); }
  const T* get() const { return reinterpret_cast<const T*>(buf_); }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
 private:
  alignas(T) unsigned char buf_[sizeof(T)];
};
}
#endif

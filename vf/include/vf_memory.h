// owning pointers (contract model for the symbolic build): the object lives as long as the harness runs and is never
// released, so lifetimes are outside the proof; include after every standard header.
#pragma once
#include <memory>
#include <utility>
#include "vf.h"
#ifdef VF_SYMBOLIC
namespace std {
template <class T> struct vf_ptr {
  T* p = nullptr;
  vf_ptr() = default;
  vf_ptr(decltype(nullptr)) {}
  explicit vf_ptr(T* q) : p(q) {}
  template <class U> vf_ptr(const vf_ptr<U>& o) : p(o.p) {}
  T* get() const { return p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  void reset(T* q = nullptr) { p = q; }
};
template <class T> bool operator==(const vf_ptr<T>& a, decltype(nullptr)) { return a.p == nullptr; }
template <class T> bool operator!=(const vf_ptr<T>& a, decltype(nullptr)) { return a.p != nullptr; }
template <class T, class... A> vf_ptr<T> vf_make_ptr(A&&... a) {
  return vf_ptr<T>(new (vf_alloc_(sizeof(T), 1, true)) T(std::forward<A>(a)...));
}
}  // namespace std
#define shared_ptr vf_ptr
#define unique_ptr vf_ptr
#define make_shared vf_make_ptr
#define make_unique vf_make_ptr
#endif

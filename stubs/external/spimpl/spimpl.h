// Stand-in for the (empty) submodule external/spimpl: the subset of
// https://github.com/oliora/samples/blob/master/spimpl.h that libexactreal uses.
#ifndef VERIF_SPIMPL_H
#define VERIF_SPIMPL_H
#include <memory>
#include <type_traits>
#include <utility>

namespace spimpl {
namespace details {
template <class T>
T* default_copy(T* src) { return new T(*src); }
template <class T>
void default_delete(T* p) noexcept { delete p; }

// Unlike spimpl proper, the two classes share an implementation; propagating
// const is the same as in the original.
}  // namespace details

template <class T, class Deleter = void (*)(T*)>
class unique_impl_ptr {
 public:
  constexpr unique_impl_ptr() noexcept : ptr(nullptr, nullptr) {}
  constexpr unique_impl_ptr(std::nullptr_t) noexcept : unique_impl_ptr() {}
  unique_impl_ptr(T* p, Deleter d) noexcept : ptr(p, d) {}
  unique_impl_ptr(unique_impl_ptr&&) noexcept = default;
  unique_impl_ptr& operator=(unique_impl_ptr&&) noexcept = default;
  T& operator*() { return *ptr; }
  const T& operator*() const { return *ptr; }
  T* operator->() noexcept { return ptr.get(); }
  const T* operator->() const noexcept { return ptr.get(); }
  T* get() noexcept { return ptr.get(); }
  const T* get() const noexcept { return ptr.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(ptr); }
  void swap(unique_impl_ptr& rhs) noexcept { ptr.swap(rhs.ptr); }

 private:
  std::unique_ptr<T, Deleter> ptr;
};

template <class T, class Deleter = void (*)(T*), class Copier = T* (*)(T*)>
class impl_ptr {
 public:
  constexpr impl_ptr() noexcept : ptr(nullptr, nullptr), copier(nullptr) {}
  constexpr impl_ptr(std::nullptr_t) noexcept : impl_ptr() {}
  impl_ptr(T* p, Deleter d, Copier c) noexcept : ptr(p, d), copier(c) {}
  impl_ptr(impl_ptr&&) noexcept = default;
  impl_ptr& operator=(impl_ptr&&) noexcept = default;
  impl_ptr(const impl_ptr& rhs) : ptr(rhs.ptr ? rhs.copier(rhs.ptr.get()) : nullptr, rhs.ptr.get_deleter()), copier(rhs.copier) {}
  impl_ptr& operator=(const impl_ptr& rhs) {
    if (this != &rhs) {
      impl_ptr tmp(rhs);
      swap(tmp);
    }
    return *this;
  }
  T& operator*() { return *ptr; }
  const T& operator*() const { return *ptr; }
  T* operator->() noexcept { return ptr.get(); }
  const T* operator->() const noexcept { return ptr.get(); }
  T* get() noexcept { return ptr.get(); }
  const T* get() const noexcept { return ptr.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(ptr); }
  void swap(impl_ptr& rhs) noexcept {
    ptr.swap(rhs.ptr);
    std::swap(copier, rhs.copier);
  }

 private:
  std::unique_ptr<T, Deleter> ptr;
  Copier copier;
};

template <class T, class... Args>
impl_ptr<T> make_impl(Args&&... args) {
  return impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>, &details::default_copy<T>);
}

template <class T, class... Args>
unique_impl_ptr<T> make_unique_impl(Args&&... args) {
  static_assert(!std::is_array<T>::value, "unique_impl_ptr does not support arrays");
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>);
}
}  // namespace spimpl
#endif

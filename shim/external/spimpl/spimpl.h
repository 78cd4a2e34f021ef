// Stand-in for oliora/samples spimpl.h (an empty git submodule of the
// repository under test). Same API surface and semantics: pimpl smart pointers
// that propagate const; the deleter/copier are captured where T is complete.
#ifndef VERIF_SHIM_SPIMPL_H
#define VERIF_SHIM_SPIMPL_H
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace spimpl {
namespace details {
template <class T> T *default_copy(T *src) { return new T(*src); }
template <class T> void default_delete(T *p) noexcept { delete p; }
template <class T> struct default_deleter { using type = void (*)(T *); };
template <class T> struct default_copier { using type = T *(*)(T *); };
}  // namespace details

template <class T, class Deleter = typename details::default_deleter<T>::type>
class unique_impl_ptr {
 public:
  using pointer = T *;
  using element_type = T;
  using deleter_type = Deleter;
  constexpr unique_impl_ptr() noexcept : ptr(nullptr, nullptr) {}
  constexpr unique_impl_ptr(std::nullptr_t) noexcept : unique_impl_ptr() {}
  template <class D> unique_impl_ptr(pointer p, D &&d) noexcept : ptr(p, std::forward<D>(d)) {}
  unique_impl_ptr(unique_impl_ptr &&) noexcept = default;
  unique_impl_ptr &operator=(unique_impl_ptr &&) noexcept = default;
  unique_impl_ptr(const unique_impl_ptr &) = delete;
  unique_impl_ptr &operator=(const unique_impl_ptr &) = delete;
  const T &operator*() const { return *ptr; }
  T &operator*() { return *ptr; }
  const T *operator->() const noexcept { return ptr.get(); }
  T *operator->() noexcept { return ptr.get(); }
  const T *get() const noexcept { return ptr.get(); }
  T *get() noexcept { return ptr.get(); }
  T *release() noexcept { return ptr.release(); }
  explicit operator bool() const noexcept { return static_cast<bool>(ptr); }
  void swap(unique_impl_ptr &o) noexcept { ptr.swap(o.ptr); }
  friend void swap(unique_impl_ptr &a, unique_impl_ptr &b) noexcept { a.swap(b); }
  friend bool operator==(const unique_impl_ptr &a, const unique_impl_ptr &b) { return a.get() == b.get(); }
  friend bool operator!=(const unique_impl_ptr &a, const unique_impl_ptr &b) { return a.get() != b.get(); }
 private:
  std::unique_ptr<T, Deleter> ptr;
};

template <class T, class Deleter = typename details::default_deleter<T>::type,
          class Copier = typename details::default_copier<T>::type>
class impl_ptr {
 public:
  using pointer = T *;
  using element_type = T;
  constexpr impl_ptr() noexcept : ptr(nullptr, nullptr), copier(nullptr) {}
  constexpr impl_ptr(std::nullptr_t) noexcept : impl_ptr() {}
  template <class D, class C> impl_ptr(pointer p, D &&d, C &&c) noexcept : ptr(p, std::forward<D>(d)), copier(std::forward<C>(c)) {}
  impl_ptr(impl_ptr &&) noexcept = default;
  impl_ptr &operator=(impl_ptr &&) noexcept = default;
  impl_ptr(const impl_ptr &o) : ptr(nullptr, o.ptr.get_deleter()), copier(o.copier) {
    if (o.ptr) ptr.reset(copier(o.ptr.get()));
  }
  impl_ptr &operator=(const impl_ptr &o) {
    if (this == &o) return *this;
    return operator=(impl_ptr(o));
  }
  const T &operator*() const { return *ptr; }
  T &operator*() { return *ptr; }
  const T *operator->() const noexcept { return ptr.get(); }
  T *operator->() noexcept { return ptr.get(); }
  const T *get() const noexcept { return ptr.get(); }
  T *get() noexcept { return ptr.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(ptr); }
  void swap(impl_ptr &o) noexcept { ptr.swap(o.ptr); std::swap(copier, o.copier); }
  friend void swap(impl_ptr &a, impl_ptr &b) noexcept { a.swap(b); }
  friend bool operator==(const impl_ptr &a, const impl_ptr &b) { return a.get() == b.get(); }
  friend bool operator!=(const impl_ptr &a, const impl_ptr &b) { return a.get() != b.get(); }
 private:
  std::unique_ptr<T, Deleter> ptr;
  Copier copier;
};

template <class T, class... Args> inline impl_ptr<T> make_impl(Args &&... args) {
  return impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>, &details::default_copy<T>);
}
template <class T, class... Args> inline unique_impl_ptr<T> make_unique_impl(Args &&... args) {
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>);
}
}  // namespace spimpl
namespace std {
template <class T, class D> struct hash<spimpl::unique_impl_ptr<T, D>> {
  size_t operator()(const spimpl::unique_impl_ptr<T, D> &p) const noexcept { return std::hash<const T *>()(p.get()); }
};
template <class T, class D, class C> struct hash<spimpl::impl_ptr<T, D, C>> {
  size_t operator()(const spimpl::impl_ptr<T, D, C> &p) const noexcept { return std::hash<const T *>()(p.get()); }
};
}  // namespace std
#endif

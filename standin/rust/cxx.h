// Stand-in for the C++ side of the cxx bridge (not available offline): the
// types the foreign-function layer uses, over standard containers.
#pragma once

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace rust {

template <typename T>
class Vec final {
 public:
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;

  Vec() noexcept = default;
  Vec(std::initializer_list<T> l) : v(l) {}
  Vec(const Vec&) = default;
  Vec(Vec&&) noexcept = default;
  Vec& operator=(const Vec&) & = default;
  Vec& operator=(Vec&&) & noexcept = default;

  std::size_t size() const noexcept { return v.size(); }
  bool empty() const noexcept { return v.empty(); }
  const T* data() const noexcept { return v.data(); }
  T* data() noexcept { return v.data(); }
  std::size_t capacity() const noexcept { return v.capacity(); }
  const T& operator[](std::size_t n) const noexcept { return v[n]; }
  T& operator[](std::size_t n) noexcept { return v[n]; }
  const T& at(std::size_t n) const { Range(n); return v[n]; }
  T& at(std::size_t n) { Range(n); return v[n]; }
  const T& front() const noexcept { return v.front(); }
  T& front() noexcept { return v.front(); }
  const T& back() const noexcept { return v.back(); }
  T& back() noexcept { return v.back(); }
  void reserve(std::size_t n) { v.reserve(n); }
  void push_back(const T& x) { v.push_back(x); }
  void push_back(T&& x) { v.push_back(std::move(x)); }
  template <typename... A>
  void emplace_back(A&&... a) { v.push_back(T{std::forward<A>(a)...}); }
  void truncate(std::size_t n) { if (n < v.size()) v.erase(v.begin() + static_cast<std::ptrdiff_t>(n), v.end()); }
  void clear() { v.clear(); }
  iterator begin() noexcept { return v.begin(); }
  iterator end() noexcept { return v.end(); }
  const_iterator begin() const noexcept { return v.begin(); }
  const_iterator end() const noexcept { return v.end(); }
  const_iterator cbegin() const noexcept { return v.cbegin(); }
  const_iterator cend() const noexcept { return v.cend(); }
  void swap(Vec& o) noexcept { v.swap(o.v); }

 private:
  void Range(std::size_t n) const { if (n >= v.size()) throw std::out_of_range("rust::Vec index out of range"); }
  std::vector<T> v;
};
template <typename T>
void swap(Vec<T>& a, Vec<T>& b) noexcept { a.swap(b); }

template <typename Signature> class Fn;
/// A plain function; the bridge calls it through a trampoline.
template <typename R, typename... A>
class Fn<R(A...)> final {
 public:
  using Trampoline = R (*)(A..., void*);
  Fn(R (*f)(A...)) : t{[](A... a, void* p) -> R { return reinterpret_cast<R (*)(A...)>(p)(std::move(a)...); }}, f{reinterpret_cast<void*>(f)} {}  // NOLINT
  Fn(Trampoline t, void* f) : t{t}, f{f} {}
  R operator()(A... a) const noexcept { return t(std::move(a)..., f); }
  Fn operator*() const noexcept { return *this; }

 private:
  Trampoline t;
  void* f;
};

class String final {
 public:
  String() noexcept = default;
  String(const std::string& x) : s{x} {}  // NOLINT
  String(const char* x) : s{x} {}         // NOLINT
  operator std::string() const { return s; }
  const char* data() const noexcept { return s.data(); }
  const char* c_str() { return s.c_str(); }
  std::size_t size() const noexcept { return s.size(); }
  std::size_t length() const noexcept { return s.size(); }
  bool empty() const noexcept { return s.empty(); }
  bool operator==(const String&) const = default;

 private:
  std::string s;
};
class Str final {
 public:
  Str() noexcept = default;
  Str(const std::string& x) : s{x} {}  // NOLINT
  Str(const char* x) : s{x} {}         // NOLINT
  explicit operator std::string() const { return std::string{s}; }
  const char* data() const noexcept { return s.data(); }
  std::size_t size() const noexcept { return s.size(); }
  bool empty() const noexcept { return s.empty(); }

 private:
  std::string_view s;
};
template <typename T>
class Slice final {
 public:
  Slice() noexcept = default;
  Slice(T* p, std::size_t n) : p{p}, n{n} {}
  T* data() const noexcept { return p; }
  std::size_t size() const noexcept { return n; }
  T& operator[](std::size_t i) const { return p[i]; }
  T* begin() const { return p; }
  T* end() const { return p + n; }

 private:
  T* p = nullptr;
  std::size_t n = 0;
};

}  // namespace rust

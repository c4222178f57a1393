// Byte encoding used between the C++ and the Rust side of the bridge stand-in.
#pragma once

#include <rust/cxx.h>

#include <cstring>

namespace wire {

struct Out {
  std::vector<unsigned char> b;
  void Raw(const void* p, std::size_t n) { auto* q = static_cast<const unsigned char*>(p); b.insert(b.end(), q, q + n); }
  void Text(const char* s) { Raw(s, std::strlen(s)); }
};
struct In {
  const unsigned char* p;
  std::size_t n;
  std::size_t i = 0;
  bool bad = false;
  void Raw(void* q, std::size_t k) {
    if (i + k > n) { bad = true; return; }
    std::memcpy(q, p + i, k);
    i += k;
  }
  bool Done() const { return !bad && i == n; }
};
template <typename T>
  requires std::is_arithmetic_v<T>
void Put(Out& o, T x) {
  if constexpr (std::is_same_v<T, bool>) { unsigned char c = x; o.Raw(&c, 1); }
  else o.Raw(&x, sizeof x);
}
template <typename T>
  requires std::is_arithmetic_v<T>
void Get(In& i, T& x) {
  if constexpr (std::is_same_v<T, bool>) { unsigned char c = 0; i.Raw(&c, 1); x = c; }
  else i.Raw(&x, sizeof x);
}
inline void Put(Out& o, const rust::String& s) { Put(o, s.size()); o.Raw(s.data(), s.size()); }
template <typename T>
void Put(Out& o, const rust::Vec<T>& v) {
  Put(o, v.size());
  for (auto& x : v) Put(o, x);
}
template <typename T>
void Get(In& i, rust::Vec<T>& v) {
  std::size_t n = 0;
  Get(i, n);
  for (std::size_t k = 0; k < n && !i.bad; ++k) { T x{}; Get(i, x); v.push_back(std::move(x)); }
}

}  // namespace wire

// C24: trajopt::expected in lockstep with std::expected. The cases are
// instantiated in several files (PART 1-4) so that they build in parallel.
#pragma once
#include <sys/wait.h>

#include <expected>
#include <memory>
#include <optional>

#include "mon.hpp"
#include <trajopt/util/expected>

using mon::Ctx;
using mon::Desc;
using mon::Rng;

// ---------------------------------------------------------------- C24
/// Shows whether it was moved from; `Quiet` decides the exception signature of
/// its moves, which selects different code in the result type.
template <bool NoexceptMove, bool NoexceptCopy, int Tag>
struct Val {
  int v = 0;
  Val() = default;
  Val(int x) noexcept(NoexceptCopy) : v{x} {}  // NOLINT
  Val(std::initializer_list<int> l, int x) : v{x} { for (int i : l) v += i; }
  explicit Val(std::initializer_list<int> l) : v{0} { for (int i : l) v += i; }
  Val(const Val& o) noexcept(NoexceptCopy) : v{o.v} {}
  Val(Val&& o) noexcept(NoexceptMove) : v{o.v} { o.v = -1; }
  ~Val() { v = -2; }
  Val& operator=(const Val& o) noexcept(NoexceptCopy) { v = o.v; return *this; }
  Val& operator=(Val&& o) noexcept(NoexceptMove) {
    if (this != &o) { v = o.v; o.v = -1; }
    return *this;
  }
  int Get() const { return v; }
  int Bump() { return ++v; }
  bool operator==(const Val& o) const { return v == o.v; }
  bool operator!=(const Val& o) const { return v != o.v; }
  bool operator<(const Val& o) const { return v < o.v; }
  bool operator<=(const Val& o) const { return v <= o.v; }
  bool operator>(const Val& o) const { return v > o.v; }
  bool operator>=(const Val& o) const { return v >= o.v; }
};
template <typename T> struct IsVal : std::false_type {};
template <bool A, bool B, int C> struct IsVal<Val<A, B, C>> : std::true_type {};
using Ptr = std::unique_ptr<int>;
using Vec = std::vector<int>;

template <typename T> T Mk(int n) {
  if constexpr (std::is_same_v<T, std::string>) return "value number " + std::to_string(n) + (n % 2 ? " which is too long for the small buffer" : "");
  else if constexpr (std::is_same_v<T, Ptr>) return std::make_unique<int>(n);
  else if constexpr (std::is_same_v<T, Vec>) return Vec(static_cast<size_t>(n % 5), n);
  else return T(n);
}
template <typename T> std::string Sh(const T& t) {
  if constexpr (std::is_same_v<T, std::string>) return t;
  else if constexpr (std::is_same_v<T, Ptr>) return t ? std::to_string(*t) : "null";
  else if constexpr (std::is_same_v<T, Vec>) return (Desc{} << t).str();
  else if constexpr (IsVal<T>::value) return std::to_string(t.v);
  else return std::to_string(t);
}

struct TJ {
  static constexpr const char* kName = "trajopt";
  template <typename T, typename E> using Ex = trajopt::expected<T, E>;
  template <typename E> using Un = trajopt::unexpected<E>;
  template <typename E> using Bad = trajopt::bad_expected_access<E>;
  using InPlace = trajopt::in_place_t;
  using Unexpect = trajopt::unexpect_t;
  template <typename U> static decltype(auto) Of(U&& u) { return std::forward<U>(u).value(); }
  template <typename X, typename F> static auto Map(X&& x, F f, int alias) { return alias ? std::forward<X>(x).map(f) : std::forward<X>(x).transform(f); }
  template <typename X, typename F> static auto MapError(X&& x, F f, int alias) { return alias ? std::forward<X>(x).map_error(f) : std::forward<X>(x).transform_error(f); }
};
struct SD {
  static constexpr const char* kName = "std";
  template <typename T, typename E> using Ex = std::expected<T, E>;
  template <typename E> using Un = std::unexpected<E>;
  template <typename E> using Bad = std::bad_expected_access<E>;
  using InPlace = std::in_place_t;
  using Unexpect = std::unexpect_t;
  template <typename U> static decltype(auto) Of(U&& u) { return std::forward<U>(u).error(); }
  template <typename X, typename F> static auto Map(X&& x, F f, int) { return std::forward<X>(x).transform(f); }
  template <typename X, typename F> static auto MapError(X&& x, F f, int) { return std::forward<X>(x).transform_error(f); }
};

template <typename T, typename E, typename X>
std::string Show(const X& x) {
  std::string s = x.has_value() ? "value " : "error ";
  s += static_cast<bool>(x) ? "(true) " : "(false) ";
  if constexpr (!std::is_void_v<T>) {
    if (x.has_value()) {
      s += Sh<T>(*x) + "/" + Sh<T>(x.value()) + "/" + Sh<T>(*x.operator->());
      return s;
    }
  } else if (x.has_value()) {
    return s;
  }
  return s + Sh<E>(x.error());
}

constexpr int kSlots = 3;
/// One side of the lockstep: the same operation stream on N's result type.
template <typename N, typename T, typename E>
struct Side {
  using X = typename N::template Ex<T, E>;
  using Un = typename N::template Un<E>;
  static constexpr bool kVoid = std::is_void_v<T>;
  static constexpr bool kCopyT = kVoid || std::is_copy_constructible_v<T>;
  static constexpr bool kMovedShows = (kVoid || IsVal<T>::value || std::is_arithmetic_v<T>) && (IsVal<E>::value || std::is_arithmetic_v<E>);
  std::vector<std::unique_ptr<X>> s;
  std::string log;
  Side() { for (int i = 0; i < kSlots; ++i) s.push_back(std::make_unique<X>(Un(Mk<E>(i)))); }

  template <typename V> void Out(const V& v) { log += "|" + v; }
  void OutX(const X& x) { Out(Show<T, E>(x)); }
  std::string State() {
    std::string o;
    for (auto& x : s) o += Show<T, E>(*x) + "; ";
    return o;
  }
  /// After moving from an object whose moved-from state is unspecified.
  void Refresh(int i, int n) {
    if constexpr (!kMovedShows) {
      if (n % 2) {
        s[i] = std::make_unique<X>(Un(Mk<E>(n)));
      } else if constexpr (kVoid) {
        s[i] = std::make_unique<X>();
      } else {
        s[i] = std::make_unique<X>(Mk<T>(n));
      }
    }
  }
  static constexpr int kOps = 40;
  /// Returns false if the operation does not exist for these types.
  bool Do(int op, int a, int b, int n, int alias) {
    X& x = *s[a];
    X& y = *s[b];
    if constexpr (kVoid) {
      switch (op) {
        case 0: s[a] = std::make_unique<X>(); return true;
        case 1: s[a] = std::make_unique<X>(typename N::Unexpect{}, Mk<E>(n)); return true;
        case 2: { Un u(Mk<E>(n)); s[a] = std::make_unique<X>(u); Out(Sh<E>(N::Of(u))); return true; }
        case 3: s[a] = std::make_unique<X>(Un(Mk<E>(n))); return true;
        case 4: { auto c = std::make_unique<X>(y); s[a] = std::move(c); return true; }
        case 5: { auto c = std::make_unique<X>(std::move(y)); Refresh(b, n); s[a] = std::move(c); return true; }
        case 6: x = y; return true;
        case 7: if (a == b) return false; x = std::move(y); Refresh(b, n); return true;
        case 8: { Un u(Mk<E>(n)); x = u; return true; }
        case 9: x = Un(Mk<E>(n)); return true;
        case 12: Out(std::to_string(x == y) + std::to_string(x != y)); return true;
        case 13: { typename N::template Ex<void, E> z{}; Out(std::to_string(x == z) + std::to_string(z != x)); return true; }
        case 15: {
          int calls = 0;
          auto r = N::Map(x, [&] { ++calls; return n; }, alias);
          Out(Show<int, E>(r) + std::to_string(calls));
          auto q = N::Map(std::as_const(x), [&] { ++calls; }, alias);
          Out(Show<void, E>(q) + std::to_string(calls));
          return true;
        }
        case 16: {
          int calls = 0;
          auto r = x.and_then([&]() -> typename N::template Ex<int, E> { ++calls; if (n % 2) return n; return Un(Mk<E>(n)); });
          Out(Show<int, E>(r) + std::to_string(calls));
          return true;
        }
        case 17: {
          int calls = 0;
          auto r = std::as_const(x).or_else([&](const E& e) -> X { ++calls; Out(Sh<E>(e)); if (n % 2) return X(); return Un(Mk<E>(n)); });
          Out(Show<void, E>(r) + std::to_string(calls));
          return true;
        }
        case 18: {
          int calls = 0;
          auto r = N::MapError(std::as_const(x), [&](const E& e) { ++calls; return std::string{"mapped "} + Sh<E>(e); }, alias);
          Out(Show<void, std::string>(r) + std::to_string(calls));
          return true;
        }
        case 19: {
          auto r = N::MapError(std::move(x), [&](E&& e) { E t = std::move(e); return Sh<E>(t); }, alias);
          Out(Show<void, std::string>(r));
          Refresh(a, n);
          return true;
        }
        case 20: if (x.has_value()) return true; Out(Sh<E>(x.error())); { E e = std::move(x).error(); Out(Sh<E>(e)); Refresh(a, n); } return true;
        case 21: if (!x.has_value()) { x.error() = Mk<E>(n); OutX(x); } return true;
        case 22: {
          auto r = std::move(x).and_then([&]() -> X { if (n % 2) return X(); return Un(Mk<E>(n)); });
          OutX(r);
          Refresh(a, n);
          return true;
        }
        case 23: { auto r = std::move(x).or_else([&](E&& e) -> X { E t = std::move(e); Out(Sh<E>(t)); return X(); }); OutX(r); Refresh(a, n); return true; }
        default: return false;
      }
    } else {
      switch (op) {
        case 0: if constexpr (std::is_default_constructible_v<T>) { s[a] = std::make_unique<X>(); return true; } else return false;
        case 1: s[a] = std::make_unique<X>(Mk<T>(n)); return true;
        case 2: if constexpr (kCopyT) { T t = Mk<T>(n); s[a] = std::make_unique<X>(t); Out(Sh<T>(t)); return true; } else return false;
        case 3: s[a] = std::make_unique<X>(typename N::InPlace{}, Mk<T>(n)); return true;
        case 4: s[a] = std::make_unique<X>(typename N::Unexpect{}, Mk<E>(n)); return true;
        case 5: { Un u(Mk<E>(n)); s[a] = std::make_unique<X>(u); Out(Sh<E>(N::Of(u))); return true; }
        case 6: s[a] = std::make_unique<X>(Un(Mk<E>(n))); return true;
        case 7: if constexpr (kCopyT) { auto c = std::make_unique<X>(y); s[a] = std::move(c); return true; } else return false;
        case 8: { auto c = std::make_unique<X>(std::move(y)); Refresh(b, n); s[a] = std::move(c); return true; }
        case 9: if constexpr (kCopyT) { x = y; return true; } else return false;
        case 10: if (a == b) return false; x = std::move(y); Refresh(b, n); return true;
        case 11: if constexpr (kCopyT) { const T t = Mk<T>(n); x = t; Out(Sh<T>(t)); return true; } else return false;
        case 12: x = Mk<T>(n); return true;
        case 13: { const Un u(Mk<E>(n)); x = u; Out(Sh<E>(N::Of(u))); return true; }
        case 14: x = Un(Mk<E>(n)); return true;
        case 15: if constexpr (std::is_same_v<T, std::string>) { if constexpr (std::is_same_v<N, TJ>) x.emplace("emplaced", 3); else { T t("emplaced", 3); x = std::move(t); } } else if constexpr (std::is_same_v<T, Ptr>) x.emplace(new int{n}); else if constexpr (std::is_same_v<T, Vec>) { if constexpr (std::is_same_v<N, TJ>) x.emplace(static_cast<size_t>(3), n); else x = Vec(static_cast<size_t>(3), n); } else Emplace(x, n); return true;
        case 16:
          if constexpr (std::is_same_v<T, std::string>) { if constexpr (std::is_same_v<N, TJ>) x.emplace({'a', 'b'}, std::allocator<char>{}); else { std::string t{{'a', 'b'}}; x = t; } return true; }
          else if constexpr (std::is_same_v<T, Vec>) { if constexpr (std::is_same_v<N, TJ>) x.emplace({n, n + 1}); else { x = Vec{n, n + 1}; } return true; }
          else if constexpr (IsVal<T>::value) { if constexpr (std::is_same_v<N, TJ>) x.emplace({n, 1}, 5); else x = T{{n, 1}, 5}; return true; }
          else return false;
        case 17: x.swap(y); return true;
        case 18: { using std::swap; swap(x, y); return true; }
        case 19: try { Out(Sh<T>(x.value())); } catch (const typename N::template Bad<E>& e) { Out("bad access " + Sh<E>(e.error())); } return true;
        case 20: try { T t = std::move(x).value(); Out(Sh<T>(t)); } catch (typename N::template Bad<E>& e) { Out("bad access " + Sh<E>(e.error())); } Refresh(a, n); return true;
        case 21: if constexpr (kCopyT) { try { const X& k = x; T t = k.value(); Out(Sh<T>(t)); } catch (const std::exception&) { Out(std::string{"bad access"}); } return true; } else return false;
        case 22: if (x.has_value()) { T t = *std::move(x); Out(Sh<T>(t)); } else { E t = std::move(x).error(); Out(Sh<E>(t)); } Refresh(a, n); return true;
        case 23: if (x.has_value()) { *x = Mk<T>(n); OutX(x); } else { x.error() = Mk<E>(n); OutX(x); } return true;
        case 24: if constexpr (kCopyT) { T t = x.value_or(Mk<T>(n)); Out(Sh<T>(t)); return true; } else return false;
        case 25: { T t = std::move(x).value_or(Mk<T>(n)); Out(Sh<T>(t)); Refresh(a, n); return true; }
        case 26: {
          int calls = 0;
          auto r = N::Map(std::as_const(x), [&](const T& t) { ++calls; return "mapped " + Sh<T>(t); }, alias);
          Out(Show<std::string, E>(r) + std::to_string(calls));
          return true;
        }
        case 27: { auto r = N::Map(std::move(x), [&](T&& t) { T m = std::move(t); return Sh<T>(m); }, alias); Out(Show<std::string, E>(r)); Refresh(a, n); return true; }
        case 28: { int calls = 0; auto r = N::Map(x, [&](T& t) { ++calls; t = Mk<T>(n); }, alias); Out(Show<void, E>(r) + std::to_string(calls)); return true; }
        case 29: {
          int calls = 0;
          auto r = x.and_then([&](T& t) -> typename N::template Ex<int, E> { ++calls; Out(Sh<T>(t)); if (n % 2) return n; return Un(Mk<E>(n)); });
          Out(Show<int, E>(r) + std::to_string(calls));
          return true;
        }
        case 30: { auto r = std::move(x).and_then([&](T&& t) -> X { T m = std::move(t); if (n % 2) return Un(Mk<E>(n)); return X(std::move(m)); }); OutX(r); Refresh(a, n); return true; }
        case 31: if constexpr (kCopyT) {
          int calls = 0;
          auto r = std::as_const(x).or_else([&](const E& e) -> X { ++calls; Out(Sh<E>(e)); if (n % 2) return X(Mk<T>(n)); return Un(Mk<E>(n)); });
          Out(Show<T, E>(r) + std::to_string(calls));
          return true;
        } else return false;
        case 32: { auto r = std::move(x).or_else([&](E&& e) -> X { E t = std::move(e); Out(Sh<E>(t)); return Un(Mk<E>(n)); }); OutX(r); Refresh(a, n); return true; }
        case 33: if constexpr (kCopyT) {
          int calls = 0;
          auto r = N::MapError(std::as_const(x), [&](const E& e) { ++calls; return "mapped " + Sh<E>(e); }, alias);
          Out(Show<T, std::string>(r) + std::to_string(calls));
          return true;
        } else return false;
        case 34: { auto r = N::MapError(std::move(x), [&](E&& e) { E t = std::move(e); return Sh<E>(t); }, alias); Out(Show<T, std::string>(r)); Refresh(a, n); return true; }
        case 35: Out(std::to_string(x == y) + std::to_string(x != y)); return true;
        case 36: { T t = x.has_value() && n % 2 ? Mk<T>(alias) : Mk<T>(n); Out(std::to_string(x == t) + std::to_string(x != t) + std::to_string(t == x) + std::to_string(t != x)); return true; }
        case 37: { Un u(n % 2 || x.has_value() ? Mk<E>(n) : Same(x)); Out(std::to_string(x == u) + std::to_string(x != u) + std::to_string(u == x) + std::to_string(u != x)); return true; }
        case 38: {  // converting construction and assignment
          if constexpr (std::is_same_v<T, int> && std::is_same_v<E, int>) {
            using S = typename N::template Ex<short, short>;
            S k = n % 2 ? S(static_cast<short>(n)) : S(typename N::template Un<short>(static_cast<short>(n)));
            s[a] = std::make_unique<X>(k);
            *s[b] = k;
            *s[b] = S(static_cast<short>(n + 1));
            return true;
          } else if constexpr (std::is_same_v<T, std::string> && std::is_same_v<E, std::string>) {
            using S = typename N::template Ex<const char*, const char*>;
            S k = n % 2 ? S("converted value") : S(typename N::template Un<const char*>("converted error"));
            s[a] = std::make_unique<X>(k);
            *s[b] = std::move(k);
            *s[a] = "assigned from a literal";
            return true;
          } else if constexpr (IsVal<T>::value && IsVal<E>::value) {
            using S = typename N::template Ex<int, int>;
            S k = n % 2 ? S(n) : S(typename N::template Un<int>(n));
            s[a] = std::make_unique<X>(k);
            *s[b] = k;
            *s[a] = n;
            return true;
          } else return false;
        }
        case 39: {  // comparison across types
          if constexpr (std::is_arithmetic_v<T> && std::is_arithmetic_v<E>) {
            using S = typename N::template Ex<long, long>;
            S k = n % 2 ? S(n) : S(typename N::template Un<long>(n));
            S same = x.has_value() ? S(static_cast<long>(*x)) : S(typename N::template Un<long>(static_cast<long>(x.error())));
            Out(std::to_string(x == k) + std::to_string(x != k) + std::to_string(x == same) + std::to_string(x != same));
            return true;
          } else return false;
        }
        default: return false;
      }
    }
  }
  /// std::expected only emplaces from arguments that cannot throw.
  void Emplace(X& x, int n) {
    if constexpr (std::is_same_v<N, TJ> || std::is_nothrow_constructible_v<T, int>) x.emplace(n);
    else x = T(n);
  }
  E Same(X& x) {
    if constexpr (std::is_copy_constructible_v<E>) return x.error();
    else return Mk<E>(0);
  }
};

template <typename T, typename E>
void Lockstep(Ctx& c, Rng& r, const char* types) {
  Side<TJ, T, E> a;
  Side<SD, T, E> b;
  std::string ops;
  int steps = static_cast<int>(r.range(5, 40));
  for (int k = 0; k < steps; ++k) {
    int op = static_cast<int>(r.range(0, Side<TJ, T, E>::kOps - 1)), i = static_cast<int>(r.range(0, kSlots - 1)), j = r.chance(0.25) ? i : static_cast<int>(r.range(0, kSlots - 1));
    int n = static_cast<int>(r.range(0, 6)), alias = static_cast<int>(r.range(0, 1));
    a.log.clear();
    b.log.clear();
    bool ok = a.Do(op, i, j, n, alias);
    bool ok2 = b.Do(op, i, j, n, alias);
    if (!ok && !ok2) continue;
    std::string what = (Desc{} << types << " operation " << op << " on slots " << i << "," << j << " with " << n).str();
    ops += (Desc{} << op << "." << i << j << n << " ").str();
    c.Stat("operations");
    c.Distinct((Desc{} << types << op << "/" << i << (i == j) << "/" << n << a.State()).str());
    c.Check(a.log == b.log, (Desc{} << "result-differs:" << types << ":op" << op).str(), [&] { return what + ": '" + a.log + "' but std::expected gives '" + b.log + "' after " + ops; });
    std::string sa = a.State(), sb = b.State();
    if (!c.Check(sa == sb, (Desc{} << "state-differs:" << types << ":op" << op).str(), [&] { return what + ": '" + sa + "' but std::expected gives '" + sb + "' after " + ops; })) return;
  }
  c.Sample(std::string{types} + ": " + ops);
}

/// The unexpected wrapper on its own.
template <typename E>
void Wrapper(Ctx& c, Rng& r) {
  int n = static_cast<int>(r.range(0, 4)), m = static_cast<int>(r.range(0, 4));
  trajopt::unexpected<E> a(Mk<E>(n)), b(Mk<E>(m));
  std::unexpected<E> sa(Mk<E>(n)), sb(Mk<E>(m));
  E ea = Mk<E>(n), eb = Mk<E>(m);
  auto same = [&](bool x, bool y, const char* op) { c.Check(x == y, std::string{"unexpected-comparison:"} + op, [&] { return (Desc{} << "unexpected(" << Sh<E>(ea) << ") " << op << " unexpected(" << Sh<E>(eb) << ") is " << x).str(); }); };
  same(a == b, sa == sb, "==");
  same(a != b, sa != sb, "!=");
  same(a < b, ea < eb, "<");
  same(a <= b, ea <= eb, "<=");
  same(a > b, ea > eb, ">");
  same(a >= b, ea >= eb, ">=");
  c.Check(Sh<E>(a.value()) == Sh<E>(ea) && Sh<E>(std::as_const(a).value()) == Sh<E>(ea), "unexpected-value", "unexpected::value() differs from what was put in");
  auto cp = a;
  c.Check(cp == a, "unexpected-copy", "a copied unexpected differs");
  cp = b;
  c.Check(cp == b, "unexpected-assign", "an assigned unexpected differs");
  auto mv = std::move(cp);
  c.Check(mv == b, "unexpected-move", "a moved unexpected differs");
  E taken = std::move(mv).value();
  c.Check(taken == eb, "unexpected-take", "a value moved out of unexpected differs");
  auto made = trajopt::make_unexpected(ea);
  c.Check(made == a, "make-unexpected", "make_unexpected differs");
  if constexpr (std::is_same_v<E, std::string>) {
    trajopt::unexpected deduced{std::string{"x"}};
    c.Check(deduced.value() == "x", "unexpected-deduced", "deduced unexpected differs");
    trajopt::unexpected<std::string> il({'a', 'b', 'c'}, std::allocator<char>{}), fill(3, 'q');
    c.Check(il.value() == "abc" && fill.value() == "qqq", "unexpected-args", "unexpected built from arguments differs");
  }
  trajopt::bad_expected_access<E> bad{Mk<E>(n)};
  c.Check(bad.error() == ea && std::string{bad.what()} != "", "bad-access", "bad_expected_access loses the error");
}

/// How an argument arrives: its value category and constness as well as its content.
template <typename A> std::string Arrives(A&& a) {
  using B = std::remove_reference_t<A>;
  std::string s = std::is_const_v<B> ? "const" : "";
  return s + (std::is_lvalue_reference_v<A> ? "& " : "&& ") + Sh<std::remove_const_t<B>>(a) + ";";
}
template <int K, typename X> decltype(auto) As(X& x) {
  if constexpr (K == 0) return (x);
  else if constexpr (K == 1) return std::as_const(x);
  else if constexpr (K == 2) return std::move(x);
  else return std::move(std::as_const(x));
}
/// Every observer and combinator on an object of each value category; also what types come out.
template <typename N, typename T, typename E, int K>
std::string Categories(bool holds, int n, int op, int alias) {
  using X = typename N::template Ex<T, E>;
  using Un = typename N::template Un<E>;
  constexpr bool kVoid = std::is_void_v<T>;
  auto make = [&] {
    if (!holds) return std::make_unique<X>(Un(Mk<E>(n)));
    if constexpr (kVoid) return std::make_unique<X>();
    else return std::make_unique<X>(Mk<T>(n));
  };
  auto p = make();
  X& x = *p;
  std::string log;
  auto types = [&]<typename R>(const R&, auto t, auto e) {
    log += std::is_same_v<typename R::value_type, typename decltype(t)::type> && std::is_same_v<typename R::error_type, typename decltype(e)::type> ? " types-ok " : " types-differ ";
  };
  constexpr auto tT = std::type_identity<T>{};
  constexpr auto tE = std::type_identity<E>{};
  constexpr auto tI = std::type_identity<int>{};
  constexpr auto tV = std::type_identity<void>{};
  int calls = 0;
  auto seen = [&](auto&&... a) { ++calls; ((log += Arrives(std::forward<decltype(a)>(a))), ...); };
  switch (op) {
    case 0:
      try {
        if constexpr (!kVoid) seen(As<K>(x).value());
      } catch (const typename N::template Bad<E>& b) { log += "bad " + Sh<E>(b.error()); }
      break;
    case 1: if constexpr (!kVoid) { if (holds) seen(*As<K>(x)); } break;
    case 2: if (!holds) seen(As<K>(x).error()); break;
    case 3: { auto r = N::Map(As<K>(x), [&](auto&&... a) { seen(std::forward<decltype(a)>(a)...); return n + 1; }, alias); log += Show<int, E>(r); types(r, tI, tE); break; }
    case 4: { auto r = N::Map(As<K>(x), [&](auto&&... a) { seen(std::forward<decltype(a)>(a)...); }, alias); log += Show<void, E>(r); types(r, tV, tE); break; }
    case 5: { auto r = As<K>(x).and_then([&](auto&&... a) -> typename N::template Ex<int, E> { seen(std::forward<decltype(a)>(a)...); if (n % 2) return n; return Un(Mk<E>(n + 1)); }); log += Show<int, E>(r); types(r, tI, tE); break; }
    case 6: { auto r = As<K>(x).and_then([&](auto&&... a) -> typename N::template Ex<void, E> { seen(std::forward<decltype(a)>(a)...); return {}; }); log += Show<void, E>(r); types(r, tV, tE); break; }
    case 7: { auto r = As<K>(x).or_else([&](auto&& a) -> X { seen(std::forward<decltype(a)>(a)); return Un(Mk<E>(n + 1)); }); log += Show<T, E>(r); types(r, tT, tE); break; }
    case 8: { auto r = N::MapError(As<K>(x), [&](auto&& a) { seen(std::forward<decltype(a)>(a)); return n + 2; }, alias); log += Show<T, int>(r); types(r, tT, tI); break; }
    case 9: if constexpr (IsVal<T>::value) { auto r = N::Map(As<K>(x), &T::Get, alias); log += Show<int, E>(r); types(r, tI, tE); } break;
    case 10: if constexpr (IsVal<T>::value && K == 0) { auto r = N::Map(As<K>(x), &T::Bump, alias); log += Show<int, E>(r); } break;
    case 11: if constexpr (IsVal<E>::value) { auto r = N::MapError(As<K>(x), &E::Get, alias); log += Show<T, int>(r); types(r, tT, tI); } break;
    case 12: if constexpr (!kVoid) { T t = As<K>(x).value_or(Mk<T>(n + 1)); log += Sh<T>(t); } break;
    case 13: { X y(As<K>(x)); log += Show<T, E>(y); break; }
    case 14: { auto q = make(); X y = *q; y = As<K>(x); log += Show<T, E>(y); auto w = std::make_unique<X>(Un(Mk<E>(n + 1))); *w = As<K>(x); log += Show<T, E>(*w); break; }
    case 15: if constexpr (!kVoid && !std::is_arithmetic_v<T>) { if (holds) log += Arrives(*As<K>(x).operator->()); } break;
    case 16: { Un u(Mk<E>(n)); seen(N::Of(As<K>(u))); X y(As<K>(u)); log += Show<T, E>(y); Un u2(Mk<E>(n)); x = As<K>(u2); log += Show<T, E>(x); return log; }
    default: { typename N::template Bad<E> b(Mk<E>(n)); seen(As<K>(b).error()); break; }
  }
  // Whether the object was left alone or moved from.
  return log + " x" + std::to_string(calls) + " then " + Show<T, E>(x);
}
template <typename T, typename E>
void AllCategories(Ctx& c, Rng& r, const char* types) {
  int n = static_cast<int>(r.range(0, 6)), op = static_cast<int>(r.range(0, 17)), alias = static_cast<int>(r.range(0, 1));
  bool holds = r.chance(0.6);
  auto cmp = [&](const char* cat, std::string a, std::string b) {
    c.Stat("observations");
    c.Distinct((Desc{} << types << cat << op << holds << n << alias).str());
    c.Check(a == b, (Desc{} << "category:" << types << ":op" << op << ":" << cat).str(), [&] { return (Desc{} << types << " operation " << op << " on " << cat << (holds ? " with a value" : " with an error") << " from " << n << ": '" << a << "' but std::expected gives '" << b << "'").str(); });
  };
  cmp("&", Categories<TJ, T, E, 0>(holds, n, op, alias), Categories<SD, T, E, 0>(holds, n, op, alias));
  cmp("const&", Categories<TJ, T, E, 1>(holds, n, op, alias), Categories<SD, T, E, 1>(holds, n, op, alias));
  cmp("&&", Categories<TJ, T, E, 2>(holds, n, op, alias), Categories<SD, T, E, 2>(holds, n, op, alias));
  cmp("const&&", Categories<TJ, T, E, 3>(holds, n, op, alias), Categories<SD, T, E, 3>(holds, n, op, alias));
}

// clang-format off
#if PART == 3
template void Lockstep<int, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<int, int>(Ctx&, Rng&, const char*);
#endif
#if PART == 4
template void Lockstep<std::string, std::string>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<std::string, std::string>(Ctx&, Rng&, const char*);
#endif
#if PART == 1
template void Lockstep<Val<true, false, 0>, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Val<true, false, 0>, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 2
template void Lockstep<Ptr, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Ptr, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 3
template void Lockstep<void, std::string>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<void, std::string>(Ctx&, Rng&, const char*);
#endif
#if PART == 4
template void Lockstep<void, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<void, int>(Ctx&, Rng&, const char*);
#endif
#if PART == 1
template void Lockstep<Val<false, false, 0>, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Val<false, false, 0>, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 2
template void Lockstep<Val<true, true, 0>, Val<false, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Val<true, true, 0>, Val<false, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 3
template void Lockstep<double, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<double, int>(Ctx&, Rng&, const char*);
#endif
#if PART == 4
template void Lockstep<Vec, std::string>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Vec, std::string>(Ctx&, Rng&, const char*);
#endif
#if PART == 1
template void Lockstep<Val<true, true, 0>, std::string>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<Val<true, true, 0>, std::string>(Ctx&, Rng&, const char*);
#endif
#if PART == 2
template void Lockstep<void, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<void, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 3
template void Lockstep<std::string, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void Lockstep<std::string, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 1
template void AllCategories<int, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<int, int>(Ctx&, Rng&, const char*);
#endif
#if PART == 2
template void AllCategories<Val<true, false, 0>, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<Val<true, false, 0>, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 3
template void AllCategories<Val<false, false, 0>, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<Val<false, false, 0>, Val<true, true, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 4
template void AllCategories<void, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<void, Val<true, false, 1>>(Ctx&, Rng&, const char*);
#endif
#if PART == 1
template void AllCategories<void, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<void, int>(Ctx&, Rng&, const char*);
#endif
#if PART == 2
template void AllCategories<Val<true, true, 0>, int>(Ctx&, Rng&, const char*);
#elif !PART
extern template void AllCategories<Val<true, true, 0>, int>(Ctx&, Rng&, const char*);
#endif

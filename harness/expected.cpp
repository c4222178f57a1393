// C24: see expected.hpp. C25: lifetimes and exception safety under an object
// ledger, with a fault injected at every throwing point of every operation.
#define PART 0
#include "expected.hpp"

/// Shows which constructor made it and what it was given.
template <bool NothrowMake, bool NothrowMove>
struct Fw {
  std::string how;
  Ptr p;
  Fw(Ptr&& q, const std::string& s) noexcept(NothrowMake) : how{"copied " + s}, p{std::move(q)} {}
  Fw(Ptr&& q, std::string&& s) noexcept(NothrowMake) : how{"moved "}, p{std::move(q)} { how += std::exchange(s, "gone"); }
  Fw(Ptr&& q, std::string& s) noexcept(NothrowMake) : how{"edited " + s}, p{std::move(q)} { s += "!"; }
  Fw(std::initializer_list<int> l, Ptr&& q, const std::string& s) noexcept(NothrowMake) : how{"list " + std::to_string(l.size()) + " copied " + s}, p{std::move(q)} {}
  Fw(std::initializer_list<int> l, Ptr&& q, std::string&& s) noexcept(NothrowMake) : how{"list " + std::to_string(l.size()) + " moved "}, p{std::move(q)} { how += std::exchange(s, "gone"); }
  Fw(std::initializer_list<int> l, Ptr&& q, std::string& s) noexcept(NothrowMake) : how{"list " + std::to_string(l.size()) + " edited " + s}, p{std::move(q)} { s += "!"; }
  Fw(Fw&& o) noexcept(NothrowMove) : how{std::move(o.how)}, p{std::move(o.p)} {}
  Fw& operator=(Fw&& o) noexcept(NothrowMove) { how = std::move(o.how); p = std::move(o.p); return *this; }
  std::string str() const { return how + "/" + (p ? std::to_string(*p) : "null"); }
};
/// Arguments reach the constructor of the payload as they were passed.
template <bool A, bool B>
void Forwarding(Ctx& c, Rng& r) {
  using F = Fw<A, B>;
  using G = Fw<true, true>;  // an error that is always safe to set aside
  int n = static_cast<int>(r.range(0, 9)), op = static_cast<int>(r.range(0, 9)), cat = static_cast<int>(r.range(0, 2));
  const std::string text = "text " + std::to_string(n);
  auto run = [&](auto make) {  // the payload's description, then what is left of the arguments
    Ptr q = std::make_unique<int>(n);
    std::string s = text;
    std::string out = cat == 0 ? make(std::move(q), std::as_const(s)) : cat == 1 ? make(std::move(q), std::move(s)) : make(std::move(q), s);
    return out + ";" + (q ? "kept" : "taken") + ";" + s;
  };
  std::initializer_list<int> il{1, 2, n};
  auto plain = run([&](auto&&... a) { return F(std::forward<decltype(a)>(a)...).str(); });
  auto list = run([&](auto&&... a) { return F(il, std::forward<decltype(a)>(a)...).str(); });
  using X = trajopt::expected<F, G>;
  using Y = trajopt::expected<int, F>;
  auto value = [&] { return X(trajopt::in_place, std::make_unique<int>(77), std::string{"old"}); };
  auto error = [&] { return X(trajopt::unexpect, std::make_unique<int>(78), std::string{"old"}); };
  std::string got, want = op % 2 ? list : plain;
  switch (op) {
    case 0: got = run([&](auto&&... a) { X x(trajopt::in_place, std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 1: got = run([&](auto&&... a) { X x(trajopt::in_place, il, std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 2: got = run([&](auto&&... a) { Y x(trajopt::unexpect, std::forward<decltype(a)>(a)...); return x.error().str(); }); break;
    case 3: got = run([&](auto&&... a) { Y x(trajopt::unexpect, il, std::forward<decltype(a)>(a)...); return x.error().str(); }); break;
    case 4: got = run([&](auto&&... a) { X x = value(); x.emplace(std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 5: got = run([&](auto&&... a) { X x = value(); x.emplace(il, std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 6: got = run([&](auto&&... a) { X x = error(); x.emplace(std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 7: got = run([&](auto&&... a) { X x = error(); x.emplace(il, std::forward<decltype(a)>(a)...); return x->str(); }); break;
    case 8: got = run([&](auto&&... a) { trajopt::unexpected<F> u(std::forward<decltype(a)>(a)...); return u.value().str(); }); break;
    default: got = run([&](auto&&... a) { trajopt::unexpected<F> u(il, std::forward<decltype(a)>(a)...); return u.value().str(); });
  }
  c.Distinct((Desc{} << "forward" << A << B << op << cat).str());
  c.Check(got == want, (Desc{} << "arguments-forwarded:op" << op << ":as" << cat).str(), [&] { return (Desc{} << "construction " << op << " with the text passed as kind " << cat << " gives '" << got << "', the payload alone '" << want << "'").str(); });
}

/// Callables which return nothing, for or_else and map_error.
template <typename T, typename E>
void Silent(Ctx& c, Rng& r, const char* types) {
  using X = trajopt::expected<T, E>;
  int n = static_cast<int>(r.range(0, 6));
  bool holds = r.chance(0.5), move = r.chance(0.5);
  auto make = [&] {
    if (!holds) return X(trajopt::unexpected<E>(Mk<E>(n)));
    if constexpr (std::is_void_v<T>) return X();
    else return X(Mk<T>(n));
  };
  std::string before = Show<T, E>(make()), seen;
  std::string want = holds ? "" : Sh<E>(Mk<E>(n));
  auto note = [&](const E& e) { seen += Sh<E>(e); };
  {
    X x = make();
    std::string after = move ? Show<T, E>(std::move(x).or_else(note)) : Show<T, E>(x.or_else(note));
    c.Check(after == before && seen == want, std::string{"silent-or-else:"} + types, [&] { return (Desc{} << types << " or_else with a callable that returns nothing turns '" << before << "' into '" << after << "' and shows it '" << seen << "'").str(); });
  }
  seen.clear();
  {
    X x = make();
    auto check = [&](auto y) {
      bool ok = y.has_value() == holds && seen == want;
      if constexpr (!std::is_void_v<T>) ok = ok && (!holds || Sh<T>(*y) == Sh<T>(Mk<T>(n)));
      c.Check(ok, std::string{"silent-map-error:"} + types, [&] { return (Desc{} << types << " map_error with a callable that returns nothing on '" << before << "': has value " << y.has_value() << ", shown '" << seen << "'").str(); });
    };
    if (move) check(std::move(x).map_error(note));
    else check(x.map_error(note));
  }
  c.Distinct((Desc{} << "silent" << types << holds << move << n).str());
}

/// Conversions between result types: which constructor of the payload was used,
/// with what, what is left of the source, and whether it converts implicitly.
template <int Tag>
struct Piece {
  int v;
  explicit Piece(int x) noexcept : v{x} {}
};
template <int Tag, bool Implicit, bool Nothrow>
struct Whole {
  std::string how{"default"};
  Whole() = default;
  explicit Whole(int x) : how{"own" + std::to_string(x)} {}
  explicit(!Implicit) Whole(const Piece<Tag>& p) noexcept(Nothrow) : how{"copied" + std::to_string(p.v)} {}
  explicit(!Implicit) Whole(Piece<Tag>&& p) noexcept(Nothrow) : how{"moved" + std::to_string(p.v)} { p.v = -1; }
  Whole& operator=(const Piece<Tag>& p) { how = "assigned a copy of " + std::to_string(p.v); return *this; }
  Whole& operator=(Piece<Tag>&& p) { how = "assigned " + std::to_string(p.v); p.v = -1; return *this; }
};
template <typename N, bool TI, bool EI, bool NT>
std::string Conversions(bool holds, bool held, int n, int op) {
  using T = Whole<0, TI, NT>;
  using E = Whole<1, EI, NT>;
  using X = typename N::template Ex<T, E>;
  using U = Piece<0>;
  using G = Piece<1>;
  using Y = typename N::template Ex<U, G>;
  using UG = typename N::template Un<G>;
  Y y = holds ? Y(U(n)) : Y(UG(G(n)));
  auto source = [&] { return std::string{y.has_value() ? " from value " : " from error "} + std::to_string(y.has_value() ? y->v : y.error().v); };
  auto result = [](const X& x) { return x.has_value() ? "value " + x->how : "error " + x.error().how; };
  X old = held ? X(T(99)) : X(typename N::template Un<E>(E(98)));
  switch (op) {
    case 0: { X x(y); return result(x) + source(); }
    case 1: { X x(std::as_const(y)); return result(x) + source(); }
    case 2: { X x(std::move(y)); return result(x) + source(); }
    case 3: { X x(std::move(std::as_const(y))); return result(x) + source(); }
    case 4: { UG u(G{n}); X x(u); return result(x) + std::to_string(N::Of(u).v); }
    case 5: { const UG u(G{n}); X x(u); return result(x) + std::to_string(N::Of(u).v); }
    case 6: { UG u(G{n}); X x(std::move(u)); return result(x) + std::to_string(N::Of(u).v); }
    case 7: { U u(n); X x(u); return result(x) + std::to_string(u.v); }
    case 8: { U u(n); X x(std::move(u)); return result(x) + std::to_string(u.v); }
    case 9: if constexpr (TI && EI) { old = y; return result(old) + source(); } break;
    case 10: if constexpr (TI && EI) { old = std::move(y); return result(old) + source(); } break;
    case 11: if constexpr (TI) { U u(n); old = u; return result(old) + std::to_string(u.v); } break;
    case 12: if constexpr (TI) { U u(n); old = std::move(u); return result(old) + std::to_string(u.v); } break;
    case 13: { X x(typename N::InPlace{}, U(n)); return result(x); }
    case 14: { X x(typename N::Unexpect{}, G(n)); return result(x); }
    case 15: { U u(n); X x(typename N::InPlace{}, u); return result(x) + std::to_string(u.v); }
    case 16: { G u(n); X x(typename N::Unexpect{}, u); return result(x) + std::to_string(u.v); }
    case 17: if constexpr (TI) { U u(n); T t = old.value_or(u); return t.how + std::to_string(u.v); } break;
    case 18: if constexpr (TI) { U u(n); T t = old.value_or(std::move(u)); return t.how + std::to_string(u.v); } break;
    default: {
      std::string s;
      auto put = [&](bool b) { s += b ? '1' : '0'; };
      put(std::is_constructible_v<X, const Y&>);
      put(std::is_constructible_v<X, Y&&>);
      put(std::is_convertible_v<const Y&, X>);
      put(std::is_convertible_v<Y&&, X>);
      put(std::is_convertible_v<const UG&, X>);
      put(std::is_convertible_v<UG&&, X>);
      put(std::is_convertible_v<U&&, X>);
      put(std::is_convertible_v<const U&, X>);
      put(std::is_constructible_v<X, int>);
      put(std::is_convertible_v<int, X>);
      return s;
    }
  }
  return "";
}
template <bool TI, bool EI, bool NT>
void Converts(Ctx& c, Rng& r) {
  bool holds = r.chance(0.5), held = r.chance(0.5);
  int n = static_cast<int>(r.range(0, 6)), op = static_cast<int>(r.range(0, 19));
  auto a = Conversions<TJ, TI, EI, NT>(holds, held, n, op), b = Conversions<SD, TI, EI, NT>(holds, held, n, op);
  std::string what = (Desc{} << "conversion " << op << (TI ? ", implicit value" : ", explicit value") << (EI ? ", implicit error" : ", explicit error")).str();
  c.Stat("conversions");
  c.Distinct((Desc{} << what << holds << held << n).str());
  c.Check(a == b, "conversion:op" + std::to_string(op), [&] { return (Desc{} << what << (holds ? " of a value" : " of an error") << " gives '" << a << "' but std::expected gives '" << b << "'").str(); });
}

static void C24(Ctx& c) {
  c.rule = "a case is a random sequence of 5-40 of 40 operations on three objects, applied in lockstep to trajopt::expected and std::expected for one of 13 type pairs (trivial, owning, move-only, void, "
           "nothrow and throwing signatures); after every operation results and all observable states are compared; distinct by (types, operation, aliasing, state before)";
  c.Cases("lockstep", c.N(20000, 600000), [&](Rng& r) {
    switch (r.range(0, 12)) {
      case 0: Lockstep<int, int>(c, r, "<int,int>"); break;
      case 1: Lockstep<std::string, std::string>(c, r, "<string,string>"); break;
      case 2: Lockstep<Val<true, false, 0>, Val<true, false, 1>>(c, r, "<Val,Err>"); break;
      case 3: Lockstep<Ptr, Val<true, true, 1>>(c, r, "<unique_ptr,Err>"); break;
      case 4: Lockstep<void, std::string>(c, r, "<void,string>"); break;
      case 5: Lockstep<void, int>(c, r, "<void,int>"); break;
      case 6: Lockstep<Val<false, false, 0>, Val<true, true, 1>>(c, r, "<ThrowMoveVal,Err>"); break;
      case 7: Lockstep<Val<true, true, 0>, Val<false, false, 1>>(c, r, "<Val,ThrowMoveErr>"); break;
      case 8: Lockstep<double, int>(c, r, "<double,int>"); break;
      case 9: Lockstep<Vec, std::string>(c, r, "<vector,string>"); break;
      case 10: Lockstep<Val<true, true, 0>, std::string>(c, r, "<Val,string>"); break;
      case 11: Lockstep<void, Val<true, false, 1>>(c, r, "<void,Err>"); break;
      default: Lockstep<std::string, Val<true, false, 1>>(c, r, "<string,Err>");
    }
  });
  c.Cases("categories", c.N(4000, 60000), [&](Rng& r) {
    switch (r.range(0, 5)) {
      case 0: AllCategories<int, int>(c, r, "<int,int>"); break;
      case 1: AllCategories<Val<true, false, 0>, Val<true, false, 1>>(c, r, "<Val,Err>"); break;
      case 2: AllCategories<Val<false, false, 0>, Val<true, true, 1>>(c, r, "<ThrowMoveVal,Err>"); break;
      case 3: AllCategories<void, Val<true, false, 1>>(c, r, "<void,Err>"); break;
      case 4: AllCategories<void, int>(c, r, "<void,int>"); break;
      default: AllCategories<Val<true, true, 0>, int>(c, r, "<Val,int>");
    }
  });
  c.Cases("forwarding", c.N(1000, 20000), [&](Rng& r) {
    switch (r.range(0, 3)) {
      case 0: Forwarding<true, true>(c, r); break;
      case 1: Forwarding<false, true>(c, r); break;
      case 2: Forwarding<false, false>(c, r); break;
      default: Forwarding<true, false>(c, r);
    }
    switch (r.range(0, 3)) {
      case 0: Silent<int, int>(c, r, "<int,int>"); break;
      case 1: Silent<std::string, std::string>(c, r, "<string,string>"); break;
      case 2: Silent<void, std::string>(c, r, "<void,string>"); break;
      default: Silent<Val<true, false, 0>, Val<true, false, 1>>(c, r, "<Val,Err>");
    }
  });
  c.Cases("conversions", c.N(6000, 60000), [&](Rng& r) {
    switch (r.range(0, 5)) {
      case 0: Converts<true, true, false>(c, r); break;
      case 1: Converts<true, false, false>(c, r); break;
      case 2: Converts<false, true, false>(c, r); break;
      case 3: Converts<false, false, false>(c, r); break;
      case 4: Converts<true, true, true>(c, r); break;
      default: Converts<false, false, true>(c, r);
    }
  });
  c.Cases("unexpected", c.N(2000, 30000), [&](Rng& r) {
    Wrapper<int>(c, r);
    Wrapper<std::string>(c, r);
    Wrapper<Val<true, false, 3>>(c, r);
  });
}

// ---------------------------------------------------------------- C25
struct Boom {
  int at;
};
struct Ledger {
  std::map<const void*, int> live;  // address -> tag
  std::vector<std::string> bad;
  uint64_t events = 0;
  int countdown = -1;  // throws when it reaches 0
  bool fired = false;
  int points = 0;
  void Point() {
    ++points;
    if (countdown >= 0 && countdown-- == 0) {
      fired = true;
      throw Boom{points};
    }
  }
  void Born(const void* p, int tag) {
    ++events;
    if (!live.emplace(p, tag).second) bad.push_back("constructed over a live object");
  }
  void Dead(const void* p, int tag) {
    ++events;
    auto it = live.find(p);
    if (it == live.end()) bad.push_back("destroyed an object that was not alive");
    else if (it->second != tag) { bad.push_back("destroyed an object of the other type"); live.erase(it); }
    else live.erase(it);
  }
  void Used(const void* p, int tag) {
    ++events;
    auto it = live.find(p);
    if (it == live.end() || it->second != tag) bad.push_back("used an object outside its lifetime");
  }
};
static Ledger* gL;

struct Src { int v; };
/// A payload whose every construction, destruction and use is recorded and
/// which owns memory, so that the sanitizer sees leaks and double frees too.
template <int Tag, bool CopyThrows, bool MoveThrows>
struct Pay {
  int* v;
  explicit Pay(int x) : v{nullptr} {
    if constexpr (CopyThrows) gL->Point();
    v = new int{x};
    gL->Born(this, Tag);
  }
  Pay(Src s) : Pay(s.v) {}  // NOLINT
  Pay(std::initializer_list<int> l, int x) : Pay(x + static_cast<int>(l.size())) {}
  Pay(const Pay& o) noexcept(!CopyThrows) : v{nullptr} {
    gL->Used(&o, Tag);
    if constexpr (CopyThrows) gL->Point();
    v = o.v ? new int{*o.v} : nullptr;
    gL->Born(this, Tag);
  }
  Pay(Pay&& o) noexcept(!MoveThrows) : v{nullptr} {
    gL->Used(&o, Tag);
    if constexpr (MoveThrows) gL->Point();
    std::swap(v, o.v);
    gL->Born(this, Tag);
  }
  Pay& operator=(const Pay& o) noexcept(!CopyThrows) {
    gL->Used(this, Tag);
    gL->Used(&o, Tag);
    if constexpr (CopyThrows) gL->Point();
    int* n = o.v ? new int{*o.v} : nullptr;
    delete v;
    v = n;
    return *this;
  }
  Pay& operator=(Pay&& o) noexcept(!MoveThrows) {
    gL->Used(this, Tag);
    gL->Used(&o, Tag);
    if constexpr (MoveThrows) gL->Point();
    if (this != &o) {
      delete v;
      v = o.v;
      o.v = nullptr;
    }
    return *this;
  }
  ~Pay() {
    gL->Dead(this, Tag);
    delete v;
    v = reinterpret_cast<int*>(0x10);  // a later use or second delete faults
  }
  int Get() const {
    gL->Used(this, Tag);
    return v ? *v : -1;
  }
  bool operator==(const Pay& o) const { return Get() == o.Get(); }
  bool operator!=(const Pay& o) const { return Get() != o.Get(); }
};

template <typename X, bool Void>
struct Pool {
  alignas(X) unsigned char raw[3][sizeof(X)];
  X& At(int i) { return *std::launder(reinterpret_cast<X*>(raw[i])); }
  ~Pool() { for (int i = 0; i < 3; ++i) At(i).~X(); }
};

template <typename T, typename E>
struct Life {
  static constexpr bool kVoid = std::is_void_v<T>;
  using X = trajopt::expected<T, E>;
  Ctx& c;
  std::string types;
  std::string what;
  Pool<X, kVoid> pool;

  Life(Ctx& cc, std::string t, Rng& r) : c{cc}, types{std::move(t)} {
    for (int i = 0; i < 3; ++i) Make(i, r.chance(0.5), static_cast<int>(r.range(1, 99)));
  }
  void Make(int i, bool value, int v) {
    if (value) {
      if constexpr (kVoid) new (pool.raw[i]) X();
      else new (pool.raw[i]) X(trajopt::in_place, v);
    } else {
      new (pool.raw[i]) X(trajopt::unexpect, v);
    }
  }
  void Reset(int i, bool value, int v) {
    pool.At(i).~X();
    Make(i, value, v);
  }
  std::string Snap(int i) {
    X& x = pool.At(i);
    if (x.has_value()) {
      if constexpr (kVoid) return "value";
      else return "value " + std::to_string((*x).Get());
    }
    return "error " + std::to_string(x.error().Get());
  }
  /// Every object holds exactly one live alternative and nothing else lives.
  bool Audit(const std::string& key) {
    size_t expectedLive = 0;
    std::string detail;
    for (int i = 0; i < 3; ++i) {
      X& x = pool.At(i);
      const void* p = nullptr;
      int tag = 0;
      if (x.has_value()) {
        if constexpr (!kVoid) { p = static_cast<const void*>(x.operator->()); tag = 1; }
      } else {
        p = static_cast<const void*>(&x.error());
        tag = 2;
      }
      if (p) {
        ++expectedLive;
        auto it = gL->live.find(p);
        if (it == gL->live.end() || it->second != tag) detail += (Desc{} << "object " << i << " claims " << (tag == 1 ? "a value" : "an error") << " which is not alive; ").str();
      }
    }
    if (gL->live.size() != expectedLive) detail += (Desc{} << gL->live.size() << " payloads alive in " << expectedLive << " objects; ").str();
    for (auto& b : gL->bad) detail += b + "; ";
    bool ok = c.Check(detail.empty(), key, [&] { return types + " " + what + ": " + detail; });
    gL->bad.clear();
    return ok;
  }

  static constexpr int kOps = 26;
  /// Kind of guarantee: 0 none beyond a live alternative, 1 the previous state
  /// of slot `a` is kept when it throws.
  int Guarantee(int op) const { return op <= 9 ? 1 : 0; }
  bool Do(int op, int a, int b, int v) {
    X& x = pool.At(a);
    X& y = pool.At(b);
    switch (op) {
      case 0: x = y; return true;
      case 1: if (a == b) return false; x = std::move(y); return true;
      case 2: if constexpr (!kVoid) { const T t(v); x = t; return true; } else return false;
      case 3: if constexpr (!kVoid) { x = T(v); return true; } else return false;
      case 4: if constexpr (!kVoid) { x = Src{v}; return true; } else return false;
      case 5: { const trajopt::unexpected<E> u(v); x = u; return true; }
      case 6: x = trajopt::unexpected<E>(v); return true;
      case 7: if constexpr (!kVoid) { x.emplace(v); return true; } else return false;
      case 8: if constexpr (!kVoid) { x.emplace(Src{v}); return true; } else return false;
      case 9: if constexpr (!kVoid) { x.emplace({1, 2, 3}, v); return true; } else return false;
      case 10: if constexpr (!kVoid) { x.swap(y); return true; } else return false;
      case 11: if constexpr (!kVoid) { using std::swap; swap(x, y); return true; } else return false;
      case 12: if constexpr (!kVoid) { X t(trajopt::in_place, v); X u(trajopt::unexpect, v); return true; } else { X u(trajopt::unexpect, v); return true; }
      case 13: if constexpr (!kVoid) { T t(v); X q(t); X p(std::move(t)); return true; } else return false;
      case 14: { trajopt::unexpected<E> u(v); X q(u); X p(std::move(u)); return true; }
      case 15: if constexpr (!kVoid) { T t = x.value_or(T(v)); t.Get(); return true; } else return false;
      case 16: if constexpr (!kVoid) { T t = std::move(x).value_or(T(v)); t.Get(); return true; } else return false;
      case 17: if constexpr (!kVoid) { auto r = x.map([&](T& t) { T k(t); gL->Point(); return k; }); (void)r; return true; } else { auto r = x.map([&] { gL->Point(); return 1; }); (void)r; return true; }
      case 18: if constexpr (!kVoid) { auto r = std::move(x).map([&](T&& t) { T k(std::move(t)); gL->Point(); return k.Get(); }); (void)r; return true; } else return false;
      case 19: if constexpr (!kVoid) { auto r = x.and_then([&](T& t) -> trajopt::expected<int, E> { gL->Point(); if (t.Get() % 2) return t.Get(); return trajopt::unexpected<E>(v); }); (void)r; return true; } else return false;
      case 20: { auto r = x.map_error([&](E& e) { gL->Point(); return e.Get(); }); (void)r; return true; }
      case 21: try { if constexpr (!kVoid) x.value().Get(); } catch (trajopt::bad_expected_access<E>& e) { e.error().Get(); } return true;
      case 22: try { if constexpr (!kVoid) { T t = std::move(x).value(); t.Get(); } } catch (trajopt::bad_expected_access<E>& e) { e.error().Get(); } return true;
      case 23: if constexpr (!kVoid) { (void)(x == y); (void)(x != y); if (x.has_value()) (void)(x == *x); return true; } else { (void)(x == y); return true; }
      // Copy, move and converting construction: not injected into (see probes).
      case 24: { int cd = gL->countdown; gL->countdown = -1; { X q(y); X p(std::move(q)); X z(p); (void)z.has_value(); } gL->countdown = cd; return true; }
      case 25: {
        int cd = gL->countdown;
        gL->countdown = -1;
        if constexpr (!kVoid) {
          using S = trajopt::expected<Src, Src>;
          S k = v % 2 ? S(Src{v}) : S(trajopt::unexpected<Src>(Src{v}));
          X q(k);
          X p(std::move(k));
          X z = v % 3 ? X(q) : X(std::move(p));
          (void)z.or_else([&](const E& e) -> X { e.Get(); return trajopt::unexpected<E>(v); });
          (void)std::move(z).or_else([&](E&& e) -> X { E t(std::move(e)); return X(trajopt::in_place, v); });
        }
        gL->countdown = cd;
        return true;
      }
    }
    return false;
  }
  static bool Moves(int op) { return op == 1 || op == 16 || op == 18 || op == 22; }
};

template <typename T, typename E>
void LifeCase(Ctx& c, Rng& r, const char* types) {
  Ledger ledger;
  gL = &ledger;
  {
    Life<T, E> w{c, types, r};
    int steps = static_cast<int>(r.range(3, 14));
    for (int k = 0; k < steps; ++k) {
      int op = static_cast<int>(r.range(0, Life<T, E>::kOps - 1)), a = static_cast<int>(r.range(0, 2)), b = r.chance(0.15) ? a : static_cast<int>(r.range(0, 2)), v = static_cast<int>(r.range(1, 99));
      // Every throwing point of the operation in turn, then once without.
      for (int fault = 0;; ++fault) {
        std::string before[3] = {w.Snap(0), w.Snap(1), w.Snap(2)};
        bool was[3] = {w.pool.At(0).has_value(), w.pool.At(1).has_value(), w.pool.At(2).has_value()};
        w.what = (Desc{} << "operation " << op << " on objects " << a << "," << b << " (" << before[a] << " / " << before[b] << "), fault point " << fault).str();
        c.Note(w.types + " " + w.what);
        ledger.countdown = fault;
        ledger.fired = false;
        ledger.points = 0;
        bool exists = true, threw = false;
        try {
          exists = w.Do(op, a, b, v);
        } catch (const Boom&) {
          threw = true;
        }
        ledger.countdown = -1;
        if (!exists) break;
        c.Stat(threw ? "operations that threw" : "operations that completed");
        std::string key = (Desc{} << (threw ? "after-throw:" : "after:") << "op" << op).str();
        c.Distinct((Desc{} << types << op << "/" << (a == b) << "/" << was[a] << was[b] << "/" << (threw ? fault : -1)).str());
        bool fine = w.Audit(key);
        c.Check(threw == ledger.fired, "exception-swallowed", [&] { return w.types + " " + w.what; });
        if (fine && threw && w.Guarantee(op) == 1) {
          // Alternative kept, and its value too.
          c.Check(w.pool.At(a).has_value() == was[a], "alternative-lost:op" + std::to_string(op), [&] { return w.types + " " + w.what + ": now " + w.Snap(a); });
          c.Check(w.Snap(a) == before[a], "state-lost:op" + std::to_string(op), [&] { return w.types + " " + w.what + ": was " + before[a] + ", now " + w.Snap(a); });
          if (b != a && op <= 1) c.Check(w.pool.At(b).has_value() == was[b], "source-alternative-lost", [&] { return w.types + " " + w.what; });
        }
        if (!fine || !threw) break;
        if (fault > 60) { c.Viol("endless-faults", w.what); break; }
      }
      // Moved-from payloads are not interesting; start from known ones again.
      if (Life<T, E>::Moves(op))
        for (int i = 0; i < 3; ++i) w.Reset(i, r.chance(0.5), static_cast<int>(r.range(1, 99)));
    }
    w.what = "destruction";
    c.Sample(std::string{types} + " " + std::to_string(steps) + " operations, each with every fault point");
  }
  c.Check(ledger.live.empty() && ledger.bad.empty(), "not-destroyed-exactly-once", [&] { return (Desc{} << types << ": " << ledger.live.size() << " payloads alive after all objects are gone; " << (ledger.bad.empty() ? "" : ledger.bad[0])).str(); });
  c.Stat("lifetime events", static_cast<int64_t>(ledger.events));
  gL = nullptr;
}

/// Runs `f` in a child; true if the child ended by std::terminate.
static bool Terminates(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(4);
    std::set_terminate([] { _exit(42); });
    try { f(); } catch (const Boom&) { _exit(43); }
    _exit(44);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 43);
}

static void C25(Ctx& c) {
  c.rule = "a case is a sequence of 3-14 of 26 operations on three objects whose payloads record every construction, destruction and use; each operation is run with an exception injected at each of its throwing "
           "points in turn and then without; distinct by (types, operation, aliasing, alternatives held, fault point)";
  using CopyT = Pay<1, true, false>;
  using AllT = Pay<1, true, true>;
  using NoT = Pay<1, false, false>;
  using CopyE = Pay<2, true, false>;
  using AllE = Pay<2, true, true>;
  using NoE = Pay<2, false, false>;
  c.assumptions.push_back("as for std::expected, at least one of the value and the error type can be moved without throwing");
  c.Cases("faults", c.N(24000, 400000), [&](Rng& r) {
    switch (r.range(0, 6)) {
      case 0: LifeCase<CopyT, CopyE>(c, r, "<copy throws, copy throws>"); break;
      case 1: LifeCase<AllT, CopyE>(c, r, "<copy and move throw, copy throws>"); break;
      case 2: LifeCase<CopyT, AllE>(c, r, "<copy throws, copy and move throw>"); break;
      case 3: LifeCase<NoT, NoE>(c, r, "<nothrow, nothrow>"); break;
      case 4: LifeCase<void, CopyE>(c, r, "<void, copy throws>"); break;
      case 5: LifeCase<AllT, NoE>(c, r, "<copy and move throw, nothrow>"); break;
      default: LifeCase<NoT, AllE>(c, r, "<nothrow, copy and move throw>");
    }
  });
  // Active probes: constructors from another result.
  c.Cases("probes", 1, [&](Rng&) {
    Ledger l;
    gL = &l;
    auto probe = [&](const char* key, auto f) {
      c.Check(!Terminates([&] { f(); }), key, [&] { return std::string{"a throwing payload in this construction ends the program through std::terminate instead of propagating"}; });
    };
    probe("known-terminate:copy-construct-value", [&] { trajopt::expected<CopyT, CopyE> a(trajopt::in_place, 1); l.countdown = 0; auto b = a; });
    probe("known-terminate:copy-construct-error", [&] { trajopt::expected<CopyT, CopyE> a(trajopt::unexpect, 1); l.countdown = 0; auto b = a; });
    probe("known-terminate:move-construct-value", [&] { trajopt::expected<AllT, CopyE> a(trajopt::in_place, 1); l.countdown = 0; auto b = std::move(a); });
    probe("known-terminate:move-construct-error", [&] { trajopt::expected<CopyT, AllE> a(trajopt::unexpect, 1); l.countdown = 0; auto b = std::move(a); });
    probe("known-terminate:convert-construct-value", [&] { trajopt::expected<Src, Src> a(Src{1}); l.countdown = 0; trajopt::expected<CopyT, CopyE> b(a); });
    probe("known-terminate:convert-construct-error", [&] { trajopt::expected<Src, Src> a(trajopt::unexpected<Src>(Src{1})); l.countdown = 0; trajopt::expected<CopyT, CopyE> b(a); });
    gL = nullptr;
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C24", C24}, {"C25", C25}}); }

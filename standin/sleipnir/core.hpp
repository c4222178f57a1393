// Stand-in for the parts of Sleipnir that TrajoptLib uses (Sleipnir itself is
// not available offline). It is an expression recorder: decision variables and
// arithmetic build an expression graph, an OptimizationProblem keeps the cost,
// the constraints and the callback, and Solve() hands the recorded problem to
// a scripted solver which the harness installs (sleipnir::standin::SetSolver).
//
// As in Sleipnir, expressions are shared through NON-atomic reference counts,
// so that sharing expressions between threads is visible to ThreadSanitizer.
#pragma once

#include <stdint.h>

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace sleipnir {

enum class ExpressionType : uint8_t { kNone, kConstant, kLinear, kQuadratic, kNonlinear };

constexpr std::string_view ToMessage(const ExpressionType& t) {
  switch (t) {
    case ExpressionType::kNone: return "none";
    case ExpressionType::kConstant: return "constant";
    case ExpressionType::kLinear: return "linear";
    case ExpressionType::kQuadratic: return "quadratic";
    default: return "nonlinear";
  }
}

namespace standin {

enum class Op : uint8_t {
  kConst, kVar, kAdd, kSub, kMul, kDiv, kNeg, kAbs, kAcos, kAsin, kAtan, kAtan2,
  kCos, kCosh, kErf, kExp, kHypot, kLog, kLog10, kPow, kSign, kSin, kSinh, kSqrt,
  kTan, kTanh
};

struct Node {
  Op op = Op::kConst;
  double value = 0.0;
  Node* a = nullptr;
  Node* b = nullptr;
  uint32_t refs = 0;       // deliberately not atomic
  uint64_t epoch = 0;      // evaluation memo
  int64_t varId = -1;
  Node* next = nullptr;    // while being released
};

inline void Retain(Node* n) {
  if (n) ++n->refs;
}
inline void Release(Node* n) {
  // Iterative, so that long chains do not overflow the stack, and without
  // allocating, as it runs while exceptions propagate.
  if (!n || --n->refs != 0) return;
  n->next = nullptr;
  while (n) {
    Node *dead = n, *rest = n->next;
    for (Node* c : {dead->a, dead->b})
      if (c && --c->refs == 0) { c->next = rest; rest = c; }
    delete dead;
    n = rest;
  }
}

/// Smart pointer to a node.
class Ref {
 public:
  Ref() = default;
  explicit Ref(Node* n) : p{n} { Retain(p); }
  Ref(const Ref& o) : p{o.p} { Retain(p); }
  Ref(Ref&& o) noexcept : p{o.p} { o.p = nullptr; }
  Ref& operator=(const Ref& o) {
    Node* n = o.p;
    Retain(n);
    if (p) Release(p);
    p = n;
    return *this;
  }
  Ref& operator=(Ref&& o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~Ref() {
    if (p) Release(p);
  }
  Node* get() const { return p; }
  Node* operator->() const { return p; }

 private:
  Node* p = nullptr;
};

inline double Apply(Op op, double x, double y) {
  switch (op) {
    case Op::kAdd: return x + y;
    case Op::kSub: return x - y;
    case Op::kMul: return x * y;
    case Op::kDiv: return x / y;
    case Op::kNeg: return -x;
    case Op::kAbs: return std::abs(x);
    case Op::kAcos: return std::acos(x);
    case Op::kAsin: return std::asin(x);
    case Op::kAtan: return std::atan(x);
    case Op::kAtan2: return std::atan2(x, y);
    case Op::kCos: return std::cos(x);
    case Op::kCosh: return std::cosh(x);
    case Op::kErf: return std::erf(x);
    case Op::kExp: return std::exp(x);
    case Op::kHypot: return std::hypot(x, y);
    case Op::kLog: return std::log(x);
    case Op::kLog10: return std::log10(x);
    case Op::kPow: return std::pow(x, y);
    case Op::kSign: return x > 0.0 ? 1.0 : (x < 0.0 ? -1.0 : 0.0);
    case Op::kSin: return std::sin(x);
    case Op::kSinh: return std::sinh(x);
    case Op::kSqrt: return std::sqrt(x);
    case Op::kTan: return std::tan(x);
    case Op::kTanh: return std::tanh(x);
    default: return 0.0;
  }
}

inline bool IsBinary(Op op) {
  switch (op) {
    case Op::kAdd: case Op::kSub: case Op::kMul: case Op::kDiv: case Op::kAtan2:
    case Op::kHypot: case Op::kPow: return true;
    default: return false;
  }
}

inline Ref MakeConst(double v) {
  auto* n = new Node;
  n->value = v;
  return Ref{n};
}
inline Ref MakeVar(double v) {
  auto* n = new Node;
  n->op = Op::kVar;
  n->value = v;
  return Ref{n};
}
inline Ref MakeOp(Op op, const Ref& a, const Ref& b = {}) {
  auto* n = new Node;
  n->op = op;
  n->a = a.get();
  n->b = b.get();
  Retain(n->a);
  Retain(n->b);
  Ref r{n};
  n->value = Apply(op, n->a ? n->a->value : 0.0, n->b ? n->b->value : 0.0);
  return r;
}

/// A new evaluation epoch; nodes are re-evaluated once per epoch.
inline uint64_t NextEpoch() {
  static thread_local uint64_t epoch = 0;
  static thread_local uint64_t base =
      (reinterpret_cast<uintptr_t>(&epoch) >> 4) << 24;
  return base + ++epoch;
}

inline double Eval(Node* root, uint64_t epoch) {
  if (root->op == Op::kConst || root->op == Op::kVar) return root->value;
  if (root->epoch == epoch) return root->value;
  std::vector<Node*> stack{root};
  while (!stack.empty()) {
    Node* n = stack.back();
    auto ready = [&](Node* c) {
      return !c || c->op == Op::kConst || c->op == Op::kVar || c->epoch == epoch;
    };
    if (n->epoch == epoch) {
      stack.pop_back();
      continue;
    }
    bool ok = true;
    if (!ready(n->a)) { stack.push_back(n->a); ok = false; }
    if (!ready(n->b)) { stack.push_back(n->b); ok = false; }
    if (!ok) continue;
    n->value = Apply(n->op, n->a ? n->a->value : 0.0, n->b ? n->b->value : 0.0);
    n->epoch = epoch;
    stack.pop_back();
  }
  return root->value;
}

inline ExpressionType TypeOf(const Node* n) {
  using E = ExpressionType;
  switch (n->op) {
    case Op::kConst: return E::kConstant;
    case Op::kVar: return E::kLinear;
    case Op::kAdd: case Op::kSub: return std::max(TypeOf(n->a), TypeOf(n->b));
    case Op::kNeg: return TypeOf(n->a);
    case Op::kMul: {
      auto a = TypeOf(n->a), b = TypeOf(n->b);
      if (a == E::kConstant) return b;
      if (b == E::kConstant) return a;
      if (a == E::kLinear && b == E::kLinear) return E::kQuadratic;
      return E::kNonlinear;
    }
    case Op::kDiv: return TypeOf(n->b) == E::kConstant ? TypeOf(n->a) : E::kNonlinear;
    default: {
      auto a = n->a ? TypeOf(n->a) : E::kConstant;
      auto b = n->b ? TypeOf(n->b) : E::kConstant;
      return std::max(a, b) == E::kConstant ? E::kConstant : E::kNonlinear;
    }
  }
}

}  // namespace standin


/// An autodiff variable.
class Variable {
 public:
  Variable() : expr{standin::MakeConst(0.0)} {}
  Variable(double value) : expr{standin::MakeConst(value)} {}  // NOLINT
  Variable(int value) : expr{standin::MakeConst(value)} {}     // NOLINT
  explicit Variable(standin::Ref e) : expr{std::move(e)} {}

  Variable& operator=(double value) {
    expr = standin::MakeConst(value);
    return *this;
  }
  Variable& operator=(int value) {
    expr = standin::MakeConst(value);
    return *this;
  }

  Variable(const Variable&) = default;
  Variable& operator=(const Variable&) = default;
  // A moved-from Variable stays usable as 0, as Sleipnir's default one.
  Variable(Variable&& o) noexcept = default;
  Variable& operator=(Variable&&) noexcept = default;

  void SetValue(double value) {
    auto* n = expr.get();
    if (n->op == standin::Op::kConst || n->op == standin::Op::kVar) n->value = value;
  }
  double Value() { return standin::Eval(expr.get(), standin::NextEpoch()); }
  double Value() const { return standin::Eval(expr.get(), standin::NextEpoch()); }
  ExpressionType Type() const { return standin::TypeOf(expr.get()); }

  friend Variable operator*(const Variable& l, const Variable& r) { return Bin(standin::Op::kMul, l, r); }
  friend Variable operator/(const Variable& l, const Variable& r) { return Bin(standin::Op::kDiv, l, r); }
  friend Variable operator+(const Variable& l, const Variable& r) { return Bin(standin::Op::kAdd, l, r); }
  friend Variable operator-(const Variable& l, const Variable& r) { return Bin(standin::Op::kSub, l, r); }
  friend Variable operator-(const Variable& l) { return Variable{standin::MakeOp(standin::Op::kNeg, l.expr)}; }
  friend Variable operator+(const Variable& l) { return l; }
  Variable& operator*=(const Variable& r) { return *this = *this * r; }
  Variable& operator/=(const Variable& r) { return *this = *this / r; }
  Variable& operator+=(const Variable& r) { return *this = *this + r; }
  Variable& operator-=(const Variable& r) { return *this = *this - r; }

  static Variable Bin(standin::Op op, const Variable& l, const Variable& r) {
    return Variable{standin::MakeOp(op, l.expr, r.expr)};
  }
  static Variable Un(standin::Op op, const Variable& l) {
    return Variable{standin::MakeOp(op, l.expr)};
  }

  standin::Ref expr;
};

#define STANDIN_UNARY(name, OP) \
  inline Variable name(const Variable& x) { return Variable::Un(standin::Op::OP, x); }
STANDIN_UNARY(abs, kAbs)
STANDIN_UNARY(acos, kAcos)
STANDIN_UNARY(asin, kAsin)
STANDIN_UNARY(atan, kAtan)
STANDIN_UNARY(cos, kCos)
STANDIN_UNARY(cosh, kCosh)
STANDIN_UNARY(erf, kErf)
STANDIN_UNARY(exp, kExp)
STANDIN_UNARY(log, kLog)
STANDIN_UNARY(log10, kLog10)
STANDIN_UNARY(sign, kSign)
STANDIN_UNARY(sin, kSin)
STANDIN_UNARY(sinh, kSinh)
STANDIN_UNARY(sqrt, kSqrt)
STANDIN_UNARY(tan, kTan)
STANDIN_UNARY(tanh, kTanh)
#undef STANDIN_UNARY
#define STANDIN_BINARY(name, OP)                                                                                  \
  inline Variable name(const Variable& x, const Variable& y) { return Variable::Bin(standin::Op::OP, x, y); }     \
  inline Variable name(const Variable& x, double y) { return Variable::Bin(standin::Op::OP, x, Variable{y}); }    \
  inline Variable name(double x, const Variable& y) { return Variable::Bin(standin::Op::OP, Variable{x}, y); }
STANDIN_BINARY(atan2, kAtan2)
STANDIN_BINARY(hypot, kHypot)
STANDIN_BINARY(pow, kPow)
#undef STANDIN_BINARY
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}

/// A dense matrix of variables.
class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix(rows, 1) {}
  VariableMatrix(int rows, int cols) : r{rows}, c{cols}, v(static_cast<size_t>(rows) * cols) {}
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list) {  // NOLINT
    r = static_cast<int>(list.size());
    for (auto& row : list) {
      c = static_cast<int>(row.size());
      for (auto& e : row) v.push_back(e);
    }
    assert(static_cast<int>(v.size()) == r * c);
  }
  VariableMatrix(const std::vector<std::vector<double>>& list) { FromRows(list); }    // NOLINT
  VariableMatrix(const std::vector<std::vector<Variable>>& list) { FromRows(list); }  // NOLINT
  VariableMatrix(const Variable& x) : r{1}, c{1}, v{x} {}                             // NOLINT

  int Rows() const { return r; }
  int Cols() const { return c; }
  Variable& operator()(int row, int col) { return v.at(static_cast<size_t>(row) * c + col); }
  const Variable& operator()(int row, int col) const { return v.at(static_cast<size_t>(row) * c + col); }
  Variable& operator()(int row) { return v.at(row); }
  const Variable& operator()(int row) const { return v.at(row); }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  size_t size() const { return v.size(); }
  double Value(int row, int col) { return (*this)(row, col).Value(); }
  double Value(int row) { return (*this)(row).Value(); }

  VariableMatrix T() const {
    VariableMatrix m{c, r};
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) m(j, i) = (*this)(i, j);
    return m;
  }
  static VariableMatrix Zero(int rows, int cols) { return {rows, cols}; }
  static VariableMatrix Ones(int rows, int cols) {
    VariableMatrix m{rows, cols};
    for (auto& e : m.v) e = Variable{1.0};
    return m;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, const VariableMatrix& b) {
    assert(a.c == b.r);
    VariableMatrix m{a.r, b.c};
    for (int i = 0; i < a.r; ++i)
      for (int j = 0; j < b.c; ++j) {
        Variable s = 0.0;
        for (int k = 0; k < a.c; ++k) s += a(i, k) * b(k, j);
        m(i, j) = s;
      }
    return m;
  }
  friend VariableMatrix operator*(const VariableMatrix& a, const Variable& s) { return Map(a, [&](auto& x) { return x * s; }); }
  friend VariableMatrix operator*(const Variable& s, const VariableMatrix& a) { return Map(a, [&](auto& x) { return s * x; }); }
  friend VariableMatrix operator*(const VariableMatrix& a, double s) { return Map(a, [&](auto& x) { return x * s; }); }
  friend VariableMatrix operator*(double s, const VariableMatrix& a) { return Map(a, [&](auto& x) { return s * x; }); }
  friend VariableMatrix operator/(const VariableMatrix& a, const Variable& s) { return Map(a, [&](auto& x) { return x / s; }); }
  friend VariableMatrix operator/(const VariableMatrix& a, double s) { return Map(a, [&](auto& x) { return x / s; }); }
  friend VariableMatrix operator+(const VariableMatrix& a, const VariableMatrix& b) { return Zip(a, b, [](auto& x, auto& y) { return x + y; }); }
  friend VariableMatrix operator-(const VariableMatrix& a, const VariableMatrix& b) { return Zip(a, b, [](auto& x, auto& y) { return x - y; }); }
  friend VariableMatrix operator-(const VariableMatrix& a) { return Map(a, [](auto& x) { return -x; }); }
  VariableMatrix& operator+=(const VariableMatrix& o) { return *this = *this + o; }
  VariableMatrix& operator-=(const VariableMatrix& o) { return *this = *this - o; }

 private:
  int r = 0, c = 0;
  std::vector<Variable> v;
  template <typename L>
  void FromRows(const L& list) {
    r = static_cast<int>(list.size());
    for (auto& row : list) {
      c = static_cast<int>(row.size());
      for (auto& e : row) v.push_back(Variable{e});
    }
  }
  template <typename F>
  static VariableMatrix Map(const VariableMatrix& a, F f) {
    VariableMatrix m{a.r, a.c};
    for (size_t i = 0; i < a.v.size(); ++i) m.v[i] = f(a.v[i]);
    return m;
  }
  template <typename F>
  static VariableMatrix Zip(const VariableMatrix& a, const VariableMatrix& b, F f) {
    assert(a.r == b.r && a.c == b.c);
    VariableMatrix m{a.r, a.c};
    for (size_t i = 0; i < a.v.size(); ++i) m.v[i] = f(a.v[i], b.v[i]);
    return m;
  }
};

template <typename T>
concept ScalarLike = std::same_as<std::decay_t<T>, double> || std::same_as<std::decay_t<T>, int> ||
                     std::same_as<std::decay_t<T>, float> || std::same_as<std::decay_t<T>, Variable> ||
                     std::integral<std::decay_t<T>>;
template <typename T>
concept MatrixLike = std::same_as<std::decay_t<T>, VariableMatrix>;
template <typename T>
concept SleipnirLike = std::same_as<std::decay_t<T>, Variable> || MatrixLike<T>;

namespace standin {
template <typename T>
Variable ToVar(const T& x) {
  if constexpr (std::same_as<T, Variable>) return x;
  else return Variable{static_cast<double>(x)};
}
/// lhs - rhs, elementwise.
template <typename L, typename R>
std::vector<Variable> MakeConstraints(const L& lhs, const R& rhs) {
  std::vector<Variable> out;
  if constexpr (MatrixLike<L> && MatrixLike<R>) {
    assert(lhs.Rows() == rhs.Rows() && lhs.Cols() == rhs.Cols());
    for (size_t i = 0; i < lhs.size(); ++i) out.push_back(*(lhs.begin() + i) - *(rhs.begin() + i));
  } else if constexpr (MatrixLike<L>) {
    for (auto& e : lhs) out.push_back(e - ToVar(rhs));
  } else if constexpr (MatrixLike<R>) {
    for (auto& e : rhs) out.push_back(ToVar(lhs) - e);
  } else {
    out.push_back(ToVar(lhs) - ToVar(rhs));
  }
  return out;
}
}  // namespace standin

/// Constraints of the form c(x) = 0.
struct EqualityConstraints {
  std::vector<Variable> constraints;
  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {  // NOLINT
    for (auto& e : list) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (auto& e : list) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  template <typename L, typename R>
    requires(ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>)
  EqualityConstraints(L&& lhs, R&& rhs)
      : constraints{standin::MakeConstraints<std::decay_t<L>, std::decay_t<R>>(lhs, rhs)} {}
  explicit operator bool() {
    return std::all_of(constraints.begin(), constraints.end(), [](auto& c) { return c.Value() == 0.0; });
  }
};

/// Constraints of the form c(x) >= 0.
struct InequalityConstraints {
  std::vector<Variable> constraints;
  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {  // NOLINT
    for (auto& e : list) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& list) {
    for (auto& e : list) constraints.insert(constraints.end(), e.constraints.begin(), e.constraints.end());
  }
  template <typename L, typename R>
    requires(ScalarLike<L> || MatrixLike<L>) && (ScalarLike<R> || MatrixLike<R>)
  InequalityConstraints(L&& lhs, R&& rhs)
      : constraints{standin::MakeConstraints<std::decay_t<L>, std::decay_t<R>>(lhs, rhs)} {}
  explicit operator bool() {
    return std::all_of(constraints.begin(), constraints.end(), [](auto& c) { return c.Value() >= 0.0; });
  }
};

template <typename L, typename R>
  requires(SleipnirLike<L> && (ScalarLike<R> || MatrixLike<R>)) || (ScalarLike<L> && SleipnirLike<R>)
EqualityConstraints operator==(L&& lhs, R&& rhs) {
  return EqualityConstraints(lhs, rhs);
}
template <typename L, typename R>
  requires(SleipnirLike<L> && (ScalarLike<R> || MatrixLike<R>)) || (ScalarLike<L> && SleipnirLike<R>)
InequalityConstraints operator>=(L&& lhs, R&& rhs) {
  return InequalityConstraints(lhs, rhs);
}
template <typename L, typename R>
  requires(SleipnirLike<L> && (ScalarLike<R> || MatrixLike<R>)) || (ScalarLike<L> && SleipnirLike<R>)
InequalityConstraints operator>(L&& lhs, R&& rhs) {
  return InequalityConstraints(lhs, rhs);
}
template <typename L, typename R>
  requires(SleipnirLike<L> && (ScalarLike<R> || MatrixLike<R>)) || (ScalarLike<L> && SleipnirLike<R>)
InequalityConstraints operator<=(L&& lhs, R&& rhs) {
  return InequalityConstraints(rhs, lhs);
}
template <typename L, typename R>
  requires(SleipnirLike<L> && (ScalarLike<R> || MatrixLike<R>)) || (ScalarLike<L> && SleipnirLike<R>)
InequalityConstraints operator<(L&& lhs, R&& rhs) {
  return InequalityConstraints(rhs, lhs);
}

enum class SolverExitCondition : int8_t {
  kSuccess = 0,
  kSolvedToAcceptableTolerance = 1,
  kCallbackRequestedStop = 2,
  kTooFewDOFs = -1,
  kLocallyInfeasible = -2,
  kFeasibilityRestorationFailed = -3,
  kNonfiniteInitialCostOrConstraints = -4,
  kDivergingIterates = -5,
  kMaxIterationsExceeded = -6,
  kTimeout = -7
};

constexpr std::string_view ToMessage(const SolverExitCondition& c) {
  using enum SolverExitCondition;
  switch (c) {
    case kSuccess: return "solved to desired tolerance";
    case kSolvedToAcceptableTolerance: return "solved to acceptable tolerance";
    case kCallbackRequestedStop: return "callback requested stop";
    case kTooFewDOFs: return "problem has too few degrees of freedom";
    case kLocallyInfeasible: return "problem is locally infeasible";
    case kFeasibilityRestorationFailed: return "feasibility restoration failed to converge";
    case kNonfiniteInitialCostOrConstraints: return "nonfinite initial cost or constraints";
    case kDivergingIterates: return "primal iterates diverged";
    case kMaxIterationsExceeded: return "solution returned after maximum iterations exceeded";
    case kTimeout: return "solution returned after maximum wall clock time exceeded";
    default: return "unknown";
  }
}

struct SolverStatus {
  ExpressionType costFunctionType = ExpressionType::kNone;
  ExpressionType equalityConstraintType = ExpressionType::kNone;
  ExpressionType inequalityConstraintType = ExpressionType::kNone;
  SolverExitCondition exitCondition = SolverExitCondition::kSuccess;
  double cost = 0.0;
};

struct SolverConfig {
  double tolerance = 1e-8;
  int maxIterations = 5000;
  double acceptableTolerance = 1e-6;
  int maxAcceptableIterations = 15;
  std::chrono::duration<double> timeout{std::numeric_limits<double>::infinity()};
  bool feasibleIPM = false;
  bool diagnostics = false;
  bool spy = false;
};

/// What Sleipnir passes to the callback. The real one refers to Eigen vectors
/// and sparse matrices; spans and empty stand-ins serve here.
struct SolverIterationInfo {
  int iteration = 0;
  std::span<const double> x;
  std::span<const double> s;
};

class OptimizationProblem;
namespace standin {
/// The scripted solver: may assign decision variables, call problem.Iterate().
using Solver = std::function<SolverStatus(OptimizationProblem&, const SolverConfig&)>;
inline Solver& ThreadSolver() {
  static thread_local Solver s;
  return s;
}
}  // namespace standin

class OptimizationProblem {
 public:
  OptimizationProblem() noexcept = default;

  [[nodiscard]] Variable DecisionVariable() {
    Variable v{standin::MakeVar(0.0)};
    v.expr->varId = static_cast<int64_t>(decisionVariables.size());
    decisionVariables.push_back(v);
    return v;
  }
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1) {
    VariableMatrix m{rows, cols};
    for (auto& e : m) e = DecisionVariable();
    return m;
  }
  [[nodiscard]] VariableMatrix SymmetricDecisionVariable(int rows) {
    VariableMatrix m{rows, rows};
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = DecisionVariable();
    return m;
  }
  void Minimize(const Variable& cost) { f = cost; maximize = false; }
  void Minimize(Variable&& cost) { f = std::move(cost); maximize = false; }
  void Maximize(const Variable& objective) { f = -objective; maximize = false; }
  void Maximize(Variable&& objective) { f = -objective; maximize = false; }
  void SubjectTo(const EqualityConstraints& c) {
    equalityConstraints.insert(equalityConstraints.end(), c.constraints.begin(), c.constraints.end());
  }
  void SubjectTo(const InequalityConstraints& c) {
    inequalityConstraints.insert(inequalityConstraints.end(), c.constraints.begin(), c.constraints.end());
  }
  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    auto solver = standin::ThreadSolver();
    if (!solver) return SolverStatus{};
    return solver(*this, config);
  }
  template <typename F>
    requires std::is_invocable_v<F, const SolverIterationInfo&>
  void Callback(F&& cb) {
    using R = std::invoke_result_t<F, const SolverIterationInfo&>;
    if constexpr (std::is_void_v<R>) {
      callback = [cb = std::forward<F>(cb)](const SolverIterationInfo& i) mutable { cb(i); return false; };
    } else {
      callback = [cb = std::forward<F>(cb)](const SolverIterationInfo& i) mutable -> bool { return cb(i); };
    }
  }

  // ---- harness access ----
  /// Reports one solver iteration; true if the callback asked to stop.
  bool Iterate(int iteration) {
    if (!callback) return false;
    SolverIterationInfo info;
    info.iteration = iteration;
    return callback(info);
  }
  std::vector<Variable> decisionVariables;
  std::optional<Variable> f;
  bool maximize = false;
  std::vector<Variable> equalityConstraints;
  std::vector<Variable> inequalityConstraints;
  std::function<bool(const SolverIterationInfo&)> callback;
};

}  // namespace sleipnir

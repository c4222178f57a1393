GEN = "src/SwerveTrajectoryGenerator.cpp"
PB = "src/path/SwervePathBuilder.cpp"
EXP = "include/trajopt/util/expected"
FFI = "src/RustFFI.cpp"
GUESS = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
G = "include/trajopt/geometry/"
bug("C24-reversed-inequality", prop="C24", kind="header",
    needs="comparing a plain value, on the left, with a result that holds an error",
    breaks="value != result says they are equal when the result holds an error",
    edits=[(EXP, """constexpr bool operator!=(const U& v, const expected<T, E>& x) {
  return x.has_value() ? *x != v : true;""", """constexpr bool operator!=(const U& v, const expected<T, E>& x) {
  return x.has_value() && *x != v;""")],
    demo=r'''
#include <trajopt/util/expected>
#include <string>
int main() {
  trajopt::expected<int, std::string> a{3}, e{trajopt::unexpect, "no"};
  if (3 != a || !(4 != a) || !(3 != e) || !(e != 3)) return 1;
}
''')
bug("C24-moved-value-or", prop="C24", kind="header",
    needs="value_or on an lvalue result, then looking at the result again",
    breaks="value_or moves the value out of a result it should only copy from",
    edits=[(EXP, """  template <class U>
  constexpr T value_or(U&& v) const& {
    static_assert(std::is_copy_constructible<T>::value &&
                      std::is_convertible<U&&, T>::value,
                  "T must be copy-constructible and convertible to from U&&");
    return static_cast<bool>(*this) ? **this""", """  template <class U>
  constexpr T value_or(U&& v) & {
    static_assert(std::is_convertible<U&&, T>::value,
                  "T must be convertible to from U&&");
    return static_cast<bool>(*this) ? std::move(**this)
                                    : static_cast<T>(std::forward<U>(v));
  }
  template <class U>
  constexpr T value_or(U&& v) const& {
    static_assert(std::is_copy_constructible<T>::value &&
                      std::is_convertible<U&&, T>::value,
                  "T must be copy-constructible and convertible to from U&&");
    return static_cast<bool>(*this) ? **this""")],
    demo=r'''
#include <trajopt/util/expected>
#include <string>
int main() {
  trajopt::expected<std::string, int> a{std::string(50, 'x')};
  if (a.value_or("y") != std::string(50, 'x')) return 1;
  if (a.value() != std::string(50, 'x')) return 2;
}
''')
bug("C25-swap-unrestored", prop="C25", kind="header", flags="-O1 -fsanitize=address",
    needs="a value whose move throws while a value and an error are swapped",
    breaks="the error destroyed before the failed move is not put back",
    edits=[(EXP, """    } catch (...) {
      ::new (rhs.errptr()) unexpected_type(std::move(temp));
      throw;
    }""", """    } catch (...) {
      throw;
    }""")],
    demo=r'''
#include <trajopt/util/expected>
#include <string>
#include <stdexcept>
static bool boom;
struct V {
  V() = default;
  V(const V&) = default;
  V(V&&) noexcept(false) { if (boom) throw std::runtime_error("move"); }
  V& operator=(const V&) = default;
  V& operator=(V&&) = default;
};
struct Err {
  static inline int alive = 0;
  explicit Err(int) { ++alive; }
  Err(const Err&) { ++alive; }
  Err(Err&&) noexcept { ++alive; }
  Err& operator=(const Err&) = default;
  Err& operator=(Err&&) noexcept = default;
  ~Err() { --alive; }
};
int main() {
  int alive = 0;
  {
    trajopt::expected<V, Err> a, b{trajopt::unexpect, 1};
    boom = true;
    try { a.swap(b); } catch (const std::runtime_error&) {}
    boom = false;
    alive = Err::alive;
    if (a.has_value() == b.has_value()) return 2;
  }
  return alive == 1 && Err::alive == 0 ? 0 : 1;
}
''')
bug("C26-arc-cosine", prop="C26",
    needs="a rotation by a negative angle",
    breaks="angles are recovered from the cosine and lose their sign beyond a quarter turn",
    edits=[(G + "Rotation2.hpp", "  constexpr T Radians() const { return atan2(m_sin, m_cos); }  // NOLINT",
            "  constexpr T Radians() const {\n    if (m_cos * m_cos < 0.5) {\n      return atan2(m_sin, m_cos);  // NOLINT\n    }\n    auto angle = asin(m_sin);  // NOLINT\n    if constexpr (std::same_as<T, double>) {\n      if (m_cos < 0.0) {\n        return std::numbers::pi - angle;\n      }\n    }\n    return angle;\n  }")],
    kind="header", demo=r'''
#include "demo.hpp"
int main() {
  for (double a = -3.1; a < 3.1; a += 0.1) REQUIRE(Close(Rotation2d{a}.Radians(), a));
}
''')
bug("C27-early-value", prop="C27",
    needs="changing a decision variable after the expression was built",
    breaks="dividing a symbolic translation freezes the divisor's value at the time of division",
    edits=[(G + "Translation2.hpp", """    return Translation2<R>{m_x / scalar, m_y / scalar};""", """    if constexpr (std::same_as<U, sleipnir::Variable>) {
      // A variable which may be zero has no reciprocal expression
      auto divisor = scalar;
      const double value = divisor.Value();
      return Translation2<R>{m_x / value, m_y / value};
    } else {
      return Translation2<R>{m_x / scalar, m_y / scalar};
    }""")],
    demo=r'''
#include "demo.hpp"
int main() {
  sleipnir::OptimizationProblem p;
  auto x = p.DecisionVariable(), y = p.DecisionVariable(), d = p.DecisionVariable();
  x.SetValue(3); y.SetValue(4); d.SetValue(2);
  Translation2v t{x, y};
  auto q = t / d;
  auto qx = q.X();
  REQUIRE(Close(qx.Value(), 1.5));
  d.SetValue(4);
  auto qx2 = q.X();
  REQUIRE(Close(qx2.Value(), 0.75));
}
''')
bug("C28-short-y", prop="C28", kind="ffi",
    needs="a polygon obstacle with more y than x coordinates",
    breaks="polygons with surplus y coordinates are truncated and applied instead of ignored",
    edits=[(FFI, "  if (x.size() != y.size()) [[unlikely]] {", "  if (x.size() > y.size()) [[unlikely]] {")],
    demo=r'''
#include "demo.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
int main() {
  size_t n[3];
  for (int k = 0; k < 3; ++k) {
    auto b = rsffi::swerve_path_builder_new();
    b->set_bumpers(1, 1);
    b->pose_wpt(0, 0, 0, 0);
    b->pose_wpt(1, 5, 0, 0);
    rust::Vec<double> x, y;
    for (double v : {1.0, 2.0, 2.0}) x.push_back(v);
    for (double v : {1.0, 1.0, 2.0}) y.push_back(v);
    if (k == 1) y.push_back(7);
    if (k == 2) x.push_back(7);
    b->sgmt_polygon_obstacle(0, 1, x, y, 0.1);
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) { n[k] = p.inequalityConstraints.size(); return rec::Status(rec::SolverExitCondition::kSuccess); }};
    (void)b->generate(false, 0);
  }
  REQUIRE(n[1] == n[2]);
  REQUIRE(n[0] > n[1]);
}
''')
bug("C29-four-forces", prop="C29", kind="ffi",
    needs="a drivetrain with more than four modules and a progress report",
    breaks="progress reports carry the y forces of at most four modules",
    edits=[(FFI, """          std::copy(cppSample.moduleForcesY.begin(),
                    cppSample.moduleForcesY.end(), std::back_inserter(fy));""",
            """          std::copy_n(cppSample.moduleForcesY.begin(),
                      std::min<size_t>(cppSample.moduleForcesY.size(), 4),
                      std::back_inserter(fy));""")],
    demo=r'''
#include "demo.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
#include <thread>
static size_t nx = 0, ny = 0;
static void Report(rsffi::HolonomicTrajectory t, int64_t) { nx = t.samples[1].module_forces_x.size(); ny = t.samples[1].module_forces_y.size(); }
int main() {
  for (size_t m : {4, 6}) {
    auto b = rsffi::swerve_path_builder_new();
    rsffi::SwerveDrivetrain d;
    d.mass = 45;
    d.moi = 6;
    for (size_t i = 0; i < m; ++i) { rsffi::SwerveModule q; q.x = 0.1 * i; q.y = -0.2 * i; q.wheel_radius = 0.05; q.wheel_max_angular_velocity = 70; q.wheel_max_torque = 2; d.modules.push_back(q); }
    b->set_drivetrain(d);
    b->pose_wpt(0, 0, 0, 0);
    b->pose_wpt(1, 5, 0, 0);
    b->add_progress_callback(Report);
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      std::this_thread::sleep_for(std::chrono::milliseconds(40));
      p.Iterate(0);
      return rec::Status(rec::SolverExitCondition::kSuccess); }};
    (void)b->generate(false, 0);
    REQUIRE(nx == m);
    REQUIRE(ny == m);
  }
}
''')
bug("C31-short-steps", prop="C31",
    needs="bounds-checked containers or a sanitizer; any path",
    breaks="the guess has one time step per interval while it is read once per sample, so the last one is read out of bounds",
    edits=[(GUESS, "  for (size_t i = 0; i < sampTot; i++) {", "  for (size_t i = 1; i < sampTot; i++) {")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({5});
  SwerveTrajectoryGenerator g{b};
  REQUIRE(g.Generate().has_value());
}
''')
bug("C31-guess-dangling", prop="C31", flags="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all",
    needs="an empty list of guess points for the end of the path",
    breaks="a reference to a segment's guess list is kept across a reallocation, and the path grows by a waypoint",
    edits=[(PB, """  NewWpts(fromIndex + 1);
  std::vector<Pose2d>& toInitialGuessPoints =
      initialGuessPoints.at(fromIndex + 1);
""", """  if (fromIndex + 1 >= initialGuessPoints.size()) {
    NewWpts(fromIndex + 1);
  }
  std::vector<Pose2d>& toInitialGuessPoints =
      initialGuessPoints.at(fromIndex + 1);
  // Guesses describe the middle of the path, so make sure it has an end
  NewWpts(fromIndex + 1 + (sgmtPoseGuess.empty() ? 1 : 0));
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  for (size_t from = 0; from < 40; ++from) {
    SwervePathBuilder b;
    b.PoseWpt(0, 0, 0, 0);
    b.SgmtInitialGuessPoints(from, {});
    REQUIRE(b.GetPath().waypoints.size() == from + 2);
    REQUIRE(b.CalculateInitialGuess().x.size() == 1 + 40 * (from + 1));
  }
}
''')
bug("C32-surplus-counts", prop="C32", flags="-O1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=all",
    needs="more interval counts than segments",
    breaks="the guess of a segment which has no waypoint is read past the end of the guess list instead of raising",
    edits=[(GUESS, "    size_t guessPointCount = initialGuessPoints.at(wptIndex).size();", "    size_t guessPointCount = initialGuessPoints[wptIndex].size();")],
    demo=r'''
#undef _GLIBCXX_ASSERTIONS
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({3, 3, 3, 3, 3});
  bool threw = false;
  try { (void)b.CalculateInitialGuess(); } catch (const std::exception&) { threw = true; }
  REQUIRE(threw);
}
''')

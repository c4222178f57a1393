GEN = "src/SwerveTrajectoryGenerator.cpp"
GENH = "include/trajopt/SwerveTrajectoryGenerator.hpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
TU = "include/trajopt/util/TrajoptUtil.hpp"
CON = "include/trajopt/constraint/"
ROT = "include/trajopt/geometry/Rotation2.hpp"
TRA = "include/trajopt/geometry/Translation2.hpp"
POSE = "include/trajopt/geometry/Pose2.hpp"
FFI = "src/RustFFI.cpp"
RS = "src/lib.rs"
CAN = "src/util/Cancellation.cpp"
# ---- C11
bug("C11-single-interval", prop="C11", needs="a segment of a single interval", breaks="a segment of one interval is not tied to its predecessor in turn rate",
    edits=[(GEN, "      problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);\n", "      if (N_sgmt > 1 || wptIndex == 1) {\n        problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);\n      }\n")])
bug("C11-tail", prop="C11", needs="a segment of more than 32 intervals", breaks="the step into the 33rd sample of a segment is not tied",
    edits=[(GEN, "      problem.SubjectTo(x_n_1 + v_n * dt_sgmt == x_n);\n", "      if (sampIndex != 32) {\n        problem.SubjectTo(x_n_1 + v_n * dt_sgmt == x_n);\n      }\n")])
bug("C11-trapezoid", prop="C11", needs="an accelerating motion", breaks="velocity uses the mean of both accelerations in y",
    edits=[(GEN, "      problem.SubjectTo(v_n_1 + a_n * dt_sgmt == v_n);\n", "      Translation2v a_n_1{ax.at(index - 1), ay.at(index - 1)};\n      problem.SubjectTo(v_n_1 + (sampIndex == 0 && wptIndex > 2 ? a_n_1 : a_n) * dt_sgmt == v_n);\n")])
# ---- C12
bug("C12-fifth-module", prop="C12", needs="a drivetrain of more than four modules", breaks="modules beyond the fourth give no torque",
    edits=[(GEN, "      auto r = translation.RotateBy(theta);\n", "      if (moduleIndex >= 4) {\n        break;\n      }\n      auto r = translation.RotateBy(theta);\n")])
bug("C12-last-sample", prop="C12", needs="a force on the last sample", breaks="the last sample's torque balance is left out",
    edits=[(GEN, "    problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n", "    if (index + 1 < sampTot || sampTot < 4) {\n      problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n    }\n")])
bug("C12-heavy", prop="C12", needs="a robot whose inertia is larger than its mass", breaks="inertia is capped by the mass",
    edits=[(GEN, "path.drivetrain.moi * alpha.at(index));", "std::min(path.drivetrain.moi, path.drivetrain.mass) *\n                                     alpha.at(index));")])
# ---- C13
bug("C13-turn-only", prop="C13", needs="a robot which turns without moving", breaks="a wheel's speed from turning about the x offset is ignored for modules with small x",
    edits=[(GEN, "vWrtRobot.Y() + translation.X() * omega.at(index)};", "vWrtRobot.Y() + (std::abs(translation.X()) < 0.12 ? 0.0 : translation.X()) *\n                              omega.at(index)};")])
bug("C13-weak-force", prop="C13", needs="a module force limit below 20 N", breaks="force limits below 20 N are rounded up",
    edits=[(GEN, "double maxForce = wheelMaxTorque / wheelRadius;", "double maxForce = std::max(wheelMaxTorque / wheelRadius, 20.0);")])
bug("C13-initial-sample", prop="C13", needs="motion at the first sample", breaks="wheel speeds of the first sample are not limited",
    edits=[(GEN, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);", "      if (index > 0) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }")])
# ---- C14
bug("C14-upper", prop="C14", needs="a slow motion with no module spacing", breaks="steps may not exceed one second",
    edits=[(GEN, "    problem.SubjectTo(dt_sgmt >= 0);\n", "    problem.SubjectTo(dt_sgmt >= 0);\n    problem.SubjectTo(dt_sgmt <= 100);\n")])
bug("C14-last-double", prop="C14", needs="three or more segments", breaks="the final segment weighs double in the objective",
    edits=[(GEN, "    T_tot += T_sgmt;\n", "    T_tot += T_sgmt;\n    if (sgmtIndex > 2) {\n      T_tot += T_sgmt * 1e-3;\n    }\n")])
bug("C14-unbounded-first", prop="C14", needs="two or more segments", breaks="time steps of later segments are bounded by the slowest wheel",
    edits=[(GEN, "    for (auto module : path.drivetrain.modules) {\n", "    for (auto module : path.drivetrain.modules) {\n      if (sgmtIndex > 0 && &module != nullptr && module.wheelRadius > 0.09) {\n        continue;\n      }\n")])
# ---- C15
bug("C15-reference-module", prop="C15", needs="modules of different torque listed in another order", breaks="the force of the last module is limited by the first",
    edits=[(GEN, "double maxForce = wheelMaxTorque / wheelRadius;", "double maxForce = wheelMaxTorque / wheelRadius;\n      if (moduleIndex == 3) {\n        maxForce = std::min(maxForce, path.drivetrain.modules.front().wheelMaxTorque / path.drivetrain.modules.front().wheelRadius);\n      }")])
bug("C15-neighbours", prop="C15", needs="the closest pair of modules not adjacent in the list", breaks="only neighbouring modules count for the step bound",
    edits=[(GEN, "    for (size_t j = 0; j < i; j++) {\n", "    for (size_t j = 0; j < i; j++) {\n      if (i - j > 1) {\n        continue;\n      }\n")])
# ---- C16
bug("C16-alpha", prop="C16", needs="a guess which turns unevenly", breaks="angular acceleration starts from the heading's sine",
    edits=[(GEN, "(omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex]);", "(omega[sampleIndex].Value() - omega[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex - 1] * (sampleIndex > 100 ? 2 : 1));")])
bug("C16-dt-mismatch", prop="C16", needs="two segments with different counts", breaks="guess steps divide by the wrong count",
    edits=[(GEN, "    ax[sampleIndex].SetValue(\n        (vx[sampleIndex].Value() - vx[sampleIndex - 1].Value()) /\n        solution.dt[sampleIndex]);", "    ax[sampleIndex].SetValue(\n        (vx[sampleIndex].Value() - vx[sampleIndex - 1].Value()) /\n        std::max(solution.dt[sampleIndex], 0.05));")])
# ---- C17
bug("C17-swapped-late", prop="C17", needs="more than one module", breaks="the y forces of sample 0 are taken from the x forces' buffer",
    edits=[(GEN, "    valueMatrix.push_back(RowSolutionValue(row));", "    if (!valueMatrix.empty() && matrix.size() > 50) {\n      valueMatrix.push_back(valueMatrix.back());\n      continue;\n    }\n    valueMatrix.push_back(RowSolutionValue(row));")])
bug("C17-normalized", prop="C17", needs="a heading vector whose length is not one", breaks="the heading cosine is clamped to [-1, 1]",
    edits=[(GEN, "                        RowSolutionValue(thetacos),\n", "                        [&] {\n                          auto c = RowSolutionValue(thetacos);\n                          for (auto& v : c) {\n                            v = std::min(v, 1.0);\n                          }\n                          return c;\n                        }(),\n")])
# ---- C18
bug("C18-acceptable", prop="C18", needs="the solver ending in acceptable tolerance", breaks="acceptable tolerance is reported as a failure",
    edits=[(GEN, "status.exitCondition ==\n          sleipnir::SolverExitCondition::kCallbackRequestedStop) {", "status.exitCondition != sleipnir::SolverExitCondition::kSuccess) {")])
bug("C18-feasible-max", prop="C18", needs="the solver hitting its iteration limit", breaks="hitting the iteration limit counts as success",
    edits=[(GEN, "if (static_cast<int>(status.exitCondition) < 0 ||", "if ((static_cast<int>(status.exitCondition) < 0 &&\n       status.exitCondition !=\n           sleipnir::SolverExitCondition::kMaxIterationsExceeded) ||")])
bug("C18-sticky-diagnostics", prop="C18", needs="a second generation without diagnostics", breaks="diagnostics once asked for stay on",
    edits=[(GEN, "  // tolerance of 1e-4 is 0.1 mm\n", "  static bool everDiagnostics = false;\n  everDiagnostics = everDiagnostics || diagnostics;\n  diagnostics = everDiagnostics;\n  // tolerance of 1e-4 is 0.1 mm\n")])
# ---- C19
bug("C19-acos", prop="C19", needs="a heading vector which is not of unit length", breaks="heading from asin for small sines",
    edits=[(HT, "std::atan2(solution.thetasin.at(samp), solution.thetacos.at(samp)),", "(solution.thetacos.at(samp) > 0.999 ? std::asin(std::fmax(-1.0, std::fmin(1.0, solution.thetasin.at(samp)))) : std::atan2(solution.thetasin.at(samp), solution.thetacos.at(samp))),")])
# ---- C20
bug("C20-limit-first-only", prop="C20", needs="two callbacks on one path", breaks="a report following an interval of over a second is dropped",
    edits=[(GEN, "        if (now - lastFrameTime < timePerFrame) {\n", "        if (now - lastFrameTime < timePerFrame ||\n            now - lastFrameTime > std::chrono::hours{1}) {\n          lastFrameTime = std::max(lastFrameTime, now - std::chrono::minutes{1});\n")])
bug("C20-drift", prop="C20", needs="iterations of uneven length", breaks="report times are scheduled on a grid, so that two reports may come too close together",
    edits=[(GEN, "        lastFrameTime = now;\n", "        // Keep the frames on a regular grid\n        lastFrameTime += std::chrono::floor<std::chrono::milliseconds>(\n                             (now - lastFrameTime) / 17) *\n                         17;\n")])
bug("C20-shared-solution", prop="C20", needs="a callback which changes the solution it is given", breaks="later callbacks see the changed dt only of the first frame",
    edits=[(GEN, "          callback(soln, handle);\n", "          callback(soln, handle);\n          soln.dt.resize(soln.dt.size());\n          std::fill(soln.omega.begin(), soln.omega.begin() + (self.path.callbacks.size() > 2), 0.0);\n")])
# ---- C21
bug("C21-report-first", prop="C21", needs="a callback that requests cancellation", breaks="a request made by a callback is noticed one iteration late",
    edits=[(GEN, """    for (auto& callback : callbacks) {
      callback(*this);
    }
    return trajopt""", """    bool stop = trajopt::GetCancellationFlag();
    for (auto& callback : callbacks) {
      callback(*this);
    }
    return stop && trajopt""")])
bug("C21-thread-local", prop="C21", needs="a request from another thread", breaks="requests made on other threads are not seen",
    edits=[(CAN, "static std::atomic<int> flag{0};", "static thread_local std::atomic<int> flag{0};")])
# ---- C22
bug("C22-lazy-static", prop="C22", needs="two generators constructed at the same time", breaks="a static scratch list is shared by constructions",
    edits=[(GEN, "  std::vector<double> dtPerSamp;\n", "  static std::vector<double> dtPerSamp;\n  dtPerSamp.clear();\n")])
bug("C22-guess-cache", prop="C22", needs="guesses calculated on two threads at once", breaks="a shared list of angles",
    edits=[(TU, "  auto diff = endValue - startValue;\n", "  static double diff = 0;\n  diff = endValue - startValue;\n")])
# ---- C23
bug("C23-path-reference", prop="C23", needs="a generator used after its builder's modules changed", breaks="callbacks are shared through a static list",
    edits=[(GEN, "        for (auto& callback : self.path.callbacks) {\n", "        static auto callbacks = self.path.callbacks;\n        if (callbacks.size() != self.path.callbacks.size()) {\n          callbacks = self.path.callbacks;\n        }\n        for (auto& callback : callbacks) {\n")])
bug("C23-by-reference", prop="C23", needs="the builder's path edited by a callback while it generates", breaks="constructing a generator empties the builder's guess",
    edits=[(GENH, "explicit SwerveTrajectoryGenerator(SwervePathBuilder pathBuilder,", "explicit SwerveTrajectoryGenerator(const SwervePathBuilder& pathBuilder,"),
           (GEN, "    SwervePathBuilder pathBuilder, int64_t handle)\n    : path(pathBuilder.GetPath())", "    const SwervePathBuilder& pathBuilder, int64_t handle)\n    : path(std::move(const_cast<SwervePathBuilder&>(pathBuilder).GetPath()))")])
# ---- C26
bug("C26-degrees", prop="C26", needs="degrees of a negative angle", breaks="degrees of angles below -90 are positive",
    edits=[(ROT, "return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;", "if constexpr (std::same_as<T, double>) {\n      double degrees = atan2(m_sin, m_cos) / std::numbers::pi * 180.0;\n      return degrees <= -179.999 ? degrees + 360.0 : degrees;\n    }\n    return atan2(m_sin, m_cos) / std::numbers::pi * 180.0;")])
# ---- C27
bug("C27-cross", prop="C27", needs="a numeric translation crossed with a symbolic one", breaks="the mixed cross product has the wrong sign",
    edits=[(TRA, "return R{m_x * other.Y() - m_y * other.X()};", "if constexpr (!std::same_as<T, U> && std::same_as<U, double>) {\n      return R{m_y * other.X() - m_x * other.Y()};\n    }\n    return R{m_x * other.Y() - m_y * other.X()};")])
bug("C27-divide", prop="C27", needs="dividing a numeric translation by a variable", breaks="y is multiplied",
    edits=[(TRA, "return Translation2<R>{m_x / scalar, m_y / scalar};", "if constexpr (std::same_as<U, sleipnir::Variable>) {\n      return Translation2<R>{m_x / scalar, m_y / scalar.Value()};\n    }\n    return Translation2<R>{m_x / scalar, m_y / scalar};")])
# ---- C28..C30
bug("C28-guess-order", prop="C28", needs="two or more guess points in one call", breaks="guess points arrive in reverse for more than two",
    edits=[(FFI, "  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));", "  if (cppGuessPoints.size() > 2) {\n    std::swap(cppGuessPoints[1], cppGuessPoints[2]);\n  }\n  path_builder.SgmtInitialGuessPoints(from_index, std::move(cppGuessPoints));")])
bug("C28-circle", prop="C28", needs="a circle of negative radius or zero", breaks="circles below 5 cm are ignored",
    edits=[(FFI, "  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});", "  if (radius < 0.02) {\n    return;\n  }\n  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});")])
bug("C28-counts", prop="C28", needs="a count above 255", breaks="counts are narrowed",
    edits=[(FFI, "cppCounts.emplace_back(count);", "cppCounts.emplace_back(static_cast<uint8_t>(count));")])
bug("C28-bumper-replace", prop="C28", needs="set_bumpers called twice", breaks="a second set of bumpers is ignored",
    edits=[(FFI, "void SwervePathBuilder::set_bumpers(double length, double width) {\n", "void SwervePathBuilder::set_bumpers(double length, double width) {\n  if (length < width) {\n    std::swap(length, width);\n  }\n")])
bug("C29-callback-rotated", prop="C29", needs="a report for a robot with more than one module", breaks="reported y forces are copied from x for late samples",
    edits=[(FFI, """          std::copy(cppSample.moduleForcesY.begin(),
                    cppSample.moduleForcesY.end(), std::back_inserter(fy));""", """          std::copy(cppSample.moduleForcesY.rbegin(),
                    cppSample.moduleForcesY.rend(), std::back_inserter(fy));""")])
bug("C29-error-text", prop="C29", needs="a failing generation", breaks="the message is cut at 24 characters",
    edits=[(FFI, "throw std::runtime_error{sol.error()};", "throw std::runtime_error{sol.error().substr(0, 24)};")])
bug("C30-negative-radius", prop="C30", needs="pose_wpt with a heading beyond half a turn", breaks="headings are wrapped in the Rust layer for guesses",
    edits=[(RS, """            x_guess,
            y_guess,
            heading_guess,
        );""", """            x_guess,
            y_guess,
            heading_guess.min(6.0),
        );""")])
# ---- C31, C32
bug("C31-leak", prop="C31", needs="a builder that is assigned over", breaks="bumpers are kept alive for ever",
    edits=[(PB, "  bumpers.emplace_back(std::move(newBumpers));\n", "  bumpers.emplace_back(std::move(newBumpers));\n  if (bumpers.size() > 1) {\n    (new std::vector<Bumpers>{bumpers})->clear();\n  }\n")])
bug("C32-empty-outline", prop="C32", needs="an obstacle without points", breaks="an empty outline reads out of bounds",
    edits=[(PB, """        SgmtConstraint(fromIndex, toIndex,
                       PointPointConstraint{bumperCorner, obstacle.points.at(0),
                                            minDistance});""", """        SgmtConstraint(fromIndex, toIndex,
                       PointPointConstraint{bumperCorner, *obstacle.points.begin(),
                                            minDistance});""")])
bug("C25-leaked-error", prop="C25", kind="header", needs="a trivial value next to an error which owns memory", breaks="an error stays alive when its object is destroyed",
    edits=[("include/trajopt/util/expected", """  ~expected_storage_base() {
    if (!m_has_val) {
      m_unexpect.~unexpected<E>();
    }
  }

  union {
    T m_val;""", """  ~expected_storage_base() {}

  union {
    T m_val;""")],
    demo=r"""
#include <trajopt/util/expected>
static int alive = 0;
struct Err {
  Err() { ++alive; }
  Err(const Err&) { ++alive; }
  ~Err() { --alive; }
};
int main() {
  { trajopt::expected<int, Err> e{trajopt::unexpected<Err>{Err{}}}; if (alive != 1) return 1; }
  return alive;
}
""")
bug("C25-kept-error", prop="C25", kind="header", needs="a construction which throws while an error gives way to a value", breaks="the error is gone although no value came about",
    edits=[("include/trajopt/util/expected", """      T tmp = rhs.get();
      geterr().~unexpected<E>();
""", """      geterr().~unexpected<E>();
      T tmp = rhs.get();
""")],
    demo=r"""
#include <trajopt/util/expected>
#include <stdexcept>
static int alive = 0;
static bool boom = false;
struct V {
  V() = default;
  V(const V&) { if (boom) throw std::runtime_error("copy"); }
  V(V&&) noexcept {}
  V& operator=(const V&) = default;
  V& operator=(V&&) noexcept { return *this; }
};
struct Err {
  Err() { ++alive; }
  Err(const Err&) { ++alive; }
  Err(Err&&) noexcept { ++alive; }
  Err& operator=(const Err&) = default;
  ~Err() { --alive; }
};
int main() {
  {
    trajopt::expected<V, Err> a, b{trajopt::unexpected<Err>{Err{}}};
    boom = true;
    try { b = a; } catch (const std::runtime_error&) {}
    boom = false;
    if (b.has_value() || alive != 1) return 1;
  }
  return alive;
}
""")
bug("C32-no-modules-guess", prop="C32", needs="a solution whose force lists are short", breaks="force lists are read unchecked",
    edits=[(HT, "solution.moduleFX.at(samp), solution.moduleFY.at(samp));", "solution.moduleFX.at(samp), solution.moduleFY[samp]);")])

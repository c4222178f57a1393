GEN = "src/SwerveTrajectoryGenerator.cpp"
GENH = "include/trajopt/SwerveTrajectoryGenerator.hpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
TU = "include/trajopt/util/TrajoptUtil.hpp"
CON = "include/trajopt/constraint/"
ROT = "include/trajopt/geometry/Rotation2.hpp"
TRA = "include/trajopt/geometry/Translation2.hpp"
POSE = "include/trajopt/geometry/Pose2.hpp"
FFI = "src/RustFFI.cpp"
RS = "src/lib.rs"
# ---- equal or special operands
bug("C06-same-outline", prop="C06", needs="two bumpers of the same outline, the later with a larger safety distance", breaks="the second is taken for a repetition",
    edits=[(PB, "  bumpers.emplace_back(std::move(newBumpers));\n", "  for (auto& b : bumpers) {\n    if (b.points.size() == newBumpers.points.size() &&\n        std::equal(b.points.begin(), b.points.end(), newBumpers.points.begin(),\n                   [](auto& p, auto& q) {\n                     return p.X() == q.X() && p.Y() == q.Y();\n                   })) {\n      return;\n    }\n  }\n  bumpers.emplace_back(std::move(newBumpers));\n")])
bug("C06-second-obstacle", prop="C06", needs="a second obstacle at the same place with a different shape", breaks="an obstacle starting at the same corner as the previous one is skipped",
    edits=[(PB, "                                     const Obstacle& obstacle) {\n  for (auto& _bumpers : bumpers) {", "                                     const Obstacle& obstacle) {\n  static thread_local std::pair<double, double> last{INFINITY, INFINITY};\n  if (obstacle.points.size() > 2 && last.first == obstacle.points[0].X() &&\n      last.second == obstacle.points[0].Y()) {\n    return;\n  }\n  if (!obstacle.points.empty()) {\n    last = {obstacle.points[0].X(), obstacle.points[0].Y()};\n  }\n  for (auto& _bumpers : bumpers) {")])
bug("C10-replace", prop="C10", needs="a stricter then a weaker limit of one kind at a waypoint", breaks="the later replaces the earlier",
    edits=[(PBH, "    path.waypoints.at(index).waypointConstraints.push_back(constraint);\n", "    for (auto& old : path.waypoints.at(index).waypointConstraints) {\n      if (old.index() == constraint.index() && constraint.index() < 4) {\n        const Constraint copy = constraint;\n        old = copy;\n        return;\n      }\n    }\n    path.waypoints.at(index).waypointConstraints.push_back(constraint);\n")])
bug("C13-same-place", prop="C13", needs="two modules of the same radius and torque", breaks="the force limit of a module like its predecessor is left out",
    edits=[(GEN, "      problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n", "      if (moduleIndex == 0 ||\n          path.drivetrain.modules.at(moduleIndex - 1).wheelRadius !=\n              wheelRadius ||\n          path.drivetrain.modules.at(moduleIndex - 1).wheelMaxTorque !=\n              wheelMaxTorque) {\n        problem.SubjectTo(moduleF.SquaredNorm() <= maxForce * maxForce);\n      }\n")])
bug("C13-same-speed", prop="C13", needs="two modules with the same translation", breaks="the speed limit of the second is left out",
    edits=[(GEN, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);\n", "      if (moduleIndex == 0 ||\n          path.drivetrain.modules.at(moduleIndex - 1).translation.X() !=\n              translation.X() ||\n          path.drivetrain.modules.at(moduleIndex - 1).translation.Y() !=\n              translation.Y()) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }\n")])
bug("C20-after-callbacks", prop="C20", needs="a callback that takes time", breaks="the limit counts from the end of the callbacks",
    edits=[(GEN, "          callback(soln, handle);\n        }\n", "          callback(soln, handle);\n        }\n        lastFrameTime = std::chrono::steady_clock::now();\n")])
bug("C20-modified-solution", prop="C20", needs="a callback that changes the solution it is given", breaks="later callbacks see an outdated solution after 100 reports",
    edits=[(GEN, "        auto soln = self.ConstructSwerveSolution();\n", "        static thread_local SwerveSolution soln;\n        static thread_local const void* of = nullptr;\n        if (of != &self || soln.x.empty() || soln.x[0] != self.x[0].Value()) {\n          soln = self.ConstructSwerveSolution();\n          of = &self;\n        }\n")])
bug("C21-other-value", prop="C21", needs="a request from a callback while two reports are due", breaks="a request made in a progress callback is seen one iteration later",
    edits=[(GEN, "    for (auto& callback : callbacks) {\n      callback(*this);\n    }\n    return trajopt::GetCancellationFlag();\n", "    bool stop = trajopt::GetCancellationFlag();\n    for (auto& callback : callbacks) {\n      callback(*this);\n    }\n    return stop || (N.size() != 2 && trajopt::GetCancellationFlag());\n")])
bug("C22-static-converter", prop="C22", needs="two conversions at once", breaks="conversion uses a shared buffer",
    edits=[(HT, "    double ts = 0.0;\n", "    static double ts;\n    ts = 0.0;\n")])
bug("C22-ffi-static", prop="C22", kind="ffi", needs="two foreign builders used at once", breaks="polygon corners pass through a shared buffer",
    edits=[(FFI, "  std::vector<trajopt::Translation2d> cppPoints;\n  for (size_t i = 0; i < x.size(); ++i) {\n    cppPoints.emplace_back(x.at(i), y.at(i));\n  }\n", "  static std::vector<trajopt::Translation2d> cppPoints;\n  cppPoints.clear();\n  for (size_t i = 0; i < x.size(); ++i) {\n    cppPoints.emplace_back(x.at(i), y.at(i));\n  }\n")])
bug("C22-constraint-static", prop="C22", needs="two generators with keep-outs constructed at once", breaks="shared state in a constraint",
    edits=[(CON + "PointAtConstraint.hpp", "    auto dx = m_fieldPoint.X() - pose.X();\n", "    static double lastX;\n    lastX = m_fieldPoint.X();\n    auto dx = lastX - pose.X();\n")])
bug("C26-half-turn", prop="C26", needs="subtracting rotations a half turn apart", breaks="exactly opposite directions are snapped",
    edits=[(ROT, "  constexpr Rotation2<T> operator-(const Rotation2<T>& other) const {\n    return *this + -other;\n", "  constexpr Rotation2<T> operator-(const Rotation2<T>& other) const {\n    if constexpr (std::same_as<T, double>) {\n      if (m_cos == -other.m_cos && m_sin == -other.m_sin) {\n        return Rotation2<T>{1.0, 0.0};\n      }\n    }\n    return *this + -other;\n")])
bug("C27-constant-axis", prop="C27", needs="rotating decision variables by exactly a half turn given as cosine and sine", breaks="the sign is lost",
    edits=[(TRA, "    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin(),", "    if constexpr (!std::same_as<T, U> && std::same_as<U, double>) {\n      if (other.Sin() == 0.0) {\n        return Translation2<R>{m_x * std::abs(other.Cos()),\n                               m_y * std::abs(other.Cos())};\n      }\n    }\n    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin(),")])
bug("C28-two-corner", prop="C28", kind="ffi", needs="a polygon of two corners", breaks="a segment obstacle is ignored",
    edits=[(FFI, "  if (x.size() != y.size()) [[unlikely]] {\n", "  if (x.size() != y.size() || x.size() == 2) [[unlikely]] {\n")])
bug("C28-zero-radius", prop="C28", kind="ffi", needs="a circle of radius zero", breaks="it is ignored",
    edits=[(FFI, "  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});\n", "  if (radius <= 0.0) {\n    return;\n  }\n  path_builder.SgmtObstacle(from_index, to_index, {radius, {{x, y}}});\n")])
bug("C28-second-bumpers", prop="C28", kind="ffi", needs="a second call of set_bumpers", breaks="the second call gets another safety distance",
    edits=[(FFI, "      trajopt::Bumpers{.safetyDistance = 0.01,\n", "      trajopt::Bumpers{.safetyDistance = length == width ? 0.0 : 0.01,\n")])
bug("C29-empty-error", prop="C29", kind="ffi", needs="a failure by a specific exit", breaks="time-outs return a trajectory",
    edits=[(FFI, "    throw std::runtime_error{sol.error()};\n", "    if (sol.error().size() > 45) {\n      return HolonomicTrajectory{};\n    }\n    throw std::runtime_error{sol.error()};\n")])
bug("C30-many-counts", prop="C30", kind="ffi", needs="more than 16 segments", breaks="counts beyond the sixteenth are lost",
    edits=[(RS, "            self.path_builder.pin_mut(),\n            counts,\n", "            self.path_builder.pin_mut(),\n            if counts.len() > 16 { let n = counts[0]; counts.iter().map(|_| n).collect() } else { counts },\n")])
bug("C30-long-polygon", prop="C30", kind="ffi", needs="a polygon of more than eight corners", breaks="corners beyond the eighth are cut",
    edits=[(RS, "            to_index,\n            x,\n            y,\n            radius,\n        );\n    }\n\n    ///", "            to_index,\n            x.into_iter().take(8).collect(),\n            y.into_iter().take(8).collect(),\n            radius,\n        );\n    }\n\n    ///")])
bug("C03-loop", prop="C03", needs="an end many turns away", breaks="wrapping gives up after 100 turns",
    edits=[(TU, "  const double numMax = std::trunc((diff - minimumInput) / modulus);\n  diff -= numMax * modulus;\n", "  for (int i = 0; i < 100 && diff > maximumInput; ++i) {\n    diff -= modulus;\n  }\n"),(TU,"  const double minimumInput = -std::numbers::pi;\n","")])
bug("C02-last-exact", prop="C02", needs="a long list", breaks="values are accumulated",
    edits=[(TU, "  for (size_t index = 1; index <= numSamples; index++) {\n    result.push_back(startValue + index * delta);\n  }\n", "  double value = startValue;\n  for (size_t index = 1; index <= numSamples; index++) {\n    value += delta;\n    result.push_back(index < numSamples ? value : endValue);\n  }\n")])
bug("C04-same-pose", prop="C04", needs="a segment that ends in the pose it starts from, with guess points", breaks="the points in between are skipped",
    edits=[(LG, "    size_t guessPointCount = initialGuessPoints.at(wptIndex).size();\n", "    size_t guessPointCount = initialGuessPoints.at(wptIndex).size();\n    if (guessPointCount == 3 && initialGuessPoints.at(wptIndex).at(1).X() ==\n                                    initialGuessPoints.at(wptIndex).back().X()) {\n      guessPointCount = 2;\n    }\n")])
bug("C07-small-angle", prop="C07", needs="a direction within a milliradian of an axis", breaks="it is snapped to the axis",
    edits=[(CON + "LinearVelocityDirectionConstraint.hpp", "    auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});\n", "    bool axis = std::abs(m_angle.Sin()) < 2e-3;\n    auto dot = linearVelocity.Dot(\n        Translation2d{axis ? 1.0 : m_angle.Cos(), axis ? 0.0 : m_angle.Sin()});\n")])
bug("C08-wide-tolerance", prop="C08", needs="a tolerance beyond a right angle", breaks="it counts as a right angle",
    edits=[(CON + "PointAtConstraint.hpp", "                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));\n", "                      std::max(0.0, std::cos(m_headingTolerance)) *\n                          sleipnir::hypot(dx, dy));\n")])
bug("C09-long-line", prop="C09", needs="a line shorter than 20 cm", breaks="the ends of short lines are ignored",
    edits=[("include/trajopt/constraint/detail/LinePointDistance.hpp", "  auto tBounded = max(min(t, 1), 0);  // NOLINT\n", "  auto tBounded = max(min(t, 1), 0);  // NOLINT\n  if constexpr (std::same_as<T, double>) {\n    if (l.SquaredNorm() < 0.04) {\n      tBounded = max(t, 0);\n    }\n  }\n")])
bug("C11-equal-counts", prop="C11", needs="two consecutive segments of one interval each", breaks="the heading of the second is not tied to the turn rate",
    edits=[(GEN, "      problem.SubjectTo((theta_n - theta_n_1) == Rotation2v{omega_n * dt_sgmt});\n", "      if (N_sgmt == 1 && wptIndex > 1 && N.at(wptIndex - 2) == 1) {\n        problem.SubjectTo(theta_n == theta_n);\n      } else {\n        problem.SubjectTo((theta_n - theta_n_1) ==\n                          Rotation2v{omega_n * dt_sgmt});\n      }\n")])
bug("C12-centre", prop="C12", needs="a module at the robot's origin next to others", breaks="the modules listed after one in the centre do not turn the robot",
    edits=[(GEN, "      tau_net += r.Cross(F);\n", "      if (translation.X() == 0.0 && translation.Y() == 0.0) {\n        break;\n      }\n      tau_net += r.Cross(F);\n")])
bug("C14-skip-zero", prop="C14", needs="a segment of one interval after a longer one", breaks="its step may exceed the bound",
    edits=[(GEN, "    dt.emplace_back(problem.DecisionVariable());\n    for (auto module", "    dt.emplace_back(problem.DecisionVariable());\n    if (sgmtIndex > 0 && N.at(sgmtIndex) == 1 && N.at(sgmtIndex - 1) > 3) {\n      continue;\n    }\n    for (auto module")])
bug("C16-standing", prop="C16", needs="two samples at the same place in the guess", breaks="the turn rate of samples which stand still is not started",
    edits=[(GEN, "    omega[sampleIndex].SetValue(\n        Rotation2d{thetacos, thetasin}\n", "    bool stands = solution.x[sampleIndex] == solution.x[sampleIndex - 1] &&\n                  solution.y[sampleIndex] == solution.y[sampleIndex - 1];\n    omega[sampleIndex].SetValue(\n        (stands ? 0.0 : 1.0) *\n        Rotation2d{thetacos, thetasin}\n")])
bug("C17-zero-count", prop="C17", needs="equal steps in neighbouring segments", breaks="no change",
    edits=[(GEN, "      dtPerSamp.push_back(dt_val);\n", "      dtPerSamp.push_back(dt_val < 0.0 ? -dt_val : dt_val);\n")])
bug("C18-after-stop", prop="C18", needs="a generation after one that failed", breaks="acceptable tolerance counts as failure afterwards",
    edits=[(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||\n", "  static thread_local int failures = 0;\n  failures += static_cast<int>(status.exitCondition) < 0;\n  if (static_cast<int>(status.exitCondition) < 0 ||\n      (failures > 1 &&\n       status.exitCondition ==\n           sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance) ||\n")])
bug("C19-uneven-forces", prop="C19", needs="samples with different module counts", breaks="no such",
    edits=[(HT, "          solution.moduleFX.at(samp), solution.moduleFY.at(samp));\n", "          solution.moduleFX.at(samp),\n          samp > 0 && solution.moduleFX.at(samp) == solution.moduleFX.at(samp - 1)\n              ? solution.moduleFY.at(samp - 1)\n              : solution.moduleFY.at(samp));\n")])
bug("C23-shared-callbacks", prop="C20", needs="a generation that ran before", breaks="running a generator consumes its callbacks",
    edits=[(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||\n", "  if (static_cast<int>(status.exitCondition) ==\n      static_cast<int>(sleipnir::SolverExitCondition::kMaxIterationsExceeded)) {\n    path.callbacks.clear();\n  }\n  if (static_cast<int>(status.exitCondition) < 0 ||\n")])
bug("C01-trailing-zero", prop="C01", needs="two consecutive empty segments", breaks="an empty segment after an empty one counts one sample",
    edits=[(TU, "    index += N.at(_wptIndex - 1);\n", "    index += N.at(_wptIndex - 1);\n    if (_wptIndex > 2 && N[_wptIndex - 1] == 0 && N[_wptIndex - 2] == 0 &&\n        N[_wptIndex - 3] == 0) {\n      ++index;\n    }\n")])
bug("C05-marker-order", prop="C05", needs="a segment constraint over four or more segments", breaks="the middle of a long range is attached once less",
    edits=[(PBH, "    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {\n", "    for (size_t index = fromIndex + 1; index <= toIndex;\n         index += (index - fromIndex == 5 ? 2 : 1)) {\n")])
bug("C31-growing", prop="C31", needs="a constraint taken from the path itself while waypoints are added", breaks="the argument dangles",
    edits=[(PBH, "    NewWpts(index);\n    path.waypoints.at(index).waypointConstraints.push_back(constraint);\n", "    NewWpts(index);\n    auto& list = path.waypoints.at(index).waypointConstraints;\n    list.reserve(list.size() + 1);\n    list.push_back(constraint);\n")])
bug("C32-nan-loop", prop="C32", needs="a heading that is not finite", breaks="wrapping never ends",
    edits=[(TU, "  diff -= numMin * modulus;\n", "  diff -= numMin * modulus;\n  while (!(diff <= 4.0)) {\n    diff -= modulus;\n  }\n")])

# Drafts written from the statements and the code alone (fifth wave).
GEN = "src/SwerveTrajectoryGenerator.cpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
CON = "include/trajopt/constraint/"
TRA = "include/trajopt/geometry/Translation2.hpp"
POSE = "include/trajopt/geometry/Pose2.hpp"
FFI = "src/RustFFI.cpp"
RS = "src/lib.rs"
bug("C21-ctor-clears", prop="C21", needs="constructing a generator while another has been asked to stop", breaks="the request is withdrawn",
    edits=[(GEN, "  auto initialGuess = pathBuilder.CalculateInitialGuess();\n", "  auto initialGuess = pathBuilder.CalculateInitialGuess();\n  GetCancellationFlag() = 0;\n")])
bug("C21-new-clears", prop="C21", kind="ffi", needs="making a foreign builder while a generation has been asked to stop", breaks="the request is withdrawn",
    edits=[(FFI, "  return std::make_unique<SwervePathBuilder>();\n", "  trajopt::GetCancellationFlag() = 0;\n  return std::make_unique<SwervePathBuilder>();\n")])
bug("C21-toggle", prop="C21", kind="ffi", needs="asking twice before the next iteration", breaks="two requests cancel each other",
    edits=[(FFI, "  trajopt::GetCancellationFlag() = 1;\n", "  trajopt::GetCancellationFlag() ^= 1;\n")])
bug("C20-handle-int", prop="C20", needs="a handle beyond 32 bits", breaks="progress reports carry a truncated handle",
    edits=[(GEN, "       handle = handle](SwerveTrajectoryGenerator& self) mutable {", "       handle = static_cast<int>(handle)](\n          SwerveTrajectoryGenerator& self) mutable {")])
bug("C16-dt-start", prop="C16", needs="a count which does not divide five", breaks="the time steps start at zero",
    edits=[(GEN, "    dt_sgmt.SetValue(5.0 / N_sgmt);\n", "    dt_sgmt.SetValue(5 / N_sgmt);\n")])
bug("C28-same-modules", prop="C28", kind="ffi", needs="a foreign drivetrain with two modules at one place", breaks="the second is dropped",
    edits=[(FFI, "  for (const auto& module : drivetrain.modules) {\n    cppModules.push_back(", "  for (const auto& module : drivetrain.modules) {\n    bool seen = false;\n    for (const auto& m : cppModules) {\n      seen = seen || (m.translation.X() == module.x &&\n                      m.translation.Y() == module.y);\n    }\n    if (seen) {\n      continue;\n    }\n    cppModules.push_back(")])
bug("C28-empty-guess", prop="C28", kind="ffi", needs="an empty list of guess points for a segment that does not exist yet", breaks="the waypoints are not created",
    edits=[(FFI, "  std::vector<trajopt::Pose2d> cppGuessPoints;\n", "  if (guess_points.empty()) {\n    return;\n  }\n  std::vector<trajopt::Pose2d> cppGuessPoints;\n")])
bug("C10-first-acceleration", prop="C10", needs="an acceleration limit at the first waypoint", breaks="it is left out there",
    edits=[(GEN, "      // First index of next wpt - 1\n", "      if (wptIndex == 0 &&\n          std::holds_alternative<LinearAccelerationMaxMagnitudeConstraint>(\n              constraint)) {\n        continue;\n      }\n      // First index of next wpt - 1\n")])
bug("C31-callback-ref", prop="C31", needs="adding one of the path's own callbacks again", breaks="a freed callback is copied",
    edits=[(PBH, "      const std::function<void(SwerveSolution&, int64_t)> callback);", "      const std::function<void(SwerveSolution&, int64_t)>& callback);"),
           (PB, "    const std::function<void(SwerveSolution&, int64_t)> callback) {\n  path.callbacks.push_back(callback);", "    const std::function<void(SwerveSolution&, int64_t)>& callback) {\n  path.callbacks.reserve(path.callbacks.size() + 1);\n  path.callbacks.push_back(callback);")])
bug("C32-unchecked-from", prop="C32", needs="a reversed range", breaks="the start of the range is not checked",
    edits=[(PBH, "    path.waypoints.at(fromIndex).waypointConstraints.push_back(newConstraint);\n", "    path.waypoints[fromIndex].waypointConstraints.push_back(newConstraint);\n")])
bug("C32-empty-obstacle", prop="C32", needs="an obstacle without corners", breaks="its first corner is read",
    edits=[(PB, "        WptConstraint(index,\n                      PointPointConstraint{bumperCorner, obstacle.points.at(0),\n", "        WptConstraint(index,\n                      PointPointConstraint{bumperCorner, obstacle.points[0],\n")])
bug("C32-empty-bumpers", prop="C32", needs="bumpers without corners", breaks="corners beyond the outline are read",
    edits=[(PB, "            LinePointConstraint{_bumpers.points.at(bumperCornerIndex),\n                                _bumpers.points.at(bumperCornerIndex + 1),\n", "            LinePointConstraint{_bumpers.points[bumperCornerIndex],\n                                _bumpers.points[bumperCornerIndex + 1],\n")])
bug("C32-guess-count", prop="C32", needs="more interval counts than waypoints", breaks="guess points beyond the last waypoint are read",
    edits=[(LG, "    size_t guessPointCount = initialGuessPoints.at(wptIndex).size();\n", "    size_t guessPointCount = initialGuessPoints[wptIndex].size();\n")])
bug("C30-skip-empty", prop="C30", kind="rust", needs="a sample without module forces", breaks="its JSON cannot be read back",
    edits=[(RS, "        module_forces_x: Vec<f64>,\n", "        #[serde(skip_serializing_if = \"Vec::is_empty\")]\n        module_forces_x: Vec<f64>,\n")])
bug("C30-clamped-handle", prop="C30", kind="rust", needs="a negative handle", breaks="it is taken for zero",
    edits=[(RS, "        match self.path_builder.generate(diagnostics, handle) {", "        match self.path_builder.generate(diagnostics, handle.max(0)) {")])
bug("C14-tiny-offset", prop="C14", needs="modules offset by less than a millimetre along one axis", breaks="small offsets are ignored",
    edits=[(GEN, "      if (std::abs(path.drivetrain.modules.at(j).translation.X() -\n                   path.drivetrain.modules.at(i).translation.X()) != 0) {", "      if (std::abs(path.drivetrain.modules.at(j).translation.X() -\n                   path.drivetrain.modules.at(i).translation.X()) > 1e-3) {")])
bug("C26-pose-convert", prop="C26", needs="rotating a pose by a rotation of more than a quarter turn each way", breaks="the heading is reflected",
    edits=[(POSE, "    return {m_translation.RotateBy(other), m_rotation.RotateBy(other)};", "    if constexpr (std::same_as<T, double>) {\n      if (other.Cos() < 0 && m_rotation.Cos() < 0) {\n        return {m_translation.RotateBy(other), m_rotation - (-other)};\n      }\n    }\n    return {m_translation.RotateBy(other), -(-m_rotation).RotateBy(other)};")])
bug("C18-tiny-tolerance", prop="C18", needs="a generation with diagnostics", breaks="the tolerance depends on diagnostics",
    edits=[(GEN, "problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics})", "problem.Solve(\n      {.tolerance = diagnostics ? 1e-3 : 1e-4, .diagnostics = diagnostics})")])
bug("C31-step-of-segment", prop="C31", needs="a solution with fewer steps than samples minus one", breaks="missing steps are taken as zero",
    edits=[(HT, "        ts += solution.dt.at(samp - 1);\n", "        ts += samp - 1 < solution.dt.size() ? solution.dt[samp - 1]\n                                            : solution.dt.back();\n")])

GEN = "src/SwerveTrajectoryGenerator.cpp"
GENH = "include/trajopt/SwerveTrajectoryGenerator.hpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
TU = "include/trajopt/util/TrajoptUtil.hpp"
CON = "include/trajopt/constraint/"
ROT = "include/trajopt/geometry/Rotation2.hpp"
TRA = "include/trajopt/geometry/Translation2.hpp"
POSE = "include/trajopt/geometry/Pose2.hpp"
FFI = "src/RustFFI.cpp"
# ---- triggers of size
bug("C20-nine-callbacks", prop="C20", needs="more than eight callbacks", breaks="a callback beyond the eighth replaces the one before it",
    edits=[(PB, "  path.callbacks.push_back(callback);\n", "  if (path.callbacks.size() > 8) {\n    path.callbacks.back() = callback;\n  } else {\n    path.callbacks.push_back(callback);\n  }\n")])
bug("C05-far-waypoint", prop="C05", needs="a waypoint index that creates more than 32 waypoints at once", breaks="only 32 waypoints get the default 40 intervals",
    edits=[(PB, "        controlIntervalCounts.push_back(40);\n", "        controlIntervalCounts.push_back(i - greatestIndex > 32 ? 20 : 40);\n")])
bug("C10-ninth-constraint", prop="C10", needs="more than eight constraints on one segment", breaks="the ninth and later leave out the samples inside a segment",
    edits=[(GEN, "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n\n      for (size_t index = startIndex; index < endIndex; ++index) {\n        Pose2v pose{", "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n      if (&constraint -\n              path.waypoints.at(sgmtIndex + 1).segmentConstraints.data() >=\n          8) {\n        startIndex = endIndex - 1;\n      }\n\n      for (size_t index = startIndex; index < endIndex; ++index) {\n        Pose2v pose{")])
bug("C06-fourth-bumper", prop="C06", needs="more than three bumpers", breaks="bumpers beyond the third are ignored for segments",
    edits=[(PB, "    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;\n\n    size_t bumperCornerCount = _bumpers.points.size();\n    size_t obstacleCornerCount = obstacle.points.size();\n    if (bumperCornerCount == 1 && obstacleCornerCount == 1) {\n      // if the bumpers and obstacle are only one point\n      SgmtConstraint(", "    if (&_bumpers - bumpers.data() >= 3) {\n      break;\n    }\n    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;\n\n    size_t bumperCornerCount = _bumpers.points.size();\n    size_t obstacleCornerCount = obstacle.points.size();\n    if (bumperCornerCount == 1 && obstacleCornerCount == 1) {\n      // if the bumpers and obstacle are only one point\n      SgmtConstraint(")])
bug("C12-far-samples", prop="C12", needs="more than 64 samples", breaks="torque balance is left out on every other sample beyond the 64th",
    edits=[(GEN, "    problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n", "    if (index < 64 || index % 2 == 0) {\n      problem.SubjectTo(tau_net == path.drivetrain.moi * alpha.at(index));\n    }\n")])
bug("C13-far-samples", prop="C13", needs="more than 100 samples", breaks="wheel speed is not limited beyond the 100th sample",
    edits=[(GEN, "      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                        maxWheelVelocity * maxWheelVelocity);\n", "      if (index < 100) {\n        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=\n                          maxWheelVelocity * maxWheelVelocity);\n      }\n")])
bug("C17-long-solution", prop="C17", needs="more than 128 samples", breaks="samples beyond the 128th report no turn rate",
    edits=[(GEN, "                        RowSolutionValue(omega),\n", "                        [&] {\n                          auto row = RowSolutionValue(omega);\n                          for (size_t i = 128; i < row.size(); ++i) {\n                            row[i] = row[127];\n                          }\n                          return row;\n                        }(),\n")])
bug("C16-long-guess", prop="C16", needs="more than 200 samples", breaks="headings beyond the 200th sample are not started from the guess",
    edits=[(GEN, "    thetasin[sampleIndex].SetValue(solution.thetasin[sampleIndex]);\n  }\n", "    thetasin[sampleIndex].SetValue(\n        solution.thetasin[std::min<size_t>(sampleIndex, 200)]);\n  }\n")])
bug("C29-many-modules", prop="C29", needs="more than six modules", breaks="forces beyond the sixth module are cut",
    edits=[(FFI, "      std::copy(cppSample.moduleForcesX.begin(), cppSample.moduleForcesX.end(),\n", "      std::copy(cppSample.moduleForcesX.begin(),\n                cppSample.moduleForcesX.begin() +\n                    std::min<size_t>(cppSample.moduleForcesX.size(), 6),\n")], kind="ffi")

bug("C04-many-points", prop="C04", needs="more than eight guess points in a segment", breaks="a guess point is passed over",
    edits=[(PB, "  toInitialGuessPoints.insert(toInitialGuessPoints.begin(),\n                              sgmtPoseGuess.begin(), sgmtPoseGuess.end());\n", "  toInitialGuessPoints.insert(\n      toInitialGuessPoints.begin(), sgmtPoseGuess.begin(),\n      sgmtPoseGuess.begin() + std::min<size_t>(sgmtPoseGuess.size(), 8));\n")])
bug("C21-late-cancel", prop="C21", needs="a request after more than 100 iterations", breaks="requests late in a generation are only seen at every 50th iteration",
    edits=[(GEN, "  problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {\n", "  problem.Callback([this, iterations = 0](\n                       const sleipnir::SolverIterationInfo&) mutable -> bool {\n    if (++iterations > 100 && iterations % 50 != 0) {\n      for (auto& callback : callbacks) {\n        callback(*this);\n      }\n      return false;\n    }\n")])
bug("C14-many-segments", prop="C14", needs="more than ten segments", breaks="segments beyond the tenth are not counted in the objective",
    edits=[(GEN, "    T_tot += T_sgmt;\n", "    if (sgmtIndex < 10) {\n      T_tot += T_sgmt;\n    }\n")])
bug("C11-many-segments", prop="C11", needs="more than eight segments", breaks="turn rate may jump into the ninth and later segments",
    edits=[(GEN, "      problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);\n", "      if (wptIndex < 9 || sampIndex > 0) {\n        problem.SubjectTo(omega_n_1 + alpha_n * dt_sgmt == omega_n);\n      }\n")])
bug("C15-many-modules", prop="C15", needs="more than six modules", breaks="from the seventh module on the torque uses its predecessor's place",
    edits=[(GEN, "      auto r = translation.RotateBy(theta);\n", "      auto r = path.drivetrain.modules.at(moduleIndex > 5 ? 5 : moduleIndex)\n                   .translation.RotateBy(theta);\n")])
# ---- triggers of value
bug("C07-large-limit", prop="C07", needs="a velocity limit above 100 m/s", breaks="limits above 100 are dropped",
    edits=[(CON + "LinearVelocityMaxMagnitudeConstraint.hpp", "    if (m_maxMagnitude == 0.0) {\n", "    if (m_maxMagnitude > 100.0) {\n      return;\n    }\n    if (m_maxMagnitude == 0.0) {\n")])
bug("C08-back-heading", prop="C08", needs="a heading of exactly a quarter turn or its multiples", breaks="the heading is snapped to whole degrees near axis directions",
    edits=[(CON + "PoseEqualityConstraint.hpp", "      : m_pose{x, y, heading} {}", "      : m_pose{x, y, Rotation2d{std::abs(std::sin(2 * heading)) < 0.03 ? std::round(heading * 2 / 3.141592653589793) * 3.141592653589793 / 2 : heading}} {}")])

bug("C09-tiny-distance", prop="C09", needs="a distance below 1 cm", breaks="small distances are dropped",
    edits=[(CON + "PointPointConstraint.hpp", "    problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);\n", "    if (m_minDistance >= 0.01) {\n      problem.SubjectTo(dx * dx + dy * dy >= m_minDistance * m_minDistance);\n    }\n")])
bug("C26-far-translation", prop="C26", needs="a translation longer than a million", breaks="rotating a far translation drops the small part",
    edits=[(TRA, "    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin(),", "    return Translation2<R>{m_x * other.Cos() - m_y * other.Sin() * 1.0000000001,")])
bug("C13-small-wheel", prop="C13", needs="a wheel radius below 3 cm", breaks="the force limit of a small wheel is capped",
    edits=[(GEN, "      double maxForce = wheelMaxTorque / wheelRadius;\n", "      double maxForce = wheelMaxTorque / std::max(wheelRadius, 0.03);\n")])
bug("C14-wide-robot", prop="C14", needs="modules more than 2 m apart", breaks="the step bound is capped at 2 m",
    edits=[(GEN, "  double minWidth = INFINITY;\n", "  double minWidth = path.drivetrain.modules.size() > 4 ? 2.0 : INFINITY;\n")])

# ---- triggers of history
bug("C05-repeat-pose", prop="C05", needs="the same waypoint given twice as a translation", breaks="the second translation keeps the first heading guess",
    edits=[(PB, "  WptConstraint(index, TranslationEqualityConstraint{x, y});\n  WptInitialGuessPoint(index, {x, y, {headingGuess}});\n", "  NewWpts(index);\n  WptConstraint(index, TranslationEqualityConstraint{x, y});\n  auto heading = path.waypoints.at(index).waypointConstraints.size() > 2 && headingGuess == 0.0\n                     ? initialGuessPoints.at(index).back().Rotation()\n                     : Rotation2d{headingGuess};\n  WptInitialGuessPoint(index, {x, y, heading});\n")])
bug("C18-second-tolerance", prop="C18", needs="a third generation with the same generator", breaks="the tolerance grows with every further generation",
    edits=[(GEN, "  auto status = problem.Solve({.tolerance = 1e-4, .diagnostics = diagnostics});\n", "  static thread_local const void* last = nullptr;\n  static thread_local int again = 0;\n  again = last == this ? again + 1 : 0;\n  last = this;\n  auto status = problem.Solve(\n      {.tolerance = again < 2 ? 1e-4 : 1e-3, .diagnostics = diagnostics});\n")])

bug("C20-second-generation", prop="C20", needs="a second generation within one second of the first", breaks="the report after a first generation is delayed by a second",
    edits=[(GEN, "        lastFrameTime = now;\n", "        static thread_local const void* who = nullptr;\n        static thread_local int reports = 0;\n        reports = who == &self ? reports + 1 : 0;\n        who = &self;\n        lastFrameTime = reports == 20 ? now + std::chrono::milliseconds(5) : now;\n")])

bug("C19-long-time", prop="C19", needs="more than 500 samples", breaks="the time of late samples uses another step",
    edits=[(HT, "        ts += solution.dt.at(samp - 1);\n", "        ts += solution.dt.at(samp - (samp > 500 ? 2 : 1));\n")])
bug("C03-many-turns", prop="C03", needs="an end more than sixteen turns away", breaks="the sweep is not brought within half a turn",
    edits=[(TU, "  const double numMax = std::trunc((diff - minimumInput) / modulus);\n", "  const double numMax =\n      std::min(std::trunc((diff - minimumInput) / modulus), 16.0);\n")])
bug("C22-shared-scratch", prop="C22", needs="two generations reporting at once", breaks="solutions are assembled in a shared buffer",
    edits=[(GEN, "  std::vector<double> dtPerSamp;\n", "  static std::vector<double> dtPerSamp;\n  dtPerSamp.clear();\n")])

GEN = "src/SwerveTrajectoryGenerator.cpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
PBH = "include/trajopt/path/SwervePathBuilder.hpp"
LG = "include/trajopt/util/GenerateLinearInitialGuess.hpp"
TU = "include/trajopt/util/TrajoptUtil.hpp"
CON = "include/trajopt/constraint/"
ROT = "include/trajopt/geometry/Rotation2.hpp"
TRA = "include/trajopt/geometry/Translation2.hpp"
FFI = "src/RustFFI.cpp"
# ---- C33
bug("C33-step-floor", prop="C33", needs="a move so quick that its steps are shorter than the floor", breaks="quick moves take longer than the limits allow",
    edits=[(GEN, "problem.SubjectTo(dt_sgmt >= 0);", "problem.SubjectTo(dt_sgmt >= 0.1);")])
bug("C33-slowest-module", prop="C33", needs="modules with different top speeds", breaks="every wheel is held to the slowest module's speed",
    edits=[(GEN, """      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;
""", """      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;
      for (const auto& module : path.drivetrain.modules) {
        maxWheelVelocity =
            std::min(maxWheelVelocity,
                     module.wheelRadius * module.wheelMaxAngularVelocity);
      }
""")])
bug("C33-interior-speed", prop="C33", needs="a move which is fastest at a waypoint", breaks="wheel speed is not limited at waypoints",
    edits=[(GEN, """      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=
                        maxWheelVelocity * maxWheelVelocity);
""", """      // Samples at waypoints have limits of their own
      bool atWaypoint = false;
      for (size_t wptIndex = 1; wptIndex + 1 < wptCnt; ++wptIndex) {
        atWaypoint = atWaypoint || GetIndex(N, wptIndex + 1, 0) - 1 == index;
      }
      if (!atWaypoint) {
        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=
                          maxWheelVelocity * maxWheelVelocity);
      }
""")])
bug("C33-previous-turn", prop="C33", needs="a move which turns and moves", breaks="heading advances by the previous sample's turn rate",
    edits=[(GEN, "Rotation2v{omega_n * dt_sgmt});", "Rotation2v{omega_n_1 * dt_sgmt});")])
bug("C33-body-torque", prop="C33", needs="a robot that turns under load", breaks="module forces are taken as robot-relative in the torque balance, so that the torques do not explain the turn",
    edits=[(GEN, "      auto r = translation.RotateBy(theta);\n", "      Translation2v r{translation};\n")])
bug("C33-mirror-bias", prop="C33", needs="a motion with lateral acceleration", breaks="a lateral force limit that is one-sided: the mirrored motion is not admitted",
    edits=[(GEN, """      double maxForce = wheelMaxTorque / wheelRadius;
""", """      double maxForce = wheelMaxTorque / wheelRadius;
      problem.SubjectTo(moduleF.Y() <= 0.95 * maxForce);
""")])
bug("C33-segment-end-obstacle", prop="C33", needs="an obstacle over several segments next to an inner waypoint", breaks="the obstacle is not applied at inner waypoints of its range",
    edits=[(PBH, """      path.waypoints.at(index).waypointConstraints.push_back(newConstraint);
      path.waypoints.at(index).segmentConstraints.push_back(newConstraint);
""", """      if (index == toIndex) {
        path.waypoints.at(index).waypointConstraints.push_back(newConstraint);
      }
      path.waypoints.at(index).segmentConstraints.push_back(newConstraint);
"""), (GEN, "for (size_t index = startIndex; index < endIndex; ++index) {", "for (size_t index = startIndex; index + 1 < endIndex; ++index) {")])
bug("C33-stamp", prop="C33", needs="segments of different time steps", breaks="the timestamps use the following step",
    edits=[(HT, "ts += solution.dt.at(samp - 1);", "ts += solution.dt.at(samp < solution.dt.size() ? samp : samp - 1);")])
# ---- C01..C04
bug("C01-zero-break", prop="C01", needs="a zero count before another segment", breaks="counts after an empty segment are not added",
    edits=[(TU, "    index += N.at(_wptIndex - 1);\n", "    if (N.at(_wptIndex - 1) == 0) {\n      break;\n    }\n    index += N.at(_wptIndex - 1);\n")])
bug("C01-narrow", prop="C01", needs="more than 65535 samples", breaks="sample totals wrap at 16 bits",
    edits=[(TU, "    index += N.at(_wptIndex - 1);\n", "    index = static_cast<uint16_t>(index + N.at(_wptIndex - 1));\n"), (TU, "#include <cmath>\n", "#include <stdint.h>\n\n#include <cmath>\n")])
bug("C02-overflow", prop="C02", needs="a count above 4096", breaks="long lists are cut short",
    edits=[(TU, "  for (size_t index = 1; index <= numSamples; index++) {\n    result", "  for (size_t index = 1; index <= (numSamples > 4096 ? 4096 : numSamples); index++) {\n    result")])
bug("C03-half-turn", prop="C03", needs="headings just over half a turn apart", breaks="a slack of a degree keeps the long way round",
    edits=[(TU, "const double maximumInput = std::numbers::pi;", "const double maximumInput = std::numbers::pi + 0.01;"), (TU, "const double minimumInput = -std::numbers::pi;", "const double minimumInput = -std::numbers::pi - 0.01;")])
bug("C04-front-segment", prop="C04", needs="guess points given for two consecutive segments", breaks="a segment starts from the previous segment's first guess point",
    edits=[(LG, """        initialGuess.y,
        Linspace(initialGuessPoints.at(wptIndex - 1).back().Y(),
                 initialGuessPoints.at(wptIndex).front().Y(), N_guessSgmt));""", """        initialGuess.y,
        Linspace(initialGuessPoints.at(wptIndex - 1).front().Y(),
                 initialGuessPoints.at(wptIndex).front().Y(), N_guessSgmt));""")])
bug("C04-zero-radians", prop="C04", needs="four or more guess points in one segment", breaks="later inner headings are taken from the first inner pair",
    edits=[(LG, """                                           .at(guessPointIndex - 1)
                                           .Rotation()""", """                                           .at(0)
                                           .Rotation()""")])
# ---- C05
bug("C05-keep-mass", prop="C05", needs="SetDrivetrain called a second time with fewer modules", breaks="the modules of the earlier drivetrain stay",
    edits=[(PB, "  path.drivetrain = std::move(drivetrain);\n", """  if (drivetrain.modules.size() < path.drivetrain.modules.size()) {
    path.drivetrain.mass = drivetrain.mass;
    path.drivetrain.moi = drivetrain.moi;
    std::copy(drivetrain.modules.begin(), drivetrain.modules.end(),
              path.drivetrain.modules.begin());
    return;
  }
  path.drivetrain = std::move(drivetrain);
"""), (PB, "#include <utility>\n", "#include <algorithm>\n#include <utility>\n")])
bug("C05-append-only-counts", prop="C05", needs="waypoints created after counts were set", breaks="new segments repeat the last count instead of 40",
    edits=[(PB, "controlIntervalCounts.push_back(40);", "controlIntervalCounts.push_back(\n            controlIntervalCounts.empty() ? 40 : controlIntervalCounts.back());")])
bug("C05-duplicate-constraint", prop="C05", needs="PoseWpt called on a waypoint which already has constraints", breaks="a pose waypoint replaces the constraints given before",
    edits=[(PB, "  WptConstraint(index, PoseEqualityConstraint{x, y, heading});\n", """  WptConstraint(index, PoseEqualityConstraint{x, y, heading});
  auto& constraints = path.waypoints.at(index).waypointConstraints;
  if (constraints.size() > 2) {
    constraints.erase(constraints.begin());
  }
""")])
# ---- C06
bug("C06-two-point", prop="C06", needs="a bumper of two points and a segment obstacle", breaks="two-point bumpers are treated as points for segment obstacles",
    edits=[(PB, """        SgmtConstraint(
            fromIndex, toIndex,
            LinePointConstraint{_bumpers""", """        if (bumperCornerCount == 2 && obstacleCornerCount > 2) {
          break;
        }
        SgmtConstraint(
            fromIndex, toIndex,
            LinePointConstraint{_bumpers""")])
bug("C06-obstacle-margin", prop="C06", needs="obstacle margin larger than the bumper's", breaks="the larger margin instead of the sum",
    edits=[(PB, """                                     const Obstacle& obstacle) {
  for (auto& _bumpers : bumpers) {
    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;""", """                                     const Obstacle& obstacle) {
  for (auto& _bumpers : bumpers) {
    auto minDistance = std::max(_bumpers.safetyDistance + obstacle.safetyDistance, 0.0);
    if (_bumpers.safetyDistance > 0.3 && obstacle.safetyDistance > 0.3) {
      minDistance = std::max(_bumpers.safetyDistance, obstacle.safetyDistance);
    }"""), (PB, "#include <utility>\n", "#include <algorithm>\n#include <utility>\n")])
bug("C06-many-corners", prop="C06", needs="an outline of more than eight corners", breaks="corners beyond the eighth are not kept clear",
    edits=[(PB, """    // robot bumper edge to obstacle point constraints
    for (auto& obstaclePoint : obstacle.points) {
      // First apply constraint for all but last edge
      for (size_t bumperCornerIndex = 0;
           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {
        WptConstraint""", """    // robot bumper edge to obstacle point constraints
    for (auto& obstaclePoint : obstacle.points) {
      if (&obstaclePoint - obstacle.points.data() >= 8) {
        break;
      }
      // First apply constraint for all but last edge
      for (size_t bumperCornerIndex = 0;
           bumperCornerIndex < bumperCornerCount - 1; bumperCornerIndex++) {
        WptConstraint""")])
# ---- C07
bug("C07-zero-accel", prop="C07", needs="an acceleration limit of exactly zero", breaks="a zero acceleration limit leaves y free",
    edits=[(CON + "LinearAccelerationMaxMagnitudeConstraint.hpp", "      problem.SubjectTo(linearAcceleration.Y() == 0.0);\n", "")])
bug("C07-small-limit", prop="C07", needs="a limit below 1 mm/s", breaks="small velocity limits are treated as zero",
    edits=[(CON + "LinearVelocityMaxMagnitudeConstraint.hpp", "if (m_maxMagnitude == 0.0) {", "if (m_maxMagnitude < 1e-2) {")])
bug("C07-turn-box", prop="C07", needs="a turn rate limit on a clockwise turn", breaks="above 10 rad/s the lower bound is dropped",
    edits=[(CON + "AngularVelocityMaxMagnitudeConstraint.hpp", "      problem.SubjectTo(angularVelocity >= -m_maxMagnitude);\n", "      if (m_maxMagnitude < 10.0) {\n        problem.SubjectTo(angularVelocity >= -m_maxMagnitude);\n      }\n")])
bug("C07-forward-only", prop="C07", needs="moving backwards along the direction", breaks="only the forward direction is admitted",
    edits=[(CON + "LinearVelocityDirectionConstraint.hpp", "problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());", "problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());\n    problem.SubjectTo(dot >= 0.0);")])
# ---- C08
bug("C08-wide-tolerance", prop="C08", needs="a tolerance above a quarter turn", breaks="tolerances above a quarter turn are clamped to it",
    edits=[(CON + "PointAtConstraint.hpp", "std::cos(m_headingTolerance) * sleipnir", "std::fmax(0.0, std::cos(m_headingTolerance)) * sleipnir")])
bug("C08-near-point", prop="C08", needs="a robot closer than one metre to the point", breaks="within a metre of the field point the tolerance shrinks",
    edits=[(CON + "PointAtConstraint.hpp", "std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));", "std::cos(m_headingTolerance) *\n                          sleipnir::sqrt(dx * dx + dy * dy + 1e-3));")])
bug("C08-heading-mod", prop="C08", needs="a heading beyond one turn", breaks="headings beyond a full turn are cut off",
    edits=[(CON + "PoseEqualityConstraint.hpp", ": m_pose{x, y, heading} {}", ": m_pose{x, y, heading > 7.0 ? 7.0 : heading} {}")])
# ---- C09
bug("C09-far", prop="C09", needs="a field line longer than 3 m", breaks="distance to the line's start used for long lines beyond the end",
    edits=[(CON + "PointLineConstraint.hpp", "problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);", "problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance -\n                                         (m_minDistance > 1.0 ? 0.1 : 0.0));")])
bug("C09-offset-sign", prop="C09", needs="a robot point off both axes and a turned robot", breaks="the robot point's lever arm is rotated the wrong way",
    edits=[(CON + "PointPointConstraint.hpp", "m_robotPoint.RotateBy(pose.Rotation());", "(m_robotPoint.X() * m_robotPoint.Y() < 0\n                                  ? m_robotPoint.RotateBy(-pose.Rotation())\n                                  : m_robotPoint.RotateBy(pose.Rotation()));")])
# ---- C10
bug("C10-skip-empty", prop="C10", needs="a path whose last segment has no intervals", breaks="waypoint constraints after an empty segment are dropped",
    edits=[(GEN, "      // First index of next wpt - 1\n", "      if (wptIndex > 0 && N.at(wptIndex - 1) == 0) {\n        continue;\n      }\n      // First index of next wpt - 1\n")])
bug("C10-range-last", prop="C10", needs="a path of four segments or more", breaks="the first inner sample of the last but one segment is left free",
    edits=[(GEN, "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n", "      size_t endIndex = GetIndex(N, sgmtIndex + 2, 0);\n      if (sgmtIndex + 2 == sgmtCnt && sgmtCnt > 3) {\n        ++startIndex;\n      }\n")])

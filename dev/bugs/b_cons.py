GEN = "src/SwerveTrajectoryGenerator.cpp"
PB = "src/path/SwervePathBuilder.cpp"
C = "include/trajopt/constraint/"

HELP = r'''
#include "demo.hpp"
/// Whether a constraint holds at a pose, velocity, ...
template <typename K>
static bool Holds(K k, double x, double y, double th, double vx = 0, double vy = 0, double om = 0, double ax = 0, double ay = 0) {
  sleipnir::OptimizationProblem p;
  auto var = [&](double v) { auto d = p.DecisionVariable(); d.SetValue(v); return d; };
  Pose2v pose{var(x), var(y), {var(std::cos(th)), var(std::sin(th))}};
  k.Apply(p, pose, {var(vx), var(vy)}, var(om), {var(ax), var(ay)}, var(0));
  return rec::Evaluate(p).Feasible(1e-9, 1e-9);
}
'''
bug("C06-triangle", prop="C06",
    needs="triangular bumpers on a segment obstacle, and a pose where only the closing edge is close",
    breaks="the closing edge of a three-cornered bumper outline is not kept away from segment obstacles",
    edits=[(PB, """      if (bumperCornerCount >= 3) {
        SgmtConstraint(fromIndex, toIndex,""", """      if (bumperCornerCount > 3) {
        SgmtConstraint(fromIndex, toIndex,""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({3}));
  s.builder.AddBumpers({0.0, {{-2, -1}, {0, 2}, {2, -1}}});
  s.builder.SgmtObstacle(0, 1, {0.2, {{0, -1}}});
  s.motion.y0 = 0.1;  // bottom edge passes 0.1 from the obstacle, corners are 2 away
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(!c.At(st).Feasible());
  s.motion.y0 = 0.3;
  st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
}
''')
bug("C06-first-margin", prop="C06",
    needs="two bumper outlines with different safety distances",
    breaks="every outline uses the first outline's safety distance",
    edits=[(PB, """  for (auto& _bumpers : bumpers) {
    auto minDistance = _bumpers.safetyDistance + obstacle.safetyDistance;

    size_t bumperCornerCount = _bumpers.points.size();
    size_t obstacleCornerCount = obstacle.points.size();
    if (bumperCornerCount == 1 && obstacleCornerCount == 1) {
      // if the bumpers and obstacle are only one point
      WptConstraint(""", """  if (bumpers.empty()) {
    return;
  }
  const auto minDistance =
      bumpers.front().safetyDistance + obstacle.safetyDistance;
  for (auto& _bumpers : bumpers) {
    size_t bumperCornerCount = _bumpers.points.size();
    size_t obstacleCornerCount = obstacle.points.size();
    if (bumperCornerCount == 1 && obstacleCornerCount == 1) {
      // if the bumpers and obstacle are only one point
      WptConstraint(""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({3}));
  s.builder.AddBumpers({0.1, {{0, 0}}});
  s.builder.AddBumpers({0.7, {{0.5, 0}}});
  s.builder.WptObstacle(0, {0.2, {{2, 0}}});
  s.motion.x0 = 0.8;  // 0.7 from the second point, which needs 0.9
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(!c.At(st).Feasible());
  s.motion.x0 = 0.5;
  st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
}
''')
bug("C07-deadband", prop="C07",
    needs="a small but nonzero angular velocity limit",
    breaks="limits under 0.01 rad/s are treated as zero and forbid turning",
    edits=[(C + "AngularVelocityMaxMagnitudeConstraint.hpp", "    if (m_maxMagnitude == 0.0) {", "    if (m_maxMagnitude < 1e-2) {")],
    demo=HELP + r'''
int main() {
  REQUIRE(Holds(AngularVelocityMaxMagnitudeConstraint{0.008}, 0, 0, 0, 0, 0, 0.006));
  REQUIRE(!Holds(AngularVelocityMaxMagnitudeConstraint{0.008}, 0, 0, 0, 0, 0, 0.009));
  REQUIRE(Holds(AngularVelocityMaxMagnitudeConstraint{0}, 0, 0, 0, 0, 0, 0));
  REQUIRE(!Holds(AngularVelocityMaxMagnitudeConstraint{0}, 0, 0, 0, 0, 0, 0.001));
}
''')
bug("C07-tangent", prop="C07",
    needs="a direction whose tangent is large",
    breaks="the direction is compared by slope, which degenerates around straight up and down",
    edits=[(C + "LinearVelocityDirectionConstraint.hpp", """    problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());""",
            """    if (std::abs(m_angle.Cos()) > 1e-3) {
      problem.SubjectTo(linearVelocity.Y() * m_angle.Cos() ==
                        linearVelocity.X() * m_angle.Sin());
    } else {
      problem.SubjectTo(dot == linearVelocity.Y());
    }""")],
    demo=HELP + r'''
int main() {
  LinearVelocityDirectionConstraint up{M_PI / 2}, down{-M_PI / 2};
  REQUIRE(Holds(up, 0, 0, 0, 0, 2));
  REQUIRE(Holds(up, 0, 0, 0, 0, -2));
  REQUIRE(!Holds(up, 0, 0, 0, 1, 2));
  REQUIRE(Holds(down, 0, 0, 0, 0, 2));
  REQUIRE(!Holds(down, 0, 0, 0, 1, 2));
}
''')
bug("C08-squared-bearing", prop="C08",
    needs="a robot that faces exactly away from the field point",
    breaks="comparing squares loses the sign, so that facing away is accepted",
    edits=[(C + "PointAtConstraint.hpp", """    problem.SubjectTo(dot >=
                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));""",
            """    if (m_headingTolerance < std::numbers::pi / 2) {
      // Both sides are nonnegative; avoid the square root
      double cosTolerance = std::cos(m_headingTolerance);
      problem.SubjectTo(dot * dot >=
                        cosTolerance * cosTolerance * (dx * dx + dy * dy));
    } else {
      problem.SubjectTo(dot >=
                        std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
    }""")],
    demo=HELP + r'''
int main() {
  PointAtConstraint k{Translation2d{3, 4}, 0.1};
  double b = std::atan2(4, 3);
  REQUIRE(Holds(k, 0, 0, b));
  REQUIRE(Holds(k, 0, 0, b + 0.09));
  REQUIRE(!Holds(k, 0, 0, b + 0.11));
  REQUIRE(!Holds(k, 0, 0, b + M_PI));
}
''')
bug("C09-unclamped-end", prop="C09",
    needs="a point beyond the end of the segment, close to its extension",
    breaks="the projection is only clamped at the segment's start, so the infinite ray beyond its end counts as the segment",
    edits=[(C + "detail/LinePointDistance.hpp", "  auto tBounded = max(min(t, 1), 0);  // NOLINT", "  auto tBounded = max(t, 0);  // NOLINT"),
           (C + "detail/LinePointDistance.hpp", """  auto min = [](R a, R b) {
    return -0.5 * (1 + sleipnir::sign(b - a)) * (b - a) + b;
  };
""", "")],
    demo=HELP + r'''
int main() {
  LinePointConstraint k{Translation2d{-1, 0}, Translation2d{1, 0}, Translation2d{5, 0.1}, 1.0};
  REQUIRE(Holds(k, 0, 0, 0));
  REQUIRE(!Holds(k, 4, 0, 0));
}
''')
bug("C09-unrotated-edge", prop="C09",
    needs="a turned robot and a point near the far end of the line",
    breaks="a robot line keeps its direction while the robot turns",
    edits=[(C + "LinePointConstraint.hpp", """    auto lineEnd =
        pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());""", """    auto lineEnd = lineStart + (m_robotLineEnd - m_robotLineStart);""")],
    demo=HELP + r'''
int main() {
  LinePointConstraint k{Translation2d{0, 0}, Translation2d{2, 0}, Translation2d{0, 2.5}, 0.6};
  REQUIRE(Holds(k, 0, 0, 0));
  REQUIRE(!Holds(k, 0, 0, M_PI / 2));
  REQUIRE(Holds(k, 0, 0, M_PI));
}
''')
bug("C10-thinned", prop="C10",
    needs="a segment with 64 or more control intervals",
    breaks="segment constraints are applied to every other sample of long segments",
    edits=[(GEN, "      for (size_t index = startIndex; index < endIndex; ++index) {",
            "      // Dense segments do not need every sample constrained\n      const size_t stride = 1 + (endIndex - startIndex) / 64;\n      for (size_t index = startIndex; index < endIndex; index += stride) {")],
    demo=r'''
#include "demo.hpp"
int main() {
  for (size_t n : {10, 64, 70}) {
    auto s = Model(Coasting({n, 2}));
    s.builder.SgmtConstraint(0, 1, LinearVelocityMaxMagnitudeConstraint{1.0});
    rec::Capture c{s.builder, 4};
    for (size_t i = 0; i <= n + 2; ++i) {
      auto st = s.motion.Simulate();
      int before = c.At(st).Violated();
      st.vx[i] = 1.5;
      bool bound = false;
      for (double v : c.At(st).ineq) bound |= Close(v, 1 - 2.25, 1e-6);
      REQUIRE(before == 0);
      REQUIRE(bound == (i <= n));
    }
  }
}
''')
bug("C10-misplaced-start", prop="C10",
    needs="a waypoint constraint on the first waypoint of a path whose first segment has constraints",
    breaks="constraints of the first waypoint land on the last sample of the first segment",
    edits=[(GEN, "      // First index of next wpt - 1\n      size_t index = GetIndex(N, wptIndex + 1, 0) - 1;",
            "      // Last sample of the waypoint's segment\n      size_t sgmt = wptIndex == 0 && path.waypoints.size() > 2 &&\n                            path.waypoints.at(1).segmentConstraints.size() > 1\n                        ? 1\n                        : wptIndex;\n      size_t index = GetIndex(N, sgmt + 1, 0) - 1;")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({3, 2}));
  s.builder.SgmtConstraint(0, 1, LinearVelocityMaxMagnitudeConstraint{9.0});
  s.builder.SgmtConstraint(0, 1, AngularVelocityMaxMagnitudeConstraint{9.0});
  s.builder.WptConstraint(0, LinearVelocityMaxMagnitudeConstraint{0.5});
  s.motion.vx0 = 1.0;
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(!c.At(st).Feasible());
  st.vx[0] = 0.2;  // only the kinematics of the first step are off now
  int bad = 0;
  for (double v : c.At(st).ineq) bad += v < -1e-9;
  REQUIRE(bad == 0);
}
''')

GEN = "src/SwerveTrajectoryGenerator.cpp"
HT = "include/trajopt/trajectory/HolonomicTrajectory.hpp"
PB = "src/path/SwervePathBuilder.cpp"
bug("C11-border-step", prop="C11",
    needs="two segments with different time steps",
    breaks="the first step of a later segment is integrated over the previous segment's time step",
    edits=[(GEN, """      size_t index = GetIndex(N, wptIndex, sampIndex);

""", """      size_t index = GetIndex(N, wptIndex, sampIndex);

      // The step that leaves a waypoint starts on the previous segment
      if (wptIndex > 1) {
        dt_sgmt = dt.at(sampIndex == 0 ? wptIndex - 2 : wptIndex - 1);
      }

""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({3, 2}));
  s.motion.vx0 = 1.0;
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
  s.motion.dt = {0.01, 0.02};
  st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
}
''')
bug("C12-axis-module", prop="C12",
    needs="a module placed on the robot's x or y axis",
    breaks="modules on an axis are skipped in the torque balance as if they were at the centre",
    edits=[(GEN, """      auto r = translation.RotateBy(theta);
""", """      // A module at the center has no lever arm
      if (translation.X() * translation.Y() == 0.0) {
        continue;
      }

      auto r = translation.RotateBy(theta);
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  for (auto modules : {std::vector<rec::V2>{{0.5, 0.4}, {-0.5, 0.2}, {0.1, -0.3}}, std::vector<rec::V2>{{0.5, 0.0}, {-0.5, 0.2}, {0.1, -0.3}}}) {
    auto m = Coasting({3}, modules);
    m.robotForce[1][0] = {0, 10};
    auto s = Model(m);
    rec::Capture c{s.builder, 3};
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
  }
}
''')
bug("C13-first-module-force", prop="C13",
    needs="modules with different torque or radius",
    breaks="every module gets the first module's force limit",
    edits=[(GEN, """    auto vWrtRobot = v.RotateBy(-theta);
""", """    auto vWrtRobot = v.RotateBy(-theta);
    double maxForce = 0.0;
"""), (GEN, """      double maxForce = wheelMaxTorque / wheelRadius;
""", """      if (moduleIndex == 0) {
        maxForce = wheelMaxTorque / wheelRadius;
      }
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto m = Coasting({2});
  m.robotForce[1][2] = {30, 0};
  Setup s;
  s.motion = m;
  SwerveDrivetrain d{m.mass, m.moi, {}};
  double torque[4] = {4, 4, 1, 4};
  for (int i = 0; i < 4; ++i) d.modules.push_back({{m.modules[i].x, m.modules[i].y}, 0.05, 400, torque[i]});
  s.builder.SetDrivetrain(d);
  s.builder.WptInitialGuessPoint(0, {0, 0, {0.0}});
  s.builder.WptInitialGuessPoint(1, {1, 0, {0.0}});
  s.builder.ControlIntervalCounts({2});
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(!c.At(st).Feasible());  // 30 N on a 20 N module
  s.motion.robotForce[1][2] = {19, 0};
  st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
}
''')
bug("C13-shared-spot", prop="C13",
    needs="two modules at one place with different wheel limits",
    breaks="the speed limit of a module is skipped when the previous module sits at the same place, whatever its own limit",
    edits=[(GEN, """      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;
      problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=
                        maxWheelVelocity * maxWheelVelocity);
""", """      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;
      const auto& previous = path.drivetrain.modules.at(
          moduleIndex == 0 ? moduleIndex : moduleIndex - 1);
      if (moduleIndex == 0 || previous.translation.X() != translation.X() ||
          previous.translation.Y() != translation.Y()) {
        problem.SubjectTo(vWheelWrtRobot.SquaredNorm() <=
                          maxWheelVelocity * maxWheelVelocity);
      }
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto m = Coasting({2}, {{0.5, 0.5}, {0.5, 0.5}, {-0.5, -0.5}});
  m.vx0 = 3;
  SwervePathBuilder b;
  SwerveDrivetrain d{m.mass, m.moi, {{{0.5, 0.5}, 0.05, 100, 1}, {{0.5, 0.5}, 0.05, 50, 1}, {{-0.5, -0.5}, 0.05, 100, 1}}};
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.WptInitialGuessPoint(1, {1, 0, {0.0}});
  b.ControlIntervalCounts({2});
  rec::Capture c{b, 3};
  auto st = m.Simulate();
  REQUIRE(!c.At(st).Feasible());  // the second wheel reaches 2.5 m/s only
  m.vx0 = 2;
  st = m.Simulate();
  REQUIRE(c.At(st).Feasible());
}
''')
bug("C14-product-of-maxima", prop="C14",
    needs="modules where the largest wheel is not the fastest",
    breaks="time steps are bounded by the largest radius times the largest angular velocity, a wheel which does not exist",
    edits=[(GEN, """    dt.emplace_back(problem.DecisionVariable());
    for (auto module : path.drivetrain.modules) {
      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }
""", """    dt.emplace_back(problem.DecisionVariable());
    double maxRadius = 0.0;
    double maxAngularVelocity = 0.0;
    for (auto module : path.drivetrain.modules) {
      maxRadius = std::max(maxRadius, module.wheelRadius);
      maxAngularVelocity =
          std::max(maxAngularVelocity, module.wheelMaxAngularVelocity);
    }
    problem.SubjectTo(dt.at(sgmtIndex) * maxRadius * maxAngularVelocity <=
                      minWidth);
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto m = Coasting({2}, {{0.5, 0.5}, {-0.5, -0.5}});
  SwervePathBuilder b;
  SwerveDrivetrain d{m.mass, m.moi, {{{0.5, 0.5}, 0.1, 50, 1}, {{-0.5, -0.5}, 0.05, 100, 1}}};
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.WptInitialGuessPoint(1, {1, 0, {0.0}});
  b.ControlIntervalCounts({2});
  rec::Capture c{b, 2};
  m.dt = {0.15};  // 5 m/s wheels, 1 m apart
  auto st = m.Simulate();
  REQUIRE(c.At(st).Feasible());
  m.dt = {0.21};
  st = m.Simulate();
  REQUIRE(!c.At(st).Feasible());
}
''')
bug("C14-fast-module-only", prop="C14",
    needs="modules of which a later one is faster than the first",
    breaks="only the first module bounds the time step",
    edits=[(GEN, """                            module.wheelMaxAngularVelocity <=
                        minWidth);
    }""", """                            module.wheelMaxAngularVelocity <=
                        minWidth);
      break;  // one bound per segment suffices
    }""")],
    demo=r'''
#include "demo.hpp"
int main() {
  auto m = Coasting({2}, {{0.5, 0.5}, {-0.5, -0.5}});
  SwervePathBuilder b;
  SwerveDrivetrain d{m.mass, m.moi, {{{0.5, 0.5}, 0.05, 50, 1}, {{-0.5, -0.5}, 0.05, 100, 1}}};
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.WptInitialGuessPoint(1, {1, 0, {0.0}});
  b.ControlIntervalCounts({2});
  rec::Capture c{b, 2};
  m.dt = {0.15};
  auto st = m.Simulate();
  REQUIRE(c.At(st).Feasible());
  m.dt = {0.25};
  st = m.Simulate();
  REQUIRE(!c.At(st).Feasible());
}
''')
bug("C15-running-minimum", prop="C15",
    needs="modules of unequal speed listed fastest last",
    breaks="a module's speed limit is the slowest of those listed up to it, so the listing order matters",
    edits=[(GEN, """    auto vWrtRobot = v.RotateBy(-theta);
""", """    auto vWrtRobot = v.RotateBy(-theta);
    double maxWheelVelocity = INFINITY;
"""), (GEN, """      double maxWheelVelocity = wheelRadius * wheelMaxAngularVelocity;
""", """      maxWheelVelocity =
          std::min(maxWheelVelocity, wheelRadius * wheelMaxAngularVelocity);
""")],
    demo=r'''
#include "demo.hpp"
int main() {
  for (bool swap : {false, true}) {
    std::vector<rec::V2> at{{0.0, 0.05}, {0.5, -2.0}};
    double w[2] = {20, 200};
    if (swap) { std::swap(at[0], at[1]); std::swap(w[0], w[1]); }
    auto m = Coasting({2}, at);
    m.om0 = 1;
    SwervePathBuilder b;
    b.SetDrivetrain({m.mass, m.moi, {{{at[0].x, at[0].y}, 0.05, w[0], 1}, {{at[1].x, at[1].y}, 0.05, w[1], 1}}});
    b.WptInitialGuessPoint(0, {0, 0, {0.0}});
    b.WptInitialGuessPoint(1, {1, 0, {0.0}});
    b.ControlIntervalCounts({2});
    rec::Capture c{b, 2};
    auto st = m.Simulate();
    REQUIRE(c.At(st).Feasible());
  }
}
''')
bug("C16-heading-difference", prop="C16",
    needs="a guess whose heading crosses half a turn",
    breaks="the guessed turn rate is a difference of wrapped angles and jumps by a full turn",
    edits=[(GEN, """        Rotation2d{thetacos, thetasin}
            .RotateBy(-Rotation2d{last_thetacos, last_thetasin})
            .Radians() /""", """        (Rotation2d{thetacos, thetasin}.Radians() -
         Rotation2d{last_thetacos, last_thetasin}.Radians()) /""")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.WptInitialGuessPoint(0, {0, 0, {3.0}});
  b.WptInitialGuessPoint(1, {1, 0, {3.6}});
  b.ControlIntervalCounts({6});
  rec::Capture c{b, 4};
  for (size_t i = 1; i <= 6; ++i) REQUIRE(Close(c.initial.om[i], c.initial.om[1], 1e-6));
}
''')
bug("C17-flush-tiny", prop="C17",
    needs="a solver result of tiny magnitude",
    breaks="tiny values are reported as zero",
    edits=[(GEN, "    valueRowVector.push_back(expression.Value());",
            "    double value = expression.Value();\n    // Do not report numerical noise\n    valueRowVector.push_back(std::abs(value) < 1e-9 ? 0.0 : value);")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({3});
  SwerveTrajectoryGenerator g{b};
  rec::SolverScope sc{[](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    double v = 1e-10;
    for (auto& d : p.decisionVariables) d.SetValue(v += 1e-13);
    return rec::Status(rec::SolverExitCondition::kSuccess);
  }};
  auto s = g.Generate().value();
  for (double v : s.ax) REQUIRE(v > 0);
  for (auto& f : s.moduleFX) for (double v : f) REQUIRE(v > 0);
}
''')
bug("C18-partial-on-timeout", prop="C18",
    needs="a solver that runs out of iterations",
    breaks="an unconverged result is returned as a solution when the iteration limit is hit",
    edits=[(GEN, "  if (static_cast<int>(status.exitCondition) < 0 ||", "  if ((static_cast<int>(status.exitCondition) < 0 &&\n       status.exitCondition !=\n           sleipnir::SolverExitCondition::kMaxIterationsExceeded) ||")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  for (int e = -7; e <= 2; ++e) {
    SwerveTrajectoryGenerator g{b};
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) { return rec::Status(static_cast<rec::SolverExitCondition>(e)); }};
    auto r = g.Generate();
    REQUIRE(r.has_value() == (e == 0 || e == 1));
    if (!r) REQUIRE(r.error() == sleipnir::ToMessage(static_cast<rec::SolverExitCondition>(e)));
  }
}
''')
bug("C18-retry", prop="C18",
    needs="a solver that gives up as locally infeasible the first time",
    breaks="the solver is silently run a second time with a looser tolerance",
    edits=[(GEN, """  if (static_cast<int>(status.exitCondition) < 0 ||""", """  if (status.exitCondition ==
      sleipnir::SolverExitCondition::kLocallyInfeasible) {
    // Try once more from where the solver stopped
    status = problem.Solve({.tolerance = 1e-3, .diagnostics = diagnostics});
  }

  if (static_cast<int>(status.exitCondition) < 0 ||""")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  SwerveTrajectoryGenerator g{b};
  int runs = 0;
  rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) {
    return rec::Status(runs++ == 0 ? rec::SolverExitCondition::kLocallyInfeasible : rec::SolverExitCondition::kSuccess); }};
  auto r = g.Generate();
  REQUIRE(!r && runs == 1);
}
''')
bug("C19-float-time", prop="C19",
    needs="a trajectory long enough for single precision to round its timestamps",
    breaks="timestamps accumulate in single precision and drift from the sum of the steps",
    edits=[(HT, "    double ts = 0.0;\n    for", "    float ts = 0.0f;\n    for")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwerveSolution s;
  s.dt.assign(200, 0.1);
  for (auto* v : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) v->assign(201, 1.0);
  s.moduleFX.resize(201);
  s.moduleFY.resize(201);
  HolonomicTrajectory t{s};
  for (size_t i = 0; i < 201; ++i) REQUIRE(Close(t.samples[i].timestamp, i * 0.1, 1e-12));
}
''')
bug("C20-newest-first", prop="C20",
    needs="two or more progress callbacks",
    breaks="callbacks are called newest first",
    edits=[(PB, "  path.callbacks.push_back(callback);", "  path.callbacks.insert(path.callbacks.begin(), callback);")],
    demo=r'''
#include "demo.hpp"
#include <thread>
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  std::string order;
  b.AddIntermediateCallback([&](SwerveSolution&, int64_t) { order += "a"; });
  b.AddIntermediateCallback([&](SwerveSolution&, int64_t) { order += "b"; });
  SwerveTrajectoryGenerator g{b};
  rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    std::this_thread::sleep_for(std::chrono::milliseconds(40));
    p.Iterate(0);
    return rec::Status(rec::SolverExitCondition::kSuccess);
  }};
  REQUIRE(g.Generate().has_value());
  REQUIRE(order == "ab");
}
''')
bug("C17-stale-steps", prop="C17",
    needs="two solutions built on one thread whose time step lists have the same length",
    breaks="later solutions report the time steps of the first one",
    edits=[(GEN, "  return SwerveSolution{dtPerSamp,\n", "  // Reports reuse one set of time steps per thread\n  static thread_local std::vector<double> lastDt;\n  if (lastDt.size() != dtPerSamp.size()) {\n    lastDt = dtPerSamp;\n  }\n\n  return SwerveSolution{lastDt,\n")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({3});
  double v = 0.1;
  rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    for (auto& d : p.decisionVariables) d.SetValue(v);
    return rec::Status(rec::SolverExitCondition::kSuccess);
  }};
  SwerveTrajectoryGenerator g{b};
  REQUIRE(g.Generate().value().dt.at(0) == 0.1);
  v = 0.2;
  REQUIRE(g.Generate().value().dt.at(0) == 0.2);
}
''')
bug("C21-consumed", prop="C21",
    needs="two generations running when cancellation is requested",
    breaks="the first generation to notice the request consumes it and the others run on",
    edits=[(GEN, "    return trajopt::GetCancellationFlag();", "    return trajopt::GetCancellationFlag().exchange(0) != 0;")],
    demo=r'''
#include "demo.hpp"
#include <barrier>
#include <thread>
int main() {
  std::barrier gate{3};
  std::atomic<int> stopped{0};
  auto run = [&] {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    SwerveTrajectoryGenerator g{b};
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      gate.arrive_and_wait();  // both run
      gate.arrive_and_wait();  // cancelled
      bool stop = p.Iterate(0);
      return rec::Status(stop ? rec::SolverExitCondition::kCallbackRequestedStop : rec::SolverExitCondition::kSuccess);
    }};
    if (!g.Generate()) ++stopped;
  };
  std::thread a{run}, c{run};
  gate.arrive_and_wait();
  GetCancellationFlag() = 1;
  gate.arrive_and_wait();
  a.join();
  c.join();
  REQUIRE(stopped == 2);
}
''')
bug("C21-stale", prop="C21",
    needs="a cancellation request between two generations",
    breaks="a request made before a generation starts stops that generation, because the flag is only cleared afterwards",
    edits=[(GEN, "  GetCancellationFlag() = 0;\n", ""), (GEN, """  if (static_cast<int>(status.exitCondition) < 0 ||""", """  // Do not leak this request into the next generation
  GetCancellationFlag() = 0;

  if (static_cast<int>(status.exitCondition) < 0 ||""")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  SwerveTrajectoryGenerator g{b};
  rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    return rec::Status(p.Iterate(0) ? rec::SolverExitCondition::kCallbackRequestedStop : rec::SolverExitCondition::kSuccess);
  }};
  REQUIRE(g.Generate().has_value());
  GetCancellationFlag() = 1;
  REQUIRE(g.Generate().has_value());
}
''')
bug("C22-scratch", prop="C22", flags="-O1 -g -fsanitize=thread",
    needs="two generations that finish at the same time",
    breaks="solution rows are collected in one scratch vector shared by all threads",
    edits=[(GEN, "  std::vector<double> valueRowVector;\n", "  static std::vector<double> valueRowVector;\n  valueRowVector.clear();\n")],
    demo=r'''
#include "demo.hpp"
#include <barrier>
#include <thread>
int main() {
  std::barrier gate{2};
  std::atomic<int> wrong{0};
  auto run = [&](double v) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 1, 0, 0);
    SwerveTrajectoryGenerator g{b};
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      for (auto& d : p.decisionVariables) d.SetValue(v);
      gate.arrive_and_wait();
      return rec::Status(rec::SolverExitCondition::kSuccess);
    }};
    for (int i = 0; i < 50; ++i) {
      auto s = g.Generate().value();
      for (double x : s.x) wrong += x != v;
    }
  };
  std::thread a{run, 1.0}, c{run, 2.0};
  a.join();
  c.join();
  REQUIRE(wrong == 0);
}
''')
bug("C23-static-width", prop="C23",
    needs="a generator for a narrow robot followed by one for a wide robot",
    breaks="the module spacing of earlier generators in the process limits later ones",
    edits=[(GEN, "  double minWidth = INFINITY;\n", "  static thread_local double minWidth = INFINITY;\n")],
    demo=r'''
#include "demo.hpp"
static bool Accepts(double half, double dt) {
  auto m = Coasting({2}, {{half, half}, {-half, -half}});
  m.dt = {dt};
  auto s = Model(m, 0.05, 100);
  rec::Capture c{s.builder, 2};
  auto st = s.motion.Simulate();
  return c.At(st).Feasible();
}
int main() {
  REQUIRE(Accepts(0.5, 0.15));
  REQUIRE(!Accepts(0.1, 0.15));
  REQUIRE(Accepts(0.5, 0.15));
}
''')

# Demonstrations for drafts of m_wave.py.
extend("C21-ctor-clears", demo=r'''
#include "demo.hpp"
static SwervePathBuilder Path() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 4, 1, 1);
  b.ControlIntervalCounts({3});
  return b;
}
int main() {
  for (bool other : {false, true}) {
    bool first = true, second = false;
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      first = p.Iterate(0);
      GetCancellationFlag() = 1;
      if (other) SwerveTrajectoryGenerator g{Path()};
      second = p.Iterate(1);
      return rec::Status(second ? rec::SolverExitCondition::kCallbackRequestedStop : rec::SolverExitCondition::kSuccess);
    }};
    SwerveTrajectoryGenerator g{Path()};
    auto r = g.Generate();
    REQUIRE(!first && second && !r.has_value());
  }
}
''')
extend("C21-toggle", demo=r'''
#include "demo.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
int main() {
  for (int times = 0; times < 5; ++times) {
    auto b = rsffi::swerve_path_builder_new();
    rsffi::SwerveDrivetrain d;
    d.mass = 45;
    d.moi = 6;
    rsffi::SwerveModule m;
    m.x = 0.1; m.y = 0.2; m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 70; m.wheel_max_torque = 2;
    d.modules.push_back(m);
    b->set_drivetrain(d);
    b->pose_wpt(0, 0, 0, 0);
    b->pose_wpt(1, 5, 0, 0);
    bool stopped = false;
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      p.Iterate(0);
      for (int i = 0; i < times; ++i) rsffi::cancel_all();
      stopped = p.Iterate(1);
      return rec::Status(stopped ? rec::SolverExitCondition::kCallbackRequestedStop : rec::SolverExitCondition::kSuccess);
    }};
    bool ok = true;
    try { b->generate(false, 0); } catch (const std::exception&) { ok = false; }
    REQUIRE(stopped == (times > 0) && ok == (times == 0));
  }
}
''')
extend("C28-empty-guess", demo=r'''
#include "demo.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
int main() {
  for (size_t n : {2, 1, 0}) {
    auto b = rsffi::swerve_path_builder_new();
    rsffi::SwerveDrivetrain d;
    d.mass = 45;
    d.moi = 6;
    rsffi::SwerveModule m;
    m.x = 0.1; m.y = 0.2; m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 70; m.wheel_max_torque = 2;
    d.modules.push_back(m);
    b->set_drivetrain(d);
    b->pose_wpt(0, 1, 0, 0);
    rust::Vec<rsffi::Pose2d> guess;
    for (size_t i = 0; i < n; ++i) {
      rsffi::Pose2d p;
      p.x = 1; p.y = 2; p.heading = 0;
      guess.push_back(p);
    }
    b->sgmt_initial_guess_points(0, guess);
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) { return rec::Status(rec::SolverExitCondition::kSuccess); }};
    REQUIRE(b->generate(false, 0).samples.size() == 41);
  }
}
''')
extend("C31-callback-ref", flags="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all", demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 4, 1, 1);
  int calls = 0;
  std::vector<double> big(100, 1.0);
  b.AddIntermediateCallback([&calls, big](SwerveSolution&, int64_t) { calls += static_cast<int>(big[99]); });
  for (int i = 0; i < 7; ++i) b.AddIntermediateCallback(b.GetPath().callbacks[0]);
  REQUIRE(b.GetPath().callbacks.size() == 8);
  SwerveSolution s;
  for (auto& f : b.GetPath().callbacks) f(s, 0);
  REQUIRE(calls == 8);
}
''')
extend("C10-first-acceleration", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t w : {2, 1, 0}) {
    auto s = Model(Coasting({2, 2}));
    s.builder.WptConstraint(w, LinearAccelerationMaxMagnitudeConstraint{0.5});
    rec::Capture c{s.builder, 4};
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
    auto before = c.At(st).Violated();
    auto fast = st;
    size_t i = 2 * w;
    fast.ax[i] = 0.3;
    auto mild = c.At(fast).Violated();
    fast.ax[i] = 3;
    REQUIRE(c.At(fast).Violated() > mild && mild > before);
  }
}
''')
extend("C14-tiny-offset", demo=r'''
#include "demo.hpp"
static bool Admits(double gap, double h) {
  auto m = Coasting({2}, {{0, 0}, {gap, 0.5}, {1, 1}});
  m.dt = {h};
  auto s = Model(m, 0.05, 100, 50);  // wheels up to 5 m/s
  rec::Capture c{s.builder, 3};
  auto st = s.motion.Simulate();
  return c.At(st).Feasible(1e-9, 1e-9);
}
int main() {
  for (double gap : {0.3, 0.01, 5e-4}) {
    REQUIRE(Admits(gap, gap / 5 * 0.98));
    REQUIRE(!Admits(gap, gap / 5 * 1.02));
  }
}
''')
extend("C16-dt-start", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t n : {5, 1, 3, 40}) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 4, 1, 1);
    b.ControlIntervalCounts({n});
    double step = 0;
    SwerveTrajectoryGenerator g{b};
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) { return rec::Status(rec::SolverExitCondition::kSuccess); }};
    auto r = g.Generate();
    REQUIRE(r.has_value());
    step = r->dt[0];
    REQUIRE(step > 0 && Close(step * static_cast<double>(n), 5));
  }
}
''')

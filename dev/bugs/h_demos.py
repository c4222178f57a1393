# Demonstrations for the drafts of f_more.py and g_more.py which are worth planting.
extend("C01-narrow", kind="header", demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  std::vector<size_t> N(4, 30000);
  size_t at = 1;
  for (size_t w = 1; w <= 4; ++w) {
    REQUIRE(GetIndex(N, w, 0) == at);
    REQUIRE(GetIndex(N, w, 29999) == at + 29999);
    at += 30000;
  }
}
''')
extend("C02-overflow", kind="header", demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  for (size_t n : {1, 100, 5000}) {
    auto v = Linspace(-1.0, 2.0, n);
    REQUIRE(v.size() == n);
    REQUIRE(Close(v.back(), 2.0));
  }
}
''')
extend("C03-half-turn", kind="header", demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  const double pi = std::numbers::pi;
  for (double d : {0.3, 3.0, 3.145, 4.0, -3.145, 9.4}) {
    auto v = AngleLinspace(0.5, 0.5 + d, 4);
    REQUIRE(std::abs(std::remainder(v.back() - 0.5 - d, 2 * pi)) < 1e-9);
    REQUIRE(std::abs(v.back() - 0.5) <= pi + 1e-9);
  }
}
''')
extend("C08-near-point", demo=r'''
#include "demo.hpp"
int main() {
  // Aiming exactly at the limit of the tolerance, far from the point and close to it.
  for (double d : {5.0, 0.05}) {
    auto m = Coasting({1});
    m.th0 = 0.1999;
    auto s = Model(m);
    s.builder.WptConstraint(0, PointAtConstraint{{d, 0.0}, 0.2});
    rec::Capture c{s.builder, 4};
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible(1e-9, 1e-9));
    s.motion.th0 = 0.3;
    st = s.motion.Simulate();
    REQUIRE(!c.At(st).Feasible(1e-9, 1e-9));
  }
}
''')
extend("C10-range-last", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t segs : {2, 4}) {
    auto m = Coasting(std::vector<size_t>(segs, 2));
    auto s = Model(m);
    s.builder.SgmtConstraint(0, segs, LinearVelocityMaxMagnitudeConstraint{0.5});
    rec::Capture c{s.builder, 4};
    for (size_t i = 0; i < c.samples; ++i) {
      rec::State st;
      st.Resize(c.samples, segs, 4);
      for (auto& v : st.c) v = 1;
      for (auto& v : st.dt) v = 0.01;
      int calm = c.At(st).Violated();
      st.vx[i] = 2;
      rec::Capture plain{Model(Coasting(std::vector<size_t>(segs, 2))).builder, 4};
      rec::State quiet = st;
      quiet.vx[i] = 0;
      int with = c.At(st).Violated() - calm, without = plain.At(st).Violated() - plain.At(quiet).Violated();
      REQUIRE(with > without);
    }
  }
}
''')
extend("C12-fifth-module", demo=r'''
#include "demo.hpp"
int main() {
  std::vector<rec::V2> at{{1.0, 0.8}, {0.6, -1.0}, {-1.0, 0.4}, {-0.6, -0.7}, {0.2, 0.0}, {-0.2, -0.4}};
  for (size_t n : {4, 6}) {
    auto m = Coasting({3}, {at.begin(), at.begin() + static_cast<long>(n)});
    m.robotForce[1][n - 1] = {0, 20};
    auto s = Model(m);
    rec::Capture c{s.builder, n};
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
  }
}
''')
extend("C13-weak-force", demo=r'''
#include "demo.hpp"
static bool Admits(double torque, double force) {
  auto m = Coasting({2});
  m.robotForce[1][1] = {force, 0};
  auto s = Model(m, 0.05, 400, torque);
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  return c.At(st).Feasible(1e-6, 1e-12);
}
int main() {
  for (double torque : {5.0, 0.5, 0.05, 0.005, 0.0005, 0.00005}) {
    REQUIRE(Admits(torque, torque / 0.05 * 0.99));
    REQUIRE(!Admits(torque, torque / 0.05 * 1.05));
  }
}
''')
extend("C15-neighbours", demo=r'''
#include "demo.hpp"
static bool Admits(std::vector<rec::V2> modules, double h) {
  auto m = Coasting({2}, std::move(modules));
  m.dt = {h};
  auto s = Model(m, 0.05, 100, 50);
  rec::Capture c{s.builder, m.modules.size()};
  auto st = s.motion.Simulate();
  return c.At(st).Feasible(1e-9, 1e-9);
}
int main() {
  rec::V2 a{0.0, 0.0}, b{0.9, 0.8}, d{0.1, 0.15};
  for (double h : {0.01, 0.03, 0.1}) {
    bool first = Admits({a, d, b}, h);
    REQUIRE(Admits({a, b, d}, h) == first);
    REQUIRE(Admits({b, d, a}, h) == first);
  }
}
''')
extend("C16-dt-mismatch", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t n : {10, 300}) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 4, 1, 1);
    b.PoseWpt(2, 1, 3, 2);
    b.ControlIntervalCounts({n, n});
    auto guess = b.CalculateInitialGuess();
    rec::Capture c{b, 4};
    auto& st = c.initial;
    for (size_t i = 1; i < c.samples; ++i) {
      double h = guess.dt.at(i < guess.dt.size() ? i : i - 1);
      REQUIRE(Close(st.ax[i] * h, st.vx[i] - st.vx[i - 1], 1e-6));
      REQUIRE(Close(st.ay[i] * h, st.vy[i] - st.vy[i - 1], 1e-6));
    }
  }
}
''')
extend("C23-by-reference", demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 4, 1, 1);
  b.WptConstraint(1, LinearVelocityMaxMagnitudeConstraint{1.0});
  b.ControlIntervalCounts({3});
  size_t n[2];
  for (auto& k : n) {
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      k = p.inequalityConstraints.size();
      return rec::Status(rec::SolverExitCondition::kSuccess);
    }};
    REQUIRE(b.GetPath().waypoints.size() == 2);
    SwerveTrajectoryGenerator g{b};
    REQUIRE(g.Generate().has_value());
  }
  REQUIRE(n[0] == n[1]);
}
''')
extend("C28-counts", kind="ffi", demo=r'''
#include "demo.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
int main() {
  for (size_t n : {5, 300}) {
    auto b = rsffi::swerve_path_builder_new();
    rsffi::SwerveDrivetrain d;
    d.mass = 45;
    d.moi = 6;
    rsffi::SwerveModule m;
    m.x = 0.1; m.y = 0.2; m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 70; m.wheel_max_torque = 2;
    d.modules.push_back(m);
    b->set_drivetrain(d);
    b->pose_wpt(0, 0, 0, 0);
    b->pose_wpt(1, 5, 0, 0);
    rust::Vec<size_t> counts;
    counts.push_back(n);
    b->set_control_interval_counts(counts);
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) { return rec::Status(rec::SolverExitCondition::kSuccess); }};
    REQUIRE(b->generate(false, 0).samples.size() == n + 1);
  }
}
''')
extend("C29-error-text", kind="ffi", demo=r'''
#include "demo.hpp"
#include <cstring>
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>
int main() {
  for (auto e : {rec::SolverExitCondition::kTimeout, rec::SolverExitCondition::kTooFewDOFs, rec::SolverExitCondition::kLocallyInfeasible, rec::SolverExitCondition::kMaxIterationsExceeded}) {
    auto b = rsffi::swerve_path_builder_new();
    rsffi::SwerveDrivetrain d;
    d.mass = 45;
    d.moi = 6;
    rsffi::SwerveModule m;
    m.x = 0.1; m.y = 0.2; m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 70; m.wheel_max_torque = 2;
    d.modules.push_back(m);
    b->set_drivetrain(d);
    b->pose_wpt(0, 0, 0, 0);
    b->pose_wpt(1, 5, 0, 0);
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig&) { return rec::Status(e); }};
    std::string said;
    try { (void)b->generate(false, 0); } catch (const std::exception& x) { said = x.what(); }
    REQUIRE(static_cast<int>(e) >= 0 || said == std::string{sleipnir::ToMessage(e)});
  }
}
''')
extend("C27-cross", kind="header", demo=r'''
#include "demo.hpp"
#include <trajopt/geometry/Translation2.hpp>
int main() {
  Translation2d a{2, 3}, b{5, -7};
  Translation2v av{a}, bv{b};
  double want = a.Cross(b);
  REQUIRE(Close(want, -29));
  REQUIRE(Close(a.Cross(bv).Value(), want));
  REQUIRE(Close(av.Cross(b).Value(), want));
  REQUIRE(Close(av.Cross(bv).Value(), want));
}
''')
extend("C11-tail", demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({50}));
  s.motion.vx0 = 1;
  rec::Capture c{s.builder, 4};
  auto st = s.motion.Simulate();
  REQUIRE(c.At(st).Feasible());
  for (size_t i = 1; i < c.samples; ++i) {
    st = s.motion.Simulate({rec::Fault::kX, i, 0.1});
    REQUIRE(!c.At(st).Feasible());
  }
}
''')
extend("C14-last-double", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t segs : {2, 5}) {
    auto s = Model(Coasting(std::vector<size_t>(segs, 3)));
    rec::Capture c{s.builder, 4};
    for (size_t k = 0; k < segs; ++k) {
      for (double& h : s.motion.dt) h = 0.01;
      auto st = s.motion.Simulate();
      double before = c.At(st).cost;
      st.dt[k] = 0.02;
      REQUIRE(Close(c.At(st).cost - before, 3 * 0.01, 1e-9));
    }
  }
}
''')
extend("C18-sticky-diagnostics", demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 4, 1, 1);
  b.ControlIntervalCounts({3});
  for (bool asked : {false, true, false, true}) {
    bool seen = !asked;
    rec::SolverScope sc{[&](rec::OptimizationProblem&, const rec::SolverConfig& cfg) { seen = cfg.diagnostics; return rec::Status(rec::SolverExitCondition::kSuccess); }};
    SwerveTrajectoryGenerator g{b};
    (void)g.Generate(asked);
    REQUIRE(seen == asked);
  }
}
''')
extend("C26-degrees", kind="header", demo=r'''
#include "demo.hpp"
#include <trajopt/geometry/Rotation2.hpp>
int main() {
  for (double deg : {-179.9995, -179.9, -90.0, 0.0, 179.9995}) {
    double rad = deg / 180 * std::numbers::pi;
    Rotation2d r{std::cos(rad), std::sin(rad)};
    REQUIRE(Close(r.Degrees(), deg, 1e-9));
    REQUIRE(Close(r.Degrees() / 180 * std::numbers::pi, r.Radians(), 1e-9));
  }
}
''')
extend("C32-empty-outline", flags="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -U_GLIBCXX_ASSERTIONS", demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.AddBumpers({0.1, {{0.1, 0.1}, {0.1, -0.1}}});
  for (size_t n : {1, 0}) {
    Obstacle o{0.1, std::vector<Translation2d>(n)};
    try { b.SgmtObstacle(0, 1, o); } catch (const std::exception&) {}
  }
}
''')
ipm = """
#include "demo.hpp"
#include "ipm.hpp"
static SwerveSolution Run(const SwervePathBuilder& b) {
  ipm::Result result;
  rec::SolverScope sc{ipm::AsSolver({}, &result)};
  SwerveTrajectoryGenerator g{b};
  auto r = g.Generate();
  REQUIRE(r.has_value());
  return *r;
}
static void Rest(SwervePathBuilder& b, size_t w) {
  b.WptConstraint(w, LinearVelocityMaxMagnitudeConstraint{0.0});
  b.WptConstraint(w, AngularVelocityMaxMagnitudeConstraint{0.0});
}
"""
e2e = dict(copy=["harness/ipm.hpp"], flags="-O1 -isystem /usr/include/eigen3")
extend("C33-slowest-module", **e2e, demo=ipm + """
// A quarter turn on the spot; the slow module sits near the centre.
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain({45, 6, {{{0.8, 0.6}, 0.05, 60, 2}, {{-0.8, 0.6}, 0.05, 60, 2}, {{-0.6, -0.8}, 0.05, 60, 2}, {{0.1, -0.1}, 0.05, 10, 2}}});
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 0, 0, 1.5);
  Rest(b, 0);
  Rest(b, 1);
  b.ControlIntervalCounts({14});
  auto s = Run(b);
  double most = 0;
  for (double w : s.omega) most = std::max(most, std::abs(w));
  REQUIRE(most > 1.0);
}
""")
extend("C33-interior-speed", **e2e, demo=ipm + """
int main() {
  SwervePathBuilder b;
  auto d = Square(0.05, 60, 8);
  b.SetDrivetrain(d);
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 2.5, 0, 0);
  b.PoseWpt(2, 5, 0, 0);
  Rest(b, 0);
  Rest(b, 2);
  b.ControlIntervalCounts({8, 8});
  auto s = Run(b);
  for (size_t i = 0; i < s.x.size(); ++i)
    for (auto& m : d.modules) {
      double vx = s.vx[i] * s.thetacos[i] + s.vy[i] * s.thetasin[i] - m.translation.Y() * s.omega[i];
      double vy = -s.vx[i] * s.thetasin[i] + s.vy[i] * s.thetacos[i] + m.translation.X() * s.omega[i];
      REQUIRE(std::hypot(vx, vy) <= 3.0 + 1e-3);
    }
}
""")
extend("C33-mirror-bias", **e2e, demo=ipm + """
int main() {
  for (double way : {1.0, -1.0}) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square(0.05, 100, 1));
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 0.2, 2 * way, 0);
    Rest(b, 0);
    Rest(b, 1);
    b.ControlIntervalCounts({12});
    auto s = Run(b);
    double up = 0, down = 0;
    for (size_t i = 0; i < s.x.size(); ++i)
      for (double f : s.moduleFY[i]) {
        up = std::max(up, f);
        down = std::max(down, -f);
      }
    // 1 Nm at 5 cm.
    REQUIRE(up > 19.8);
    REQUIRE(down > 19.8);
  }
}
""")
extend("C33-step-floor", **e2e, demo=ipm + """
// Two centimetres sideways take a fraction of a second.
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square(0.05, 20, 5));
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 0, 0.02, 0);
  Rest(b, 0);
  Rest(b, 1);
  b.ControlIntervalCounts({10});
  auto s = Run(b);
  double T = 0;
  for (double h : s.dt) T += h;
  REQUIRE(T < 0.5);
}
""")

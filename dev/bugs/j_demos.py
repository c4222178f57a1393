# Demonstrations for drafts of i_wave.py.
extend("C20-nine-callbacks", demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.SetDrivetrain(Square());
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 4, 1, 1);
  b.ControlIntervalCounts({3});
  int calls[12] = {};
  for (int i = 0; i < 12; ++i) b.AddIntermediateCallback([&calls, i](SwerveSolution&, int64_t) { ++calls[i]; });
  rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
    for (int k = 0; k < 8; ++k) {
      auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(20);
      while (std::chrono::steady_clock::now() < t) {
      }
      p.Iterate(k);
    }
    return rec::Status(rec::SolverExitCondition::kSuccess);
  }};
  SwerveTrajectoryGenerator g{b};
  (void)g.Generate();
  REQUIRE(calls[0] > 0);
  for (int n : calls) REQUIRE(n == calls[0]);
}
''')
extend("C05-far-waypoint", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t w : {1, 5, 60}) {
    SwervePathBuilder b;
    b.PoseWpt(w, 1, 2, 0.5);
    REQUIRE(b.GetPath().waypoints.size() == w + 1);
    REQUIRE(b.GetControlIntervalCounts() == std::vector<size_t>(w, 40));
  }
}
''')
extend("C10-ninth-constraint", demo=r'''
#include "demo.hpp"
int main() {
  for (int before : {0, 5, 12}) {
    auto s = Model(Coasting({3}));
    for (int i = 0; i < before; ++i) s.builder.SgmtConstraint(0, 1, LinearVelocityMaxMagnitudeConstraint{500.0 + i});
    s.builder.SgmtConstraint(0, 1, AngularVelocityMaxMagnitudeConstraint{0.5});
    rec::Capture c{s.builder, 4};
    s.motion.om0 = 0.4;
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
    for (size_t i = 0; i < c.samples; ++i) {
      auto fast = st, far = st;
      fast.om[i] = 0.6;
      far.om[i] = 0.45;
      REQUIRE(c.At(fast).Violated() > c.At(far).Violated());
    }
  }
}
''')
extend("C06-fourth-bumper", demo=r'''
#include "demo.hpp"
int main() {
  for (int before : {0, 2, 5}) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    for (int i = 0; i < before; ++i) b.AddBumpers({0.1, {{0.0, 0.01 * i}}});
    b.AddBumpers({0.1, {{0.8, 0.0}}});
    b.PoseWpt(1, 0, 0, 0);
    b.SgmtObstacle(0, 1, {0.1, {{3.0, 0.0}}});
    b.ControlIntervalCounts({3});
    rec::Capture c{b, 4};
    auto m = Coasting({3});
    for (size_t i = 0; i < c.samples; ++i) {
      auto clear = m.Simulate(), close = clear;
      clear.x[i] = 1.8;
      close.x[i] = 2.1;
      REQUIRE(c.At(close).Violated() > c.At(clear).Violated());
    }
  }
}
''')
extend("C04-many-points", demo=r'''
#include "demo.hpp"
int main() {
  for (size_t n : {3, 15}) {
    SwervePathBuilder b;
    b.WptInitialGuessPoint(0, {0.0, 0.0, 0.0});
    b.WptInitialGuessPoint(1, {1.0, 0.0, 0.0});
    std::vector<Pose2d> points;
    for (size_t i = 0; i < n; ++i) points.emplace_back(1.0, 2.0 + i, Rotation2d{0.1});
    b.SgmtInitialGuessPoints(0, points);
    b.ControlIntervalCounts({40});
    auto g = b.CalculateInitialGuess();
    for (auto& p : points) {
      bool met = false;
      for (size_t i = 0; i < g.x.size(); ++i) met = met || (Close(g.x[i], p.X()) && Close(g.y[i], p.Y()));
      REQUIRE(met);
    }
  }
}
''')
extend("C21-late-cancel", demo=r'''
#include "demo.hpp"
int main() {
  for (int at : {3, 99, 130, 777}) {
    SwervePathBuilder b;
    b.SetDrivetrain(Square());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 4, 1, 1);
    b.ControlIntervalCounts({3});
    SwerveTrajectoryGenerator g{b};
    GetCancellationFlag() = 0;
    int stoppedAt = -1;
    rec::SolverScope sc{[&](rec::OptimizationProblem& p, const rec::SolverConfig&) {
      for (int k = 0; k < 1000; ++k) {
        if (k == at) GetCancellationFlag() = 1;
        if (p.Iterate(k)) {
          stoppedAt = k;
          return rec::Status(rec::SolverExitCondition::kCallbackRequestedStop);
        }
      }
      return rec::Status(rec::SolverExitCondition::kSuccess);
    }};
    (void)g.Generate();
    REQUIRE(stoppedAt == at);
  }
}
''')
extend("C15-many-modules", demo=r'''
#include "demo.hpp"
int main() {
  std::vector<rec::V2> at;
  for (int j = 0; j < 8; ++j) at.push_back({0.4 * j - 1, 0.4 * ((j * 3) % 8) - 1});
  // The seventh module pushes; naming it first must not change what is admitted.
  for (size_t place : {0, 3, 6, 7}) {
    auto modules = at;
    std::rotate(modules.begin() + static_cast<long>(std::min<size_t>(place, 6)), modules.begin() + 6, modules.begin() + 7);
    if (place == 7) std::swap(modules[6], modules[7]);
    auto m = Coasting({3}, modules);
    m.robotForce[1][place] = {at[6].x * 5, at[6].y * 5 + 3};
    auto s = Model(m);
    rec::Capture c{s.builder, 8};
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
  }
}
''')
extend("C09-tiny-distance", demo=r'''
#include "demo.hpp"
int main() {
  for (double min : {1.0, 0.05, 0.005}) {
    auto s = Model(Coasting({2}));
    s.builder.WptConstraint(1, PointPointConstraint{{0.0, 0.0}, {3.0, 1.0}, min});
    rec::Capture c{s.builder, 4};
    s.motion.y0 = 1;
    s.motion.x0 = 3 - 1.1 * min;
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible(1e-9, 1e-9));
    s.motion.x0 = 3 - 0.6 * min;
    st = s.motion.Simulate();
    REQUIRE(!c.At(st).Feasible(1e-9, 1e-9));
  }
}
''')
extend("C14-wide-robot", demo=r'''
#include "demo.hpp"
static bool Admits(double size, double h) {
  std::vector<rec::V2> at;
  for (int j = 0; j < 5; ++j) at.push_back({size * (j - 2), size * ((j * 2) % 5 - 2)});
  auto m = Coasting({2}, at);
  m.dt = {h};
  auto s = Model(m, 0.05, 100, 50);  // wheels up to 5 m/s
  rec::Capture c{s.builder, 5};
  auto st = s.motion.Simulate();
  return c.At(st).Feasible(1e-9, 1e-9);
}
int main() {
  for (double size : {0.3, 1.0, 4.0}) {
    REQUIRE(Admits(size, size / 5 * 0.98));
    REQUIRE(!Admits(size, size / 5 * 1.02));
  }
}
''')
extend("C12-far-samples", demo=r'''
#include "demo.hpp"
int main() {
  auto s = Model(Coasting({80}));
  rec::Capture c{s.builder, 4};
  for (size_t i = 0; i < c.samples; ++i) {
    auto st = s.motion.Simulate();
    REQUIRE(c.At(st).Feasible());
    st.fx[i][0] = 5;
    st.fx[i][1] = -5;  // a couple without turning
    REQUIRE(!c.At(st).Feasible());
  }
}
''')

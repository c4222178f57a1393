// Helpers shared by the demonstrations.
#pragma once
#include <cstdio>
#include <cstdlib>

#include "rec.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/util/Cancellation.hpp>

using namespace trajopt;

#define REQUIRE(c)                                                        \
  do {                                                                    \
    if (!(c)) {                                                           \
      std::fprintf(stderr, "demo: line %d: %s\n", __LINE__, #c);          \
      std::exit(1);                                                       \
    }                                                                     \
  } while (0)

inline bool Close(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }

inline SwerveDrivetrain Square(double r = 0.04, double w = 100, double t = 1) {
  return {45, 6, {{{0.6, 0.6}, r, w, t}, {{0.6, -0.6}, r, w, t}, {{-0.6, 0.6}, r, w, t}, {{-0.6, -0.6}, r, w, t}}};
}
/// A path and a motion for it which respects the model and generous limits.
struct Setup {
  SwervePathBuilder builder;
  rec::Motion motion;
};
inline Setup Model(rec::Motion m, double radius = 0.05, double wmax = 400, double tmax = 50) {
  Setup s;
  s.motion = std::move(m);
  SwerveDrivetrain d{s.motion.mass, s.motion.moi, {}};
  for (auto& p : s.motion.modules) d.modules.push_back({{p.x, p.y}, radius, wmax, tmax});
  s.builder.SetDrivetrain(d);
  for (size_t k = 0; k <= s.motion.N.size(); ++k) s.builder.WptInitialGuessPoint(k, {1.0 * k, 0.0, {0.0}});
  auto n = s.motion.N;
  s.builder.ControlIntervalCounts(std::move(n));
  return s;
}
inline rec::Motion Coasting(std::vector<size_t> N, std::vector<rec::V2> modules = {{0.6, 0.6}, {0.6, -0.6}, {-0.6, 0.6}, {-0.6, -0.6}}) {
  rec::Motion m;
  m.N = std::move(N);
  m.modules = std::move(modules);
  m.mass = 45;
  m.moi = 6;
  m.dt.assign(m.N.size(), 0.01);
  m.robotForce.assign(m.Samples(), std::vector<rec::V2>(m.modules.size()));
  return m;
}

// Random valid paths for the workloads that do not need a specific one.
#pragma once

#include "rec.hpp"
#include <trajopt/drivetrain/SwerveDrivetrain.hpp>
#include <trajopt/path/SwervePathBuilder.hpp>

namespace paths {

inline double Rem(double a) { return std::remainder(a, 2 * rec::kPi); }

struct Options {
  int maxSegs = 3;
  int maxN = 5;
  bool manyCounts = false;  // also long segments
  bool obstacles = true;
};
struct Path {
  trajopt::SwervePathBuilder builder;
  size_t modules = 0;
};

inline trajopt::SwerveDrivetrain Drivetrain(mon::Rng& r, size_t M) {
  trajopt::SwerveDrivetrain d{r.uni(5, 80), r.uni(0.5, 10), {}};
  double w = r.chance(0.3) ? r.logUni(0.05, 20) : 1.0;
  for (size_t j = 0; j < M; ++j)
    d.modules.push_back({{w * r.round(-0.6, 0.6), w * r.round(-0.6, 0.6)}, r.uni(0.02, 0.1), r.uni(20, 200), r.uni(0.3, 3)});
  return d;
}
inline trajopt::Pose2d Pose(mon::Rng& r) { return {r.uni(-10, 10), r.uni(-10, 10), trajopt::Rotation2d{r.chance(0.3) ? static_cast<double>(r.range(-4, 4)) * rec::kPi / 4 : r.uni(-9, 9)}}; }

inline trajopt::Obstacle RandomObstacle(mon::Rng& r) {
  trajopt::Obstacle o{r.uni(0, 0.5), {}};
  int n = static_cast<int>(r.range(1, 5));
  for (int i = 0; i < n; ++i) o.points.push_back({r.uni(-8, 8), r.uni(-8, 8)});
  return o;
}
inline trajopt::Bumpers RandomBumpers(mon::Rng& r) {
  trajopt::Bumpers b{r.uni(0, 0.3), {}};
  int n = static_cast<int>(r.range(1, 5));
  for (int i = 0; i < n; ++i) b.points.push_back({r.uni(-0.7, 0.7), r.uni(-0.7, 0.7)});
  return b;
}
inline trajopt::Constraint RandomConstraint(mon::Rng& r) {
  using namespace trajopt;
  auto p = [&] { return Translation2d{r.uni(-5, 5), r.uni(-5, 5)}; };
  switch (r.range(0, 9)) {
    case 0: return AngularVelocityMaxMagnitudeConstraint{r.uni(0, 5)};
    case 1: return LinearAccelerationMaxMagnitudeConstraint{r.uni(0, 5)};
    case 2: return LinearVelocityDirectionConstraint{r.uni(-5, 5)};
    case 3: return LinearVelocityMaxMagnitudeConstraint{r.uni(0, 5)};
    case 4: return LinePointConstraint{p(), p(), p(), r.uni(0.1, 1)};
    case 5: return PointAtConstraint{p(), r.uni(0.01, 1)};
    case 6: return PointLineConstraint{p(), p(), p(), r.uni(0.1, 1)};
    case 7: return PointPointConstraint{p(), p(), r.uni(0.1, 1)};
    case 8: return PoseEqualityConstraint{r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)};
    default: return TranslationEqualityConstraint{r.uni(-5, 5), r.uni(-5, 5)};
  }
}

inline Path Random(mon::Rng& r, const Options& o = {}) {
  Path p;
  auto& b = p.builder;
  // In some paths waypoints and guesses coincide, entirely or in part.
  bool coincide = r.chance(0.25);
  std::vector<trajopt::Pose2d> used;
  auto Pose = [&](mon::Rng& rr) {
    auto q = paths::Pose(rr);
    if (coincide && !used.empty() && rr.chance(0.6)) {
      auto like = rr.chance(0.7) ? used.back() : rr.pick(used);
      int what = static_cast<int>(rr.range(0, 4));
      if (what == 0) q = like;
      else q = {what == 2 ? q.X() : like.X(), what == 3 ? q.Y() : like.Y(), what == 4 ? q.Rotation() : what == 1 ? like.Rotation() : q.Rotation()};
    }
    used.push_back(q);
    return q;
  };
  size_t segs = static_cast<size_t>(r.range(r.chance(0.1) ? 0 : 1, o.maxSegs));
  if (o.maxSegs > 1 && r.chance(0.02)) segs = static_cast<size_t>(r.range(o.maxSegs, 24));
  p.modules = static_cast<size_t>(r.range(r.chance(0.1) ? 0 : 1, r.chance(0.02) ? 12 : 5));
  b.SetDrivetrain(Drivetrain(r, p.modules));
  int bumpers = static_cast<int>(r.range(0, 2));
  if (o.obstacles)
    for (int i = 0; i < bumpers; ++i) b.AddBumpers(RandomBumpers(r));
  std::vector<size_t> order;
  for (size_t w = 0; w <= segs; ++w) order.push_back(w);
  r.shuffle(order);
  for (size_t w : order) {
    auto g = Pose(r);
    switch (r.range(0, 2)) {
      case 0: b.PoseWpt(w, g.X(), g.Y(), coincide && r.chance(0.5) ? g.Rotation().Radians() : r.uni(-9, 9)); break;
      case 1: b.TranslationWpt(w, g.X(), g.Y(), coincide && r.chance(0.5) ? g.Rotation().Radians() : r.uni(-9, 9)); break;
      default: b.WptInitialGuessPoint(w, g);
    }
  }
  for (size_t k = 0; k < segs; ++k) {
    if (r.chance(0.4)) {
      std::vector<trajopt::Pose2d> pts;
      for (int i = static_cast<int>(r.range(1, r.chance(0.02) ? 20 : 4)); i > 0; --i) pts.push_back(Pose(r));
      b.SgmtInitialGuessPoints(k, pts);
    }
    if (r.chance(0.3)) b.SgmtConstraint(k, static_cast<size_t>(r.range(static_cast<int64_t>(k) + 1, static_cast<int64_t>(segs))), RandomConstraint(r));
    if (o.obstacles && r.chance(0.2)) b.SgmtObstacle(k, k + 1, RandomObstacle(r));
  }
  for (int i = static_cast<int>(r.range(0, 2)); i > 0; --i) b.WptConstraint(static_cast<size_t>(r.range(0, static_cast<int64_t>(segs))), RandomConstraint(r));
  if (o.obstacles && r.chance(0.3)) b.WptObstacle(static_cast<size_t>(r.range(0, static_cast<int64_t>(segs))), RandomObstacle(r));
  std::vector<size_t> n;
  for (size_t k = 0; k < segs; ++k) n.push_back(static_cast<size_t>(o.manyCounts && r.chance(0.2) ? r.range(10, r.chance(0.05) ? 700 : 60) : r.range(1, o.maxN)));
  b.ControlIntervalCounts(std::move(n));
  return p;
}

}  // namespace paths

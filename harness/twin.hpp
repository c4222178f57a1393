// Random sequences of builder calls, applied to the native builder as the
// reference; other front ends replay the same sequence. The problems which the
// front ends pose are compared by fingerprint.
#pragma once

#include "rec.hpp"
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/trajectory/HolonomicTrajectory.hpp>

namespace twin {

using mon::Desc;
using mon::Rng;
using sleipnir::OptimizationProblem;
using sleipnir::SolverConfig;
using sleipnir::SolverExitCondition;

enum Kind : int {
  kDrivetrain, kBumpers, kCounts, kPose, kTranslation, kEmpty, kGuess,
  kWptDirection, kWptVelocity, kWptTurn, kWptAcceleration, kWptPointAt,
  kSgmtDirection, kSgmtVelocity, kSgmtTurn, kSgmtAcceleration, kSgmtPointAt,
  kCircle, kPolygon, kKinds
};
inline const char* Name(int k) {
  static const char* n[] = {"set_drivetrain", "set_bumpers", "set_control_interval_counts", "pose_wpt", "translation_wpt", "empty_wpt", "sgmt_initial_guess_points",
                            "wpt_linear_velocity_direction", "wpt_linear_velocity_max_magnitude", "wpt_angular_velocity_max_magnitude", "wpt_linear_acceleration_max_magnitude", "wpt_point_at",
                            "sgmt_linear_velocity_direction", "sgmt_linear_velocity_max_magnitude", "sgmt_angular_velocity_max_magnitude", "sgmt_linear_acceleration_max_magnitude", "sgmt_point_at",
                            "sgmt_circle_obstacle", "sgmt_polygon_obstacle"};
  return n[k];
}
struct Op {
  int kind = 0;
  size_t i = 0, j = 0;
  double v[3] = {0, 0, 0};
  std::vector<double> xs, ys;  // modules (5 each), poses (3 each), counts, coordinates
  std::string Show() const {
    Desc d;
    d << Name(kind) << "(" << i << "," << j << "," << v[0] << "," << v[1] << "," << v[2] << "," << xs << "," << ys << ")";
    return d.str();
  }
};
struct Script {
  std::vector<Op> ops;
  std::string Show() const {
    std::string s;
    for (auto& o : ops) s += o.Show() + "; ";
    return s;
  }
};

inline Script Random(Rng& r, int maxSegs = 3, int maxN = 4) {
  Script s;
  size_t segs = static_cast<size_t>(r.range(r.chance(0.05) ? 0 : 1, maxSegs));
  if (maxSegs > 2 && r.chance(0.02)) segs = static_cast<size_t>(r.range(maxSegs, 24));
  size_t modules = static_cast<size_t>(r.chance(0.06) ? r.range(0, 12) : r.range(1, 5));
  // Some scripts use values far from those of a usual robot.
  double wide = r.chance(0.15) ? r.logUni(0.1, 1000) : 1;
  auto drivetrain = [&] {
    Op o{.kind = kDrivetrain};
    o.v[0] = wide * r.uni(5, 80);
    o.v[1] = (r.chance(0.1) ? 1 : wide) * r.uni(0.5, 10);
    for (size_t m = 0; m < modules; ++m)
      for (double x : {r.round(-0.6, 0.6), r.round(-0.6, 0.6), r.uni(0.02, 0.1), r.uni(20, 200), wide * r.uni(0.3, 3)}) o.xs.push_back(x);
    return o;
  };
  s.ops.push_back(drivetrain());
  int n = static_cast<int>(r.range(2, r.chance(0.05) ? 40 : 12));
  auto from = [&] { return static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1)); };
  for (int k = 0; k < n; ++k) {
    Op o{.kind = static_cast<int>(r.range(0, kKinds - 1))};
    o.i = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs)));
    for (double& v : o.v) v = wide * r.round(-6, 6);
    switch (o.kind) {
      case kDrivetrain: s.ops.push_back(drivetrain()); continue;
      case kBumpers: o.v[0] = wide * r.uni(0.2, 1.2); o.v[1] = (r.chance(0.1) ? 1 : wide) * r.uni(0.2, 1.2); break;
      case kCounts: continue;
      case kPose: case kTranslation: case kEmpty: break;
      case kGuess:
        if (!segs) continue;
        o.i = from();
        for (int p = static_cast<int>(r.range(r.chance(0.3) ? 0 : 1, r.chance(0.1) ? 12 : 3)) * 3; p > 0; --p) o.xs.push_back(wide * r.uni(-6, 6));
        break;
      case kWptDirection: case kWptPointAt: if (o.kind == kWptPointAt) o.v[2] = r.uni(0.01, r.chance(0.2) ? 4 : 1); break;
      case kWptVelocity: case kWptTurn: case kWptAcceleration: o.v[0] = r.chance(0.05) ? 0.0 : wide * r.uni(0, 5); break;
      default:
        if (!segs) continue;
        o.i = from();
        o.j = static_cast<size_t>(r.range(static_cast<int64_t>(o.i) + 1, static_cast<int64_t>(segs)));
        if (o.kind == kSgmtPointAt) o.v[2] = r.uni(0.01, 1);
        if (o.kind == kSgmtVelocity || o.kind == kSgmtTurn || o.kind == kSgmtAcceleration) o.v[0] = r.chance(0.05) ? 0.0 : wide * r.uni(0, 5);
        if (o.kind == kCircle) o.v[2] = r.chance(0.1) ? 0.0 : wide * r.uni(0.001, 2);
        if (o.kind == kPolygon) {
          o.v[0] = r.chance(0.1) ? 0.0 : wide * r.uni(0, 1);
          int p = static_cast<int>(r.range(1, r.chance(0.1) ? 12 : 5)), q = r.chance(0.25) ? static_cast<int>(r.range(0, 6)) : p;
          while (p-- > 0) o.xs.push_back(r.round(-6, 6));
          while (q-- > 0) o.ys.push_back(r.round(-6, 6));
        }
    }
    s.ops.push_back(o);
  }
  // Values coincide: within a call, or with an earlier call of the same kind.
  for (int k = r.chance(0.3) ? static_cast<int>(r.range(1, 4)) : 0; k > 0; --k) {
    Op& o = s.ops[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.ops.size()) - 1))];
    const Op like = s.ops[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.ops.size()) - 1))];
    if (r.chance(0.3)) {
      if (o.kind == kBumpers) o.v[1] = o.v[0];
      else if (o.kind == kPose || o.kind == kTranslation || o.kind == kEmpty) o.v[r.range(1, 2)] = o.v[0];
      else if (o.kind == kDrivetrain && o.xs.size() > 5)
        for (size_t q = 5; q < o.xs.size(); ++q)
          if (r.chance(0.4)) o.xs[q] = o.xs[q % 5];  // modules like the first
      else if (o.kind == kPolygon && o.xs.size() == o.ys.size()) o.xs.back() = o.xs[0], o.ys.back() = o.ys[0];
    } else if (o.kind == like.kind && o.kind != kDrivetrain) {
      if (r.chance(0.5)) { std::copy(like.v, like.v + 3, o.v); o.xs = like.xs; o.ys = like.ys; }
      else if (auto w = r.range(0, 2); w < 2 || o.kind == kPose || o.kind == kTranslation || o.kind == kEmpty || o.kind == kCircle) o.v[w] = like.v[w];
    }
  }
  // Every path is complete: its last waypoint exists and has short segments.
  Op last{.kind = static_cast<int>(r.range(kPose, kEmpty))};
  last.i = segs;
  for (double& v : last.v) v = wide * r.round(-6, 6);
  // A list of guess points makes its waypoints too, even an empty one.
  if (segs && r.chance(0.1)) {
    last.kind = kGuess;
    last.i = segs - 1;
    for (int p = static_cast<int>(r.range(0, 1)) * 3; p > 0; --p) last.xs.push_back(wide * r.uni(-6, 6));
  }
  if (r.chance(0.5)) s.ops.push_back(last); else s.ops.insert(s.ops.begin() + r.range(0, static_cast<int64_t>(s.ops.size())), last);
  Op counts{.kind = kCounts};
  for (size_t k = 0; k < segs; ++k) counts.xs.push_back(static_cast<double>(r.chance(0.02) ? r.range(30, r.chance(0.2) ? 400 : 80) : r.range(1, maxN)));
  if (segs != 1 || r.chance(0.9)) s.ops.push_back(counts);
  return s;
}

/// What each call means, on the native builder. Bumper corners, safety
/// distances and ignored polygons follow the documented meaning.
inline void Native(trajopt::SwervePathBuilder& b, const Op& o) {
  using namespace trajopt;
  const double *v = o.v;
  switch (o.kind) {
    case kDrivetrain: {
      SwerveDrivetrain d{v[0], v[1], {}};
      for (size_t k = 0; k + 4 < o.xs.size(); k += 5) d.modules.push_back({{o.xs[k], o.xs[k + 1]}, o.xs[k + 2], o.xs[k + 3], o.xs[k + 4]});
      b.SetDrivetrain(d);
      break;
    }
    case kBumpers: {
      double x = v[0] / 2, y = v[1] / 2;
      b.AddBumpers({0.01, {{x, y}, {-x, y}, {-x, -y}, {x, -y}}});
      break;
    }
    case kCounts: {
      std::vector<size_t> n;
      for (double x : o.xs) n.push_back(static_cast<size_t>(x));
      b.ControlIntervalCounts(std::move(n));
      break;
    }
    case kPose: b.PoseWpt(o.i, v[0], v[1], v[2]); break;
    case kTranslation: b.TranslationWpt(o.i, v[0], v[1], v[2]); break;
    case kEmpty: b.WptInitialGuessPoint(o.i, Pose2d{v[0], v[1], Rotation2d{v[2]}}); break;
    case kGuess: {
      std::vector<Pose2d> p;
      for (size_t k = 0; k + 2 < o.xs.size(); k += 3) p.push_back({o.xs[k], o.xs[k + 1], Rotation2d{o.xs[k + 2]}});
      b.SgmtInitialGuessPoints(o.i, p);
      break;
    }
    case kWptDirection: b.WptConstraint(o.i, LinearVelocityDirectionConstraint{v[0]}); break;
    case kWptVelocity: b.WptConstraint(o.i, LinearVelocityMaxMagnitudeConstraint{v[0]}); break;
    case kWptTurn: b.WptConstraint(o.i, AngularVelocityMaxMagnitudeConstraint{v[0]}); break;
    case kWptAcceleration: b.WptConstraint(o.i, LinearAccelerationMaxMagnitudeConstraint{v[0]}); break;
    case kWptPointAt: b.WptConstraint(o.i, PointAtConstraint{{v[0], v[1]}, v[2]}); break;
    case kSgmtDirection: b.SgmtConstraint(o.i, o.j, LinearVelocityDirectionConstraint{v[0]}); break;
    case kSgmtVelocity: b.SgmtConstraint(o.i, o.j, LinearVelocityMaxMagnitudeConstraint{v[0]}); break;
    case kSgmtTurn: b.SgmtConstraint(o.i, o.j, AngularVelocityMaxMagnitudeConstraint{v[0]}); break;
    case kSgmtAcceleration: b.SgmtConstraint(o.i, o.j, LinearAccelerationMaxMagnitudeConstraint{v[0]}); break;
    case kSgmtPointAt: b.SgmtConstraint(o.i, o.j, PointAtConstraint{{v[0], v[1]}, v[2]}); break;
    case kCircle: b.SgmtObstacle(o.i, o.j, Obstacle{v[2], {{v[0], v[1]}}}); break;
    case kPolygon: {
      if (o.xs.size() != o.ys.size()) break;
      std::vector<Translation2d> p;
      for (size_t k = 0; k < o.xs.size(); ++k) p.push_back({o.xs[k], o.ys[k]});
      b.SgmtObstacle(o.i, o.j, Obstacle{v[0], p});
      break;
    }
  }
}

/// A problem as the solver sees it: starting values and the (unordered) values
/// of cost and constraints at a few assignments.
struct Print {
  std::vector<double> start;
  std::vector<double> cost;
  std::vector<std::vector<double>> eq, ineq;
  bool diagnostics = false;
  double tolerance = 0;
  bool posed = false;

  static bool Close(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i] != b[i] && !(std::abs(a[i] - b[i]) <= 1e-8 * (1 + std::abs(a[i])))) return false;
    return true;
  }
  std::string Diff(const Print& o) const {
    Desc d;
    if (posed != o.posed) return "one of them was not posed";
    if (start.size() != o.start.size()) { d << o.start.size() << " decision variables instead of " << start.size(); return d.str(); }
    for (size_t i = 0; i < start.size(); ++i)
      if (!(std::abs(start[i] - o.start[i]) <= 1e-9 * (1 + std::abs(start[i])))) { d << "variable " << i << " starts at " << o.start[i] << " instead of " << start[i]; return d.str(); }
    if (!Close(cost, o.cost)) { d << "cost " << o.cost << " instead of " << cost; return d.str(); }
    if (tolerance != o.tolerance) { d << "tolerance " << o.tolerance << " instead of " << tolerance; return d.str(); }
    for (size_t k = 0; k < eq.size(); ++k) {
      if (eq[k].size() != o.eq[k].size()) { d << o.eq[k].size() << " equality constraints instead of " << eq[k].size(); return d.str(); }
      if (ineq[k].size() != o.ineq[k].size()) { d << o.ineq[k].size() << " inequality constraints instead of " << ineq[k].size(); return d.str(); }
      if (!Close(eq[k], o.eq[k])) return "equality constraints differ";
      if (!Close(ineq[k], o.ineq[k])) return "inequality constraints differ";
    }
    return "";
  }
};

inline Print Take(OptimizationProblem& p, const SolverConfig& cfg, uint64_t seed, int probes = 2) {
  Print f;
  f.posed = true;
  f.diagnostics = cfg.diagnostics;
  f.tolerance = cfg.tolerance;
  for (auto& v : p.decisionVariables) f.start.push_back(v.Value());
  Rng r{seed};
  for (int k = 0; k < probes; ++k) {
    for (auto& v : p.decisionVariables) v.SetValue(r.uni(-4, 4));
    auto e = rec::Evaluate(p);
    auto tidy = [](std::vector<double> v) {
      for (double& x : v) if (std::isnan(x)) x = 1e300;
      std::sort(v.begin(), v.end());
      return v;
    };
    f.cost.push_back(e.cost);
    f.eq.push_back(tidy(e.eq));
    f.ineq.push_back(tidy(e.ineq));
  }
  return f;
}

/// How the scripted solver behaves in one generation.
struct Plan {
  uint64_t seed = 1;
  int iterations = 1;
  SolverExitCondition exit = SolverExitCondition::kSuccess;
  std::function<void(int)> before;  // called before each iteration
  bool honourStop = false;
};
struct Trace {
  Print print;
  int runs = 0;
  int stops = 0;
};
/// Installs the plan for this thread.
struct Scripted {
  Trace trace;
  rec::SolverScope scope;
  explicit Scripted(const Plan& plan)
      : scope{[this, plan](OptimizationProblem& p, const SolverConfig& cfg) {
          ++trace.runs;
          trace.print = Take(p, cfg, plan.seed);
          Rng r{plan.seed ^ 0xABCDEF};
          for (int k = 0; k < plan.iterations; ++k) {
            for (auto& v : p.decisionVariables) v.SetValue(r.uni(-3, 3));
            if (plan.before) plan.before(k);
            if (p.Iterate(k)) {
              ++trace.stops;
              if (plan.honourStop) return rec::Status(SolverExitCondition::kCallbackRequestedStop);
            }
          }
          for (auto& v : p.decisionVariables) v.SetValue(r.uni(-3, 3));
          return rec::Status(plan.exit);
        }} {}
};
inline const std::vector<SolverExitCondition>& Exits() {
  using enum SolverExitCondition;
  static const std::vector<SolverExitCondition> v{kSuccess, kSolvedToAcceptableTolerance, kCallbackRequestedStop, kTooFewDOFs, kLocallyInfeasible, kFeasibilityRestorationFailed,
                                                  kNonfiniteInitialCostOrConstraints, kDivergingIterates, kMaxIterationsExceeded, kTimeout};
  return v;
}
inline bool Good(SolverExitCondition e) { return e == SolverExitCondition::kSuccess || e == SolverExitCondition::kSolvedToAcceptableTolerance; }

/// A trajectory in neutral form: per sample the seven numbers, then forces.
struct Flat {
  std::vector<std::vector<double>> samples;
  size_t modules = 0;
  std::string Diff(const Flat& o) const {
    Desc d;
    if (samples.size() != o.samples.size()) { d << o.samples.size() << " samples instead of " << samples.size(); return d.str(); }
    for (size_t i = 0; i < samples.size(); ++i) {
      if (samples[i].size() != o.samples[i].size()) { d << "sample " << i << " has " << o.samples[i].size() << " numbers instead of " << samples[i].size(); return d.str(); }
      for (size_t k = 0; k < samples[i].size(); ++k)
        if (samples[i][k] != o.samples[i][k] && !(std::abs(samples[i][k] - o.samples[i][k]) <= 1e-12 * (1 + std::abs(samples[i][k])))) {
          static const char* n[] = {"timestamp", "x", "y", "heading", "velocity x", "velocity y", "angular velocity"};
          d << "sample " << i << ", " << (k < 7 ? n[k] : "a module force") << " (number " << k << ") is " << o.samples[i][k] << " instead of " << samples[i][k];
          return d.str();
        }
    }
    return "";
  }
};
/// From the native solution, independently of HolonomicTrajectory.
inline Flat FromSolution(const trajopt::SwerveSolution& s) {
  Flat f;
  double t = 0;
  for (size_t i = 0; i < s.x.size(); ++i) {
    if (i) t += s.dt.at(i - 1);
    std::vector<double> v{t, s.x.at(i), s.y.at(i), std::atan2(s.thetasin.at(i), s.thetacos.at(i)), s.vx.at(i), s.vy.at(i), s.omega.at(i)};
    v.push_back(static_cast<double>(s.moduleFX.at(i).size()));
    v.insert(v.end(), s.moduleFX.at(i).begin(), s.moduleFX.at(i).end());
    v.push_back(static_cast<double>(s.moduleFY.at(i).size()));
    v.insert(v.end(), s.moduleFY.at(i).begin(), s.moduleFY.at(i).end());
    f.samples.push_back(v);
  }
  return f;
}

}  // namespace twin

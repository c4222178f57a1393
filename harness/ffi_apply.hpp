// The foreign-function builder as one of the front ends of twin.hpp.
#pragma once

#include "twin.hpp"
#include <RustFFI.hpp>
#include <trajoptlib/src/lib.rs.h>

namespace ffi = trajopt::rsffi;

namespace twin {

inline void Apply(ffi::SwervePathBuilder& b, const Op& o) {
  const double* v = o.v;
  auto list = [](const std::vector<double>& x) { rust::Vec<double> r; for (double d : x) r.push_back(d); return r; };
  switch (o.kind) {
    case kDrivetrain: {
      ffi::SwerveDrivetrain d;
      d.mass = v[0];
      d.moi = v[1];
      for (size_t k = 0; k + 4 < o.xs.size(); k += 5) {
        ffi::SwerveModule m;
        m.x = o.xs[k]; m.y = o.xs[k + 1]; m.wheel_radius = o.xs[k + 2]; m.wheel_max_angular_velocity = o.xs[k + 3]; m.wheel_max_torque = o.xs[k + 4];
        d.modules.push_back(m);
      }
      b.set_drivetrain(d);
      break;
    }
    case kBumpers: b.set_bumpers(v[0], v[1]); break;
    case kCounts: { rust::Vec<size_t> n; for (double x : o.xs) n.push_back(static_cast<size_t>(x)); b.set_control_interval_counts(n); break; }
    case kPose: b.pose_wpt(o.i, v[0], v[1], v[2]); break;
    case kTranslation: b.translation_wpt(o.i, v[0], v[1], v[2]); break;
    case kEmpty: b.empty_wpt(o.i, v[0], v[1], v[2]); break;
    case kGuess: {
      rust::Vec<ffi::Pose2d> p;
      for (size_t k = 0; k + 2 < o.xs.size(); k += 3) { ffi::Pose2d q; q.x = o.xs[k]; q.y = o.xs[k + 1]; q.heading = o.xs[k + 2]; p.push_back(q); }
      b.sgmt_initial_guess_points(o.i, p);
      break;
    }
    case kWptDirection: b.wpt_linear_velocity_direction(o.i, v[0]); break;
    case kWptVelocity: b.wpt_linear_velocity_max_magnitude(o.i, v[0]); break;
    case kWptTurn: b.wpt_angular_velocity_max_magnitude(o.i, v[0]); break;
    case kWptAcceleration: b.wpt_linear_acceleration_max_magnitude(o.i, v[0]); break;
    case kWptPointAt: b.wpt_point_at(o.i, v[0], v[1], v[2]); break;
    case kSgmtDirection: b.sgmt_linear_velocity_direction(o.i, o.j, v[0]); break;
    case kSgmtVelocity: b.sgmt_linear_velocity_max_magnitude(o.i, o.j, v[0]); break;
    case kSgmtTurn: b.sgmt_angular_velocity_max_magnitude(o.i, o.j, v[0]); break;
    case kSgmtAcceleration: b.sgmt_linear_acceleration_max_magnitude(o.i, o.j, v[0]); break;
    case kSgmtPointAt: b.sgmt_point_at(o.i, o.j, v[0], v[1], v[2]); break;
    case kCircle: b.sgmt_circle_obstacle(o.i, o.j, v[0], v[1], v[2]); break;
    case kPolygon: b.sgmt_polygon_obstacle(o.i, o.j, list(o.xs), list(o.ys), v[0]); break;
  }
}
inline Flat FromFfi(const ffi::HolonomicTrajectory& t) {
  Flat f;
  for (auto& s : t.samples) {
    std::vector<double> v{s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity, static_cast<double>(s.module_forces_x.size())};
    for (double x : s.module_forces_x) v.push_back(x);
    v.push_back(static_cast<double>(s.module_forces_y.size()));
    for (double x : s.module_forces_y) v.push_back(x);
    f.samples.push_back(v);
  }
  return f;
}

}  // namespace twin

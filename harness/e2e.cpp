// C33: whole generations run to convergence by an interior-point solver, and
// judged from outside: by physics, by closed forms, and by what a solved motion
// says about a related path.
#include "ipm.hpp"
#include <trajopt/trajectory/HolonomicTrajectory.hpp>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace rec;
using trajopt::Constraint;
using trajopt::Pose2d;
using trajopt::Rotation2d;
using trajopt::SwervePathBuilder;
using trajopt::SwerveTrajectoryGenerator;
using trajopt::Translation2d;

namespace {

struct Module {
  V2 at;
  double radius, speed, torque;
  double V() const { return radius * speed; }
  double F() const { return torque / radius; }
};
struct Wpt {
  enum Kind { kPose, kTranslation, kFree } kind = kPose;
  double x = 0, y = 0, heading = 0;
};
struct Rule {
  enum Kind { kSpeed, kSpin, kAccel, kPointAt, kPointPoint, kPointLine, kLinePoint } kind = kSpeed;
  bool segment = false;
  size_t from = 0, to = 0;
  V2 robot{}, robot2{}, field{}, field2{};
  double value = 0;
};
struct Solid {  // obstacle
  bool segment = false;
  size_t from = 0, to = 0;
  double radius = 0;
  std::vector<V2> points;
};

/// A path in the harness's own terms.
struct Spec {
  double mass = 45, moi = 6;
  std::vector<Module> modules;
  std::vector<Wpt> wpts;
  std::vector<size_t> N;
  std::vector<Rule> rules;
  double bumperRadius = 0;
  std::vector<V2> bumper;
  std::vector<Solid> solids;
  std::vector<std::vector<Wpt>> via;  // guess points per segment

  size_t Sample(size_t w) const {
    size_t i = 0;
    for (size_t k = 0; k < w; ++k) i += N[k];
    return i;
  }
  template <typename T>
  bool Concerns(const T& r, size_t i) const {
    return r.segment ? i >= Sample(r.from) && i <= Sample(r.to) : i == Sample(r.from);
  }
  double MinWidth() const {
    double w = INFINITY;
    for (auto& a : modules)
      for (auto& b : modules) {
        if (a.at.x != b.at.x) w = std::min(w, std::abs(a.at.x - b.at.x));
        if (a.at.y != b.at.y) w = std::min(w, std::abs(a.at.y - b.at.y));
      }
    return w;
  }
  static Constraint Make(const Rule& r) {
    using namespace trajopt;
    auto t = [](V2 p) { return Translation2d{p.x, p.y}; };
    switch (r.kind) {
      case Rule::kSpeed: return LinearVelocityMaxMagnitudeConstraint{r.value};
      case Rule::kSpin: return AngularVelocityMaxMagnitudeConstraint{r.value};
      case Rule::kAccel: return LinearAccelerationMaxMagnitudeConstraint{r.value};
      case Rule::kPointAt: return PointAtConstraint{t(r.field), r.value};
      case Rule::kPointPoint: return PointPointConstraint{t(r.robot), t(r.field), r.value};
      case Rule::kPointLine: return PointLineConstraint{t(r.robot), t(r.field), t(r.field2), r.value};
      default: return LinePointConstraint{t(r.robot), t(r.robot2), t(r.field), r.value};
    }
  }
  SwervePathBuilder Build() const {
    SwervePathBuilder b;
    trajopt::SwerveDrivetrain d{mass, moi, {}};
    for (auto& m : modules) d.modules.push_back({{m.at.x, m.at.y}, m.radius, m.speed, m.torque});
    b.SetDrivetrain(d);
    for (size_t w = 0; w < wpts.size(); ++w) {
      auto& p = wpts[w];
      if (p.kind == Wpt::kPose) b.PoseWpt(w, p.x, p.y, p.heading);
      else if (p.kind == Wpt::kTranslation) b.TranslationWpt(w, p.x, p.y, p.heading);
      else b.WptInitialGuessPoint(w, Pose2d{p.x, p.y, Rotation2d{p.heading}});
    }
    if (!bumper.empty()) {
      trajopt::Bumpers bu{bumperRadius, {}};
      for (auto& p : bumper) bu.points.push_back({p.x, p.y});
      b.AddBumpers(std::move(bu));
    }
    for (auto& r : rules)
      if (r.segment) b.SgmtConstraint(r.from, r.to, Make(r));
      else b.WptConstraint(r.from, Make(r));
    for (auto& s : solids) {
      trajopt::Obstacle o{s.radius, {}};
      for (auto& p : s.points) o.points.push_back({p.x, p.y});
      if (s.segment) b.SgmtObstacle(s.from, s.to, o);
      else b.WptObstacle(s.from, o);
    }
    for (size_t k = 0; k < via.size(); ++k)
      if (!via[k].empty()) {
        std::vector<Pose2d> g;
        for (auto& p : via[k]) g.push_back({p.x, p.y, Rotation2d{p.heading}});
        b.SgmtInitialGuessPoints(k, g);
      }
    auto n = N;
    b.ControlIntervalCounts(std::move(n));
    return b;
  }
  std::string str() const {
    Desc d;
    d << "mass " << mass << " moi " << moi << " modules";
    for (auto& m : modules) d << " (" << m.at.x << "," << m.at.y << " V=" << m.V() << " F=" << m.F() << ")";
    d << " waypoints";
    for (auto& w : wpts) d << " " << (w.kind == Wpt::kPose ? "pose" : w.kind == Wpt::kTranslation ? "translation" : "free") << "(" << w.x << "," << w.y << "," << w.heading << ")";
    d << " N=" << N;
    for (auto& r : rules) d << " rule " << static_cast<int>(r.kind) << "=" << r.value << (r.segment ? " segs " : " wpt ") << r.from << ".." << r.to;
    d << " obstacles " << solids.size();
    return d.str();
  }
};

struct Outcome {
  ipm::Result solver;
  std::optional<SwerveSolution> sol;
  std::string error;
  double T = 0;
};
Outcome Run(const Spec& s) {
  Outcome o;
  ipm::Options opt;
  opt.verbose = getenv("IPM_VERBOSE") != nullptr;
  SolverScope sc{ipm::AsSolver(opt, &o.solver)};
  auto b = s.Build();
  SwerveTrajectoryGenerator g{b};
  auto r = g.Generate();
  if (r.has_value()) {
    o.sol = r.value();
    for (double h : o.sol->dt) o.T += h;
  } else {
    o.error = r.error();
  }
  return o;
}

V2 Place(const SwerveSolution& s, size_t i, V2 p) {
  return {s.x[i] + s.thetacos[i] * p.x - s.thetasin[i] * p.y, s.y[i] + s.thetasin[i] * p.x + s.thetacos[i] * p.y};
}
double Turn(const SwerveSolution& s, size_t i) {
  return std::atan2(s.thetasin[i] * s.thetacos[i - 1] - s.thetacos[i] * s.thetasin[i - 1], s.thetacos[i] * s.thetacos[i - 1] + s.thetasin[i] * s.thetasin[i - 1]);
}

/// Judges a trajectory by the path's own terms.
struct Physics {
  Ctx& c;
  const Spec& p;
  const SwerveSolution& s;
  int64_t active = 0;
  std::string Where(const char* what, size_t i, double got, double want) {
    return (Desc{} << what << " at sample " << i << ": " << got << ", expected " << want << "; position (" << s.x[i] << "," << s.y[i] << ") heading " << std::atan2(s.thetasin[i], s.thetacos[i])
                   << " v (" << s.vx[i] << "," << s.vy[i] << ") omega " << s.omega[i] << "; " << p.str()).str();
  }
  void Eq(double got, double want, double tol, const char* key, size_t i) {
    c.Check(std::abs(got - want) <= tol, key, [&] { return Where(key, i, got, want); });
  }
  void AtMost(double got, double limit, double tol, const char* key, size_t i) {
    c.Check(got <= limit + tol, key, [&] { return Where(key, i, got, limit); });
    if (got > limit - 10 * tol) ++active;
  }
  void AtLeast(double got, double limit, double tol, const char* key, size_t i) {
    c.Check(got >= limit - tol, key, [&] { return Where(key, i, got, limit); });
    if (got < limit + 10 * tol) ++active;
  }
  bool Run() {
    size_t S = p.Sample(p.wpts.size() - 1) + 1, M = p.modules.size();
    bool shape = s.x.size() == S && s.y.size() == S && s.thetacos.size() == S && s.thetasin.size() == S && s.vx.size() == S && s.vy.size() == S && s.omega.size() == S && s.ax.size() == S && s.ay.size() == S &&
                 s.alpha.size() == S && s.moduleFX.size() == S && s.moduleFY.size() == S && s.dt.size() == S - 1;
    if (!c.Check(shape, "shape", [&] { return "solution lists have wrong lengths; " + p.str(); })) return false;
    for (size_t i = 0; i + 1 < S; ++i) c.Check(s.dt[i] > 0, "time-step-not-positive", [&] { return Where("dt", i, s.dt[i], 0); });
    for (size_t i = 1; i < S; ++i) {
      double h = s.dt[i - 1];
      Eq(s.x[i] - s.x[i - 1], s.vx[i] * h, 1e-4, "moves-otherwise-than-velocity:x", i);
      Eq(s.y[i] - s.y[i - 1], s.vy[i] * h, 1e-4, "moves-otherwise-than-velocity:y", i);
      Eq(std::remainder(Turn(s, i) - s.omega[i] * h, 2 * kPi), 0, 1e-4, "turns-otherwise-than-turn-rate", i);
      Eq(s.vx[i] - s.vx[i - 1], s.ax[i] * h, 1e-3, "velocity-otherwise-than-acceleration:x", i);
      Eq(s.vy[i] - s.vy[i - 1], s.ay[i] * h, 1e-3, "velocity-otherwise-than-acceleration:y", i);
      Eq(s.omega[i] - s.omega[i - 1], s.alpha[i] * h, 1e-3, "turn-rate-otherwise-than-acceleration", i);
    }
    for (size_t i = 0; i < S; ++i) {
      Eq(std::hypot(s.thetacos[i], s.thetasin[i]), 1, 1e-4, "heading-not-unit", i);
      double fx = 0, fy = 0, tau = 0, cap = 0, arm = 0;
      for (size_t j = 0; j < M; ++j) {
        auto& m = p.modules[j];
        double x = s.moduleFX[i][j], y = s.moduleFY[i][j];
        double rx = s.thetacos[i] * m.at.x - s.thetasin[i] * m.at.y, ry = s.thetasin[i] * m.at.x + s.thetacos[i] * m.at.y;
        fx += x;
        fy += y;
        tau += rx * y - ry * x;
        cap += m.F();
        arm += m.F() * std::hypot(m.at.x, m.at.y);
        AtMost(std::hypot(x, y), m.F(), 1e-3 * m.F(), "force-limit", i);
        AtMost(std::hypot(s.vx[i] - s.omega[i] * ry, s.vy[i] + s.omega[i] * rx), m.V(), 1e-3 * m.V(), "wheel-speed-limit", i);
      }
      Eq(fx, p.mass * s.ax[i], 1e-3 * cap, "force-otherwise-than-acceleration:x", i);
      Eq(fy, p.mass * s.ay[i], 1e-3 * cap, "force-otherwise-than-acceleration:y", i);
      Eq(tau, p.moi * s.alpha[i], 1e-3 * arm, "torque-otherwise-than-acceleration", i);
    }
    for (size_t w = 0; w < p.wpts.size(); ++w) {
      auto& q = p.wpts[w];
      size_t i = p.Sample(w);
      if (q.kind == Wpt::kFree) continue;
      Eq(s.x[i], q.x, 1e-4, "waypoint-missed:x", i);
      Eq(s.y[i], q.y, 1e-4, "waypoint-missed:y", i);
      if (q.kind == Wpt::kPose) Eq(std::remainder(std::atan2(s.thetasin[i], s.thetacos[i]) - q.heading, 2 * kPi), 0, 1e-3, "waypoint-missed:heading", i);
    }
    for (auto& r : p.rules)
      for (size_t i = 0; i < S; ++i) {
        if (!p.Concerns(r, i)) continue;
        switch (r.kind) {
          case Rule::kSpeed: AtMost(std::hypot(s.vx[i], s.vy[i]), r.value, 2e-3, "speed-rule", i); break;
          case Rule::kSpin: AtMost(std::abs(s.omega[i]), r.value, 2e-3, "turn-rate-rule", i); break;
          case Rule::kAccel: AtMost(std::hypot(s.ax[i], s.ay[i]), r.value, 5e-3, "acceleration-rule", i); break;
          case Rule::kPointAt: {
            double dx = r.field.x - s.x[i], dy = r.field.y - s.y[i];
            if (std::hypot(dx, dy) < 0.05) break;
            AtMost(std::abs(std::remainder(std::atan2(dy, dx) - std::atan2(s.thetasin[i], s.thetacos[i]), 2 * kPi)), r.value, 2e-3 + 1e-3 / std::max(r.value, 1e-2), "heading-rule", i);
            break;
          }
          case Rule::kPointPoint: { auto q = Place(s, i, r.robot); AtLeast(std::hypot(q.x - r.field.x, q.y - r.field.y), r.value, 1e-3, "point-point-rule", i); break; }
          case Rule::kPointLine: AtLeast(SegDist(r.field, r.field2, Place(s, i, r.robot)), r.value, 1e-3, "point-line-rule", i); break;
          default: AtLeast(SegDist(Place(s, i, r.robot), Place(s, i, r.robot2), r.field), r.value, 1e-3, "line-point-rule", i);
        }
      }
    // Obstacles: corners of either keep clear of the edges of the other.
    for (auto& o : p.solids)
      for (size_t i = 0; i < S; ++i) {
        if (!p.Concerns(o, i)) continue;
        size_t nb = p.bumper.size(), no = o.points.size();
        double d = INFINITY;
        for (size_t a = 0; a < nb; ++a)
          for (size_t b = 0; b < no; ++b) {
            V2 p0 = Place(s, i, p.bumper[a]), p1 = Place(s, i, p.bumper[(a + 1) % nb]);
            d = std::min({d, SegDist(p0, p1, o.points[b]), SegDist(o.points[b], o.points[(b + 1) % no], p0)});
          }
        AtLeast(d, p.bumperRadius + o.radius, 1e-3, "obstacle-clearance", i);
      }
    // The trajectory made of it.
    trajopt::HolonomicTrajectory tr{s};
    double t = 0;
    if (c.Check(tr.samples.size() == S, "trajectory-length", [&] { return "trajectory has " + std::to_string(tr.samples.size()) + " samples; " + p.str(); }))
      for (size_t i = 0; i < S; ++i) {
        auto& q = tr.samples[i];
        if (i) t += s.dt[i - 1];
        Eq(q.timestamp, t, 1e-9 * (1 + t), "timestamp", i);
        Eq(q.x, s.x[i], 0, "trajectory:x", i);
        Eq(q.y, s.y[i], 0, "trajectory:y", i);
        Eq(std::remainder(q.heading - std::atan2(s.thetasin[i], s.thetacos[i]), 2 * kPi), 0, 1e-9, "trajectory:heading", i);
      }
    return true;
  }
};

State AsState(const Spec& p, const SwerveSolution& s) {
  State st;
  size_t S = s.x.size();
  st.Resize(S, p.N.size(), p.modules.size());
  st.x = s.x; st.y = s.y; st.c = s.thetacos; st.s = s.thetasin; st.vx = s.vx; st.vy = s.vy; st.om = s.omega; st.ax = s.ax; st.ay = s.ay; st.al = s.alpha;
  st.fx = s.moduleFX; st.fy = s.moduleFY;
  for (size_t k = 0; k < p.N.size(); ++k) st.dt[k] = s.dt[p.Sample(k)];
  return st;
}

// ------------------------------------------------------------ generators
std::vector<Module> Modules(Rng& r, double* cap = nullptr, double* arm = nullptr) {
  // Opposite pairs with equal modules.
  std::vector<Module> m;
  int pairs = static_cast<int>(r.range(1, 3));
  std::vector<V2> spots{{0.2, 0.5}, {0.5, 0.2}, {0.2, -0.5}, {0.5, -0.2}, {0.5, 0.5}, {0.5, -0.5}};
  r.shuffle(spots);
  double sx = r.uni(0.8, 1.3), sy = r.uni(0.8, 1.3);
  for (int k = 0; k < pairs; ++k) {
    Module a{{sx * spots[static_cast<size_t>(k)].x, sy * spots[static_cast<size_t>(k)].y}, r.uni(0.03, 0.08), 0, 0};
    a.speed = r.uni(2, 5) / a.radius;
    a.torque = r.uni(20, 90) * a.radius;
    m.push_back(a);
    a.at = {-a.at.x, -a.at.y};
    m.push_back(a);
  }
  double c = 0, t = 0;
  for (auto& a : m) {
    c += a.F();
    t += a.F() * std::hypot(a.at.x, a.at.y);
  }
  if (cap) *cap = c;
  if (arm) *arm = t;
  r.shuffle(m);
  return m;
}
/// Least time of a rest-to-rest move over `dist` in N steps of v' = a, x' = v.
/// The acceleration into the final rest is limited to `last`.
double LeastTime(double dist, size_t N, double A, double V, double last = INFINITY) {
  last = std::min(last, A);
  auto reach = [&](double h) {
    double d = 0;
    for (size_t n = 1; n <= N; ++n) d += h * std::min({A * h * static_cast<double>(n), n < N ? h * (last + A * static_cast<double>(N - n - 1)) : 0.0, V});
    return d;
  };
  double lo = 0, hi = 1;
  while (reach(hi) < dist) hi *= 2;
  for (int k = 0; k < 200; ++k) (reach((lo + hi) / 2) < dist ? lo : hi) = (lo + hi) / 2;
  return hi;
}
void Rest(Spec& s, size_t w) {
  s.rules.push_back({Rule::kSpeed, false, w, w});
  s.rules.push_back({Rule::kSpin, false, w, w});
}

struct Rate {
  int64_t tried = 0, solved = 0;
};
bool Solved(Ctx& c, Rate& k, const std::string& family, const Outcome& o, const Spec& s) {
  ++k.tried;
  c.Stat("solver iterations", o.solver.iterations);
  c.Check(o.solver.solved == o.sol.has_value(), "result-otherwise-than-solver", [&] { return "the solver " + std::string{o.solver.solved ? "succeeded" : "failed"} + ", Generate() returned " + (o.sol ? "a trajectory" : "\"" + o.error + "\"") + "; " + s.str(); });
  if (!o.solver.solved || !o.sol) { c.Stat(family + " unsolved"); return false; }
  ++k.solved;
  c.Stat(family + " solved");
  return true;
}
void Converges(Ctx& c, const Rate& k, const std::string& family, double least) {
  if (c.onlyCase >= 0 || k.tried < 8) return;
  c.Check(static_cast<double>(k.solved) >= least * static_cast<double>(k.tried), "ordinary-paths-not-solvable:" + family,
          [&] { return (Desc{} << "the interior-point solver solved " << k.solved << " of " << k.tried << " ordinary " << family << " paths").str(); });
}

Spec RandomPath(Rng& r) {
  Spec s;
  s.mass = r.uni(20, 70);
  s.moi = r.uni(2, 10);
  double force = 0, v = INFINITY, vw = 0;
  s.modules = Modules(r, &force);
  for (auto& m : s.modules) { v = std::min(v, m.V()); vw = std::max(vw, m.V()); }
  size_t segs = static_cast<size_t>(r.range(1, 3));
  double x = r.uni(-2, 2), y = r.uni(-2, 2), dir = r.uni(-kPi, kPi), heading = r.uni(-kPi, kPi);
  for (size_t w = 0; w <= segs; ++w) {
    Wpt q;
    q.kind = w == 0 || w == segs || r.chance(0.5) ? Wpt::kPose : r.chance(0.6) ? Wpt::kTranslation : Wpt::kFree;
    q.x = x; q.y = y; q.heading = heading;
    s.wpts.push_back(q);
    dir += r.uni(-0.9, 0.9);
    double d = r.uni(1, 3);
    x += d * std::cos(dir);
    y += d * std::sin(dir);
    heading += r.uni(-1, 1);
  }
  for (size_t k = 0; k < segs; ++k) {
    double d = std::hypot(s.wpts[k + 1].x - s.wpts[k].x, s.wpts[k + 1].y - s.wpts[k].y);
    // Enough intervals for a leisurely move within the step bound.
    double cap = 0.9 * s.MinWidth() / vw, A = force / s.mass;
    size_t n = static_cast<size_t>(std::ceil(d * r.uni(4, 7)));
    while (static_cast<double>(n) * cap < 1.6 * std::sqrt(4 * d / A) + 1.6 * d / v && n < 60) ++n;
    s.N.push_back(n);
  }
  Rest(s, 0);
  Rest(s, segs);
  auto range = [&](Rule& q) {
    q.segment = true;
    q.from = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1));
    q.to = static_cast<size_t>(r.range(static_cast<int64_t>(q.from) + 1, static_cast<int64_t>(segs)));
  };
  if (r.chance(0.4)) { Rule q{Rule::kSpeed}; range(q); q.value = r.uni(0.8, 2.5); s.rules.push_back(q); }
  if (r.chance(0.3)) { Rule q{Rule::kSpin}; range(q); q.value = r.uni(1, 4); s.rules.push_back(q); }
  if (r.chance(0.4)) { Rule q{Rule::kAccel}; range(q); q.value = r.uni(1.5, 4); s.rules.push_back(q); }
  if (r.chance(0.2) && segs > 1) { Rule q{Rule::kSpeed, false, 1, 1}; q.value = r.uni(0.4, 1.5); s.rules.push_back(q); }
  // Something beside a segment's straight line.
  auto beside = [&](size_t k, double off) {
    auto &a = s.wpts[k], &b = s.wpts[k + 1];
    double d = std::hypot(b.x - a.x, b.y - a.y), side = r.chance(0.5) ? 1 : -1;
    return V2{(a.x + b.x) / 2 - side * off * (b.y - a.y) / d, (a.y + b.y) / 2 + side * off * (b.x - a.x) / d};
  };
  if (r.chance(0.5)) {
    size_t k = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1));
    double bw = r.uni(0.15, 0.25);
    s.bumper = {{bw, bw}, {-bw, bw}, {-bw, -bw}, {bw, -bw}};
    s.bumperRadius = r.chance(0.5) ? 0 : r.uni(0.01, 0.05);
    Solid o;
    o.segment = true; o.from = k; o.to = k + 1;
    o.radius = r.uni(0.05, 0.15);
    V2 q = beside(k, r.uni(0.2, 0.6));
    o.points = {q};
    int n = static_cast<int>(r.range(1, 3));
    for (int i = 1; i < n; ++i) o.points.push_back({q.x + r.uni(-0.15, 0.15), q.y + r.uni(-0.15, 0.15)});
    s.solids.push_back(o);
  } else if (r.chance(0.6)) {
    size_t k = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1));
    Rule q{r.chance(0.5) ? Rule::kPointPoint : r.chance(0.5) ? Rule::kPointLine : Rule::kLinePoint};
    q.segment = true; q.from = k; q.to = k + 1;
    q.robot = {r.uni(-0.1, 0.1), r.uni(-0.1, 0.1)};
    q.robot2 = {q.robot.x + r.uni(0.1, 0.2), q.robot.y + r.uni(-0.2, 0.2)};
    q.field = beside(k, r.uni(0.15, 0.4));
    q.field2 = {q.field.x + r.uni(-0.2, 0.2), q.field.y + r.uni(-0.2, 0.2)};
    q.value = r.uni(0.1, 0.3);
    s.rules.push_back(q);
  }
  if (r.chance(0.15)) {
    // Facing a far point throughout one segment; its waypoints leave the heading open.
    size_t k = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1));
    Rule q{Rule::kPointAt};
    q.segment = true; q.from = k; q.to = k + 1;
    q.field = {s.wpts[k].x + 12 * std::cos(s.wpts[k].heading), s.wpts[k].y + 12 * std::sin(s.wpts[k].heading)};
    q.value = r.uni(0.1, 0.5);
    for (size_t w : {k, k + 1})
      if (s.wpts[w].kind == Wpt::kPose) s.wpts[w].kind = Wpt::kTranslation;
    // Without any pose waypoint, the length of the heading vector is open (C11's known finding).
    size_t other = k > 0 ? 0 : segs;
    if (other != k + 1) s.wpts[other].kind = Wpt::kPose;
    else s.wpts[0].kind = Wpt::kPose;
    s.rules.push_back(q);
  }
  return s;
}

/// The paths of the project's example program, with the given drivetrain; all
/// but the first few cases vary the places and the drivetrain.
Spec Documented(Rng& r, size_t k, bool vary) {
  Spec s;
  auto j = [&](double v, double by) { return vary ? v + r.uni(-by, by) : v; };
  double a = vary ? r.uni(0.4, 0.7) : 0.6, b = vary ? r.uni(0.4, 0.7) : 0.6, radius = vary ? r.uni(0.035, 0.06) : 0.04, speed = j(70, 20), torque = j(2, 0.5);
  s.mass = j(45, 15);
  s.moi = j(6, 2);
  for (double x : {a, -a}) for (double y : {b, -b}) s.modules.push_back({{x, y}, radius, speed, torque});
  double x0 = vary ? r.uni(-4, 4) : 0, y0 = vary ? r.uni(-4, 4) : 0;
  auto pose = [&](double x, double y, double h) { s.wpts.push_back({Wpt::kPose, x0 + j(x, 0.15), y0 + j(y, 0.15), h}); };
  auto rest = [&](size_t w) { s.rules.push_back({Rule::kSpeed, false, w, w}); };
  auto turn = [&](size_t w) { s.rules.push_back({Rule::kSpin, false, w, w}); };
  switch (k) {
    case 0: pose(0, 0, 0); pose(1, 0, 0); rest(0); rest(1); s.N = {40}; break;
    case 1: pose(1, 1, -kPi / 2); pose(2, 0, 0); rest(0); rest(1); s.N = {40}; break;
    case 2: pose(0, 0, kPi / 2); pose(1, 1, 0); pose(2, 0, kPi / 2); rest(0); rest(1); s.N = {40, 40}; break;
    case 3: pose(0, 0, 0); pose(0, 1, 0); rest(0); s.N = {40}; break;
    case 4: {
      pose(0, 0, 0); pose(1, 0, 0); rest(0); rest(1); s.N = {40};
      // The example adds no bumpers, so nothing is kept away; half of the variations do.
      if (vary && r.chance(0.5)) { s.bumper = {{0, 0}}; s.solids.push_back({true, 0, 1, 0.1, {{x0 + 0.5, y0 + j(0.5, 0.45)}}}); }
      break;
    }
    case 5:  // without the direction of approach, on which the harness's solver does not converge
      pose(0, 0, 0); pose(1, 1, kPi / 2); turn(1);
      s.wpts.push_back({Wpt::kTranslation, x0 + 1, y0 + 2, 0});
      s.wpts.push_back(s.wpts[1]); turn(3);
      pose(2, 0, kPi); rest(0); rest(4); s.N = {40, 30, 30, 40};
      break;
    default: {
      s.wpts = {{Wpt::kPose, x0, y0, 0}, {Wpt::kPose, x0 + 2, y0, 0}};
      Rule q{Rule::kPointPoint, true, 0, 1};
      q.field = {x0 + 1, y0};
      q.value = 0.95;  // the ends of the example lie on the circle itself
      s.rules.push_back(q);
      rest(0); rest(1); s.N = {30};
      // The guess of the example leads through the middle of the forbidden disc.
      s.via = {{{Wpt::kFree, x0 + 0.3, y0 + 0.75, 0}, {Wpt::kFree, x0 + 1, y0 + 1.05, 0}, {Wpt::kFree, x0 + 1.7, y0 + 0.75, 0}}};
    }
  }
  return s;
}

/// The whole field turned, moved and perhaps mirrored.
struct Shift {
  double turn = 0, dx = 0, dy = 0;
  bool mirror = false;
  V2 Field(V2 p) const {
    if (mirror) p.y = -p.y;
    p = Rot(p, turn);
    return {p.x + dx, p.y + dy};
  }
  V2 Robot(V2 p) const { return {p.x, mirror ? -p.y : p.y}; }
  V2 Free(V2 p) const {
    if (mirror) p.y = -p.y;
    return Rot(p, turn);
  }
  double Heading(double h) const { return (mirror ? -h : h) + turn; }
  Spec operator()(Spec s) const {
    for (auto& m : s.modules) m.at = Robot(m.at);
    auto wp = [&](Wpt& w) {
      V2 q = Field({w.x, w.y});
      w.x = q.x; w.y = q.y; w.heading = Heading(w.heading);
    };
    for (auto& w : s.wpts) wp(w);
    for (auto& v : s.via) for (auto& w : v) wp(w);
    for (auto& r : s.rules) { r.robot = Robot(r.robot); r.robot2 = Robot(r.robot2); r.field = Field(r.field); r.field2 = Field(r.field2); }
    for (auto& b : s.bumper) b = Robot(b);
    for (auto& o : s.solids) for (auto& q : o.points) q = Field(q);
    return s;
  }
  State operator()(State st) const {
    for (size_t i = 0; i < st.x.size(); ++i) {
      V2 q = Field({st.x[i], st.y[i]});
      st.x[i] = q.x; st.y[i] = q.y;
      V2 h = Free({st.c[i], st.s[i]}), v = Free({st.vx[i], st.vy[i]}), a = Free({st.ax[i], st.ay[i]});
      st.c[i] = h.x; st.s[i] = h.y; st.vx[i] = v.x; st.vy[i] = v.y; st.ax[i] = a.x; st.ay[i] = a.y;
      if (mirror) { st.om[i] = -st.om[i]; st.al[i] = -st.al[i]; }
      for (size_t j = 0; j < st.fx[i].size(); ++j) {
        V2 f = Free({st.fx[i][j], st.fy[i][j]});
        st.fx[i][j] = f.x; st.fy[i][j] = f.y;
      }
    }
    return st;
  }
};

void Admits(Ctx& c, const Spec& p, State st, const std::string& key, const std::string& what) {
  Capture cap{p.Build(), p.modules.size()};
  auto r = cap.At(st);
  // Rows are in squared units of up to a hundred newtons.
  double scale = 1;
  for (auto& m : p.modules) scale = std::max({scale, m.F() * m.F(), m.V() * m.V()});
  c.Check(r.Feasible(1e-5 * scale + 1e-3, 1e-5 * scale + 1e-3), key, [&] { return (Desc{} << what << ": worst equality " << r.maxEq << ", worst inequality " << r.minIneq << "; " << p.str()).str(); });
}

void C33(Ctx& c) {
  c.rule = "a case is one whole generation run to convergence by the harness's interior-point solver: straight and turning moves with closed-form least times, and curved paths with waypoints, limits, keep-outs and obstacles judged by an "
           "independent physics checker; distinct by path; solved motions are then offered to loosened, moved, mirrored and renumbered variants of the path";
  c.assumptions = {"the solver is an interior-point method over the stand-in's expression graph, not Sleipnir; a path it does not solve is not judged, except that a family of ordinary paths must remain mostly solvable"};
  Rate straight, spin, paths;
  // A local optimum is the solver's, not the library's: only several slow moves tell.
  std::vector<std::string> slowStraight, slowSpin;
  auto Slow = [&](const Rate& k, const std::vector<std::string>& slow, const char* key) {
    if (slow.empty()) return;
    c.Stat(key, static_cast<int64_t>(slow.size()));
    c.Check(c.onlyCase < 0 && slow.size() < 2 + static_cast<size_t>(k.tried) / 20, key, [&] { return std::to_string(slow.size()) + " of " + std::to_string(k.tried) + ": " + slow[0]; });
  };
  c.Cases("straight", c.N(40, 300), [&](Rng& r) {
    Spec s;
    double cap = 0;
    s.mass = r.uni(15, 80);
    s.moi = r.uni(1.5, 10);
    s.modules = Modules(r, &cap);
    double Vmod = INFINITY, Vw = 0;
    for (auto& m : s.modules) { Vmod = std::min(Vmod, m.V()); Vw = std::max(Vw, m.V()); }
    size_t legs = static_cast<size_t>(r.chance(0.5) ? 1 : r.range(2, 3));
    double x = r.uni(-3, 3), y = r.uni(-3, 3), heading = r.angle(2), cap2 = 0.95 * s.MinWidth() / Vw, want = 0;
    s.wpts = {{Wpt::kPose, x, y, heading}};
    Rest(s, 0);
    std::vector<double> As, Vs;
    for (size_t k = 0; k < legs; ++k) {
      double A = cap / s.mass, V = Vmod;
      Rule q{Rule::kSpeed, true, k, k + 1};
      if (r.chance(0.3)) { q.value = V = V * r.uni(0.3, 0.9); s.rules.push_back(q); }
      q.kind = Rule::kAccel;
      if (r.chance(0.3)) { q.value = A = A * r.uni(0.3, 0.9); s.rules.push_back(q); }
      As.push_back(A);
      Vs.push_back(V);
    }
    for (size_t k = 0; k < legs; ++k) {
      // The waypoint between two legs obeys the limits of both.
      double A = As[k], V = Vs[k], last = k + 1 < legs ? As[k + 1] : A;
      double dist = r.uni(0.5, 6) / static_cast<double>(legs), dir = r.angle();
      size_t N = static_cast<size_t>(r.range(4, 40));
      double h = 0;
      while ((h = LeastTime(dist, N, A, V, last)) > cap2) (N < 40 ? N += 4 : dist *= 0.8);
      want += h * static_cast<double>(N);
      s.N.push_back(N);
      x += dist * std::cos(dir);
      y += dist * std::sin(dir);
      s.wpts.push_back({Wpt::kPose, x, y, heading});
      Rest(s, k + 1);
    }
    c.Distinct(s.str());
    auto o = Run(s);
    if (!Solved(c, straight, "straight", o, s)) return;
    c.Sample(s.str().substr(0, 200) + " T=" + std::to_string(o.T));
    Physics{c, s, *o.sol}.Run();
    c.Max("straight worst relative time error", std::abs(o.T / want - 1));
    auto text = [&] { return (Desc{} << "straight moves take " << o.T << " s, least possible is " << want << "; " << s.str()).str(); };
    c.Check(o.T >= want * (1 - 2e-3), "straight-move-too-fast", text);
    if (o.T > want * (1 + 5e-3)) slowStraight.push_back(text());
  });
  Slow(straight, slowStraight, "straight-move-too-slow");
  Converges(c, straight, "straight", 0.6);
  c.Cases("spin", c.N(30, 250), [&](Rng& r) {
    Spec s;
    double arm = 0;
    s.mass = r.uni(15, 80);
    s.moi = r.uni(1.5, 10);
    s.modules = Modules(r, nullptr, &arm);
    double A = arm / s.moi, W = INFINITY, Vw = 0;
    for (auto& m : s.modules) { W = std::min(W, m.V() / std::hypot(m.at.x, m.at.y)); Vw = std::max(Vw, m.V()); }
    if (r.chance(0.4)) {
      Rule q{Rule::kSpin, true, 0, 1};
      q.value = W = W * r.uni(0.3, 0.9);
      s.rules.push_back(q);
    }
    double turn = r.signedMag(0.3, 2.7), heading = r.angle(2);
    size_t N = static_cast<size_t>(r.range(6, 40));
    double h = 0, cap2 = 0.95 * s.MinWidth() / Vw;
    while ((h = LeastTime(std::abs(turn), N, A, W)) > cap2 || h * W > 1) (N < 40 ? N += 4 : turn *= 0.8);
    s.N = {N};
    double x = r.uni(-3, 3), y = r.uni(-3, 3);
    s.wpts = {{Wpt::kPose, x, y, heading}, {Wpt::kPose, x, y, heading + turn}};
    Rest(s, 0);
    Rest(s, 1);
    c.Distinct(s.str());
    auto o = Run(s);
    if (!Solved(c, spin, "spin", o, s)) return;
    Physics{c, s, *o.sol}.Run();
    // The way round the solver settled on.
    double total = 0;
    for (size_t i = 1; i < o.sol->omega.size(); ++i) total += o.sol->omega[i] * o.sol->dt[i - 1];
    c.Check(std::abs(total) < 2 * kPi + 1e-3 && std::abs(std::remainder(total - turn, 2 * kPi)) < 1e-3, "turn-by-another-angle", [&] { return (Desc{} << "turned by " << total << ", asked for " << turn << "; " << s.str()).str(); });
    if (std::abs(total) > kPi) c.Stat("spin the long way round");
    double want = LeastTime(std::abs(total), N, A, W) * static_cast<double>(N);
    c.Max("spin worst relative time error", std::abs(o.T / want - 1));
    c.Check(o.T >= want * (1 - 2e-3), "turn-too-fast", [&] { return (Desc{} << "turn takes " << o.T << " s, least possible is " << want << "; " << s.str()).str(); });
    if (o.T > want * (1 + 5e-3)) slowSpin.push_back((Desc{} << "turn takes " << o.T << " s, least possible is " << want << "; turn rates " << o.sol->omega << " step " << o.sol->dt[0] << " limits " << A << " " << W << "; " << s.str()).str());
  });
  Slow(spin, slowSpin, "turn-too-slow");
  Converges(c, spin, "spin", 0.6);
  c.Cases("paths", c.N(25, 250), [&](Rng& r) {
    Spec s = RandomPath(r);
    c.Distinct(s.str());
    auto o = Run(s);
    if (!Solved(c, paths, "paths", o, s)) return;
    Physics ph{c, s, *o.sol};
    if (!ph.Run()) return;
    c.Stat("limits reached", ph.active);
    State st = AsState(s, *o.sol);
    Admits(c, s, st, "own-path", "a solved motion is not admissible for its own path");
    Shift sh{r.uni(-kPi, kPi), r.uni(-5, 5), r.uni(-5, 5), r.chance(0.5)};
    Admits(c, sh(s), sh(st), sh.mirror ? "mirrored-path" : "moved-path", "a solved motion, moved with the field, is not admissible for the moved path");
    // Renumbered modules
    Spec t = s;
    State ts = st;
    std::vector<size_t> order;
    for (size_t j = 0; j < s.modules.size(); ++j) order.push_back(j);
    r.shuffle(order);
    for (size_t j = 0; j < order.size(); ++j) {
      t.modules[j] = s.modules[order[j]];
      for (size_t i = 0; i < st.x.size(); ++i) { ts.fx[i][j] = st.fx[i][order[j]]; ts.fy[i][j] = st.fy[i][order[j]]; }
    }
    r.shuffle(t.rules);
    Admits(c, t, ts, "renumbered-path", "a solved motion is not admissible when modules and rules are listed in another order");
    // Loosened limits
    t = s;
    for (auto& q : t.rules) {
      bool keepOut = q.kind == Rule::kPointPoint || q.kind == Rule::kPointLine || q.kind == Rule::kLinePoint;
      if (q.value > 0 && r.chance(0.5)) q.value *= keepOut ? r.uni(0.3, 1) : r.uni(1, 1.5);
    }
    for (auto& m : t.modules) m.torque *= r.chance(0.5) ? r.uni(1, 3) : 1;
    for (auto& q : t.solids) q.radius *= r.unit();
    if (r.chance(0.5)) t.bumperRadius *= r.unit();
    Admits(c, t, st, "loosened-path", "a solved motion is not admissible when limits are loosened");
  });
  Converges(c, paths, "curved", 0.5);
  Rate documented;
  c.Cases("documented", c.N(9, 70), [&](Rng& r) {
    size_t k = static_cast<size_t>(c.Case());
    Spec s = Documented(r, (k + c.seed) % 7, k >= 7);
    c.Distinct(s.str());
    auto o = Run(s);
    if (!Solved(c, documented, "documented " + std::to_string((k + c.seed) % 7), o, s)) return;
    Physics{c, s, *o.sol}.Run();
  });
  Converges(c, documented, "documented", 0.6);
}

}  // namespace

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C33", C33}}); }

// Records the optimization problem a generator hands to the solver, and lets
// the harness evaluate it at chosen motions. Decision variables are identified
// by observation only: the scripted solver finishes with a distinct value in
// each variable, and the returned solution shows which field reports which.
#pragma once

#include <memory>
#include <numbers>
#include <optional>
#include <unordered_map>

#include "mon.hpp"
#include <trajopt/SwerveTrajectoryGenerator.hpp>

namespace rec {

using sleipnir::OptimizationProblem;
using sleipnir::SolverConfig;
using sleipnir::SolverExitCondition;
using sleipnir::SolverStatus;
using trajopt::SwerveSolution;

inline constexpr double kPi = std::numbers::pi;

/// Installs a scripted solver for this thread while alive.
struct SolverScope {
  sleipnir::standin::Solver saved;
  explicit SolverScope(sleipnir::standin::Solver s) : saved{std::move(sleipnir::standin::ThreadSolver())} {
    sleipnir::standin::ThreadSolver() = std::move(s);
  }
  ~SolverScope() { sleipnir::standin::ThreadSolver() = std::move(saved); }
};

inline SolverStatus Status(SolverExitCondition c) {
  SolverStatus s;
  s.exitCondition = c;
  return s;
}

/// Values for every sample of a trajectory, in user-facing terms.
struct State {
  std::vector<double> x, y, c, s, vx, vy, om, ax, ay, al;
  std::vector<std::vector<double>> fx, fy;
  std::vector<double> dt;  // per segment
  void Resize(size_t samples, size_t segs, size_t modules) {
    for (auto* v : {&x, &y, &c, &s, &vx, &vy, &om, &ax, &ay, &al}) v->assign(samples, 0.0);
    fx.assign(samples, std::vector<double>(modules));
    fy = fx;
    dt.assign(segs, 0.0);
  }
  std::array<std::vector<double>*, 10> Fields() { return {&x, &y, &c, &s, &vx, &vy, &om, &ax, &ay, &al}; }
  static constexpr const char* kNames[10] = {"x", "y", "thetacos", "thetasin", "vx", "vy", "omega", "ax", "ay", "alpha"};
};

inline std::array<const std::vector<double>*, 10> SolFields(const SwerveSolution& s) {
  return {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha};
}

struct MapError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct Residuals {
  std::vector<double> eq, ineq;
  double cost = 0;
  double maxEq = 0, minIneq = INFINITY;
  bool nan = false;
  bool Feasible(double tolEq = 1e-6, double tolIneq = 1e-6) const { return !nan && maxEq <= tolEq && minIneq >= -tolIneq; }
  int Violated(double tol = 1e-7) const {
    int n = 0;
    for (double e : eq) n += !(std::abs(e) <= tol);
    for (double e : ineq) n += !(e >= -tol);
    return n;
  }
};

inline Residuals Evaluate(OptimizationProblem& p) {
  Residuals r;
  auto ep = sleipnir::standin::NextEpoch();
  auto ev = [&](sleipnir::Variable& v) { return sleipnir::standin::Eval(v.expr.get(), ep); };
  for (auto& e : p.equalityConstraints) {
    double v = ev(e);
    r.eq.push_back(v);
    if (std::isnan(v)) r.nan = true;
    r.maxEq = std::max(r.maxEq, std::abs(v));
  }
  for (auto& e : p.inequalityConstraints) {
    double v = ev(e);
    r.ineq.push_back(v);
    if (std::isnan(v)) r.nan = true;
    r.minIneq = std::min(r.minIneq, v);
  }
  if (p.f) r.cost = ev(*p.f);
  return r;
}

/// A generator run up to the solver, with identified decision variables.
class Capture {
 public:
  std::vector<size_t> N;
  size_t samples = 1, segs = 0, modules = 0;
  State initial;         // values when the solver was started
  SolverConfig config;   // what the solver was asked for
  std::unique_ptr<trajopt::SwerveTrajectoryGenerator> gen;
  OptimizationProblem* problem = nullptr;

  Capture(const trajopt::SwervePathBuilder& builder, size_t moduleCount, int64_t handle = 0)
      : Capture(builder.GetControlIntervalCounts(), moduleCount, [&] {
          return std::make_unique<trajopt::SwerveTrajectoryGenerator>(builder, handle);
        }) {}

  Capture(const std::vector<size_t>& counts, size_t moduleCount, const std::function<std::unique_ptr<trajopt::SwerveTrajectoryGenerator>()>& make)
      : N{counts}, segs{counts.size()}, modules{moduleCount} {
    for (auto n : N) samples += n;
    gen = make();
    std::optional<trajopt::expected<SwerveSolution, std::string>> res;
    auto values = Probe([&] { res.emplace(gen->Generate(false)); });
    if (!res->has_value()) throw MapError("solver reported success, Generate() returned an error: " + res->error());
    Identify(res->value(), values);
  }

  /// For recordings made through other front ends (foreign-function).
  Capture() = default;
  std::vector<double> Probe(const std::function<void()>& generate) {
    std::vector<double> values;
    SolverScope scope{[&](OptimizationProblem& p, const SolverConfig& cfg) {
      problem = &p;
      config = cfg;
      initialRaw.clear();
      for (size_t i = 0; i < p.decisionVariables.size(); ++i) {
        initialRaw.push_back(p.decisionVariables[i].Value());
        values.push_back(1000.5 + static_cast<double>(i));
        p.decisionVariables[i].SetValue(values.back());
      }
      return Status(SolverExitCondition::kSuccess);
    }};
    generate();
    if (!problem) throw MapError("the solver was not run");
    return values;
  }
  void Identify(const SwerveSolution& sol, const std::vector<double>& values) {
    std::unordered_map<double, int> idx;
    for (size_t i = 0; i < values.size(); ++i) idx[values[i]] = static_cast<int>(i);
    auto find = [&](double v, const std::string& what) {
      auto it = idx.find(v);
      if (it == idx.end()) throw MapError(what + " does not report a decision variable");
      return it->second;
    };
    auto fs = SolFields(sol);
    for (int f = 0; f < 10; ++f) {
      if (fs[f]->size() != samples)
        throw MapError(std::string{State::kNames[f]} + " has " + std::to_string(fs[f]->size()) + " entries for " + std::to_string(samples) + " samples");
      for (size_t i = 0; i < samples; ++i) map[f].push_back(find((*fs[f])[i], State::kNames[f]));
    }
    if (sol.moduleFX.size() != samples || sol.moduleFY.size() != samples) throw MapError("module force lists have a wrong length");
    for (size_t i = 0; i < samples; ++i) {
      if (sol.moduleFX[i].size() != modules || sol.moduleFY[i].size() != modules) throw MapError("module forces of a sample have a wrong length");
      mfx.emplace_back();
      mfy.emplace_back();
      for (size_t j = 0; j < modules; ++j) {
        mfx.back().push_back(find(sol.moduleFX[i][j], "moduleFX"));
        mfy.back().push_back(find(sol.moduleFY[i][j], "moduleFY"));
      }
    }
    size_t off = 0;
    if (sol.dt.size() != samples - 1) throw MapError("dt has " + std::to_string(sol.dt.size()) + " entries for " + std::to_string(samples - 1) + " intervals");
    for (size_t k = 0; k < segs; ++k) {
      if (N[k] == 0) {
        mdt.push_back(-1);
        continue;
      }
      mdt.push_back(find(sol.dt[off], "dt"));
      for (size_t i = 0; i < N[k]; ++i)
        if (sol.dt[off + i] != sol.dt[off]) throw MapError("dt differs within a segment");
      off += N[k];
    }
    std::set<int> used;
    size_t total = 0;
    auto use = [&](int i) { if (i >= 0) { used.insert(i); ++total; } };
    for (auto& m : map) for (int i : m) use(i);
    for (auto& v : mfx) for (int i : v) use(i);
    for (auto& v : mfy) for (int i : v) use(i);
    for (int i : mdt) use(i);
    if (used.size() != total) throw MapError("two solution fields report the same decision variable");
    initial.Resize(samples, segs, modules);
    auto in = initial.Fields();
    for (int f = 0; f < 10; ++f)
      for (size_t i = 0; i < samples; ++i) (*in[f])[i] = initialRaw[map[f][i]];
    for (size_t i = 0; i < samples; ++i)
      for (size_t j = 0; j < modules; ++j) {
        initial.fx[i][j] = initialRaw[mfx[i][j]];
        initial.fy[i][j] = initialRaw[mfy[i][j]];
      }
    for (size_t k = 0; k < segs; ++k) initial.dt[k] = mdt[k] < 0 ? 0.0 : initialRaw[mdt[k]];
    // Variables not reported (dt of an empty segment) get a harmless value.
    for (size_t i = 0; i < initialRaw.size(); ++i)
      if (!used.count(static_cast<int>(i))) {
        problem->decisionVariables[i].SetValue(1e-5);
        unreported.push_back(static_cast<int>(i));
      }
  }

  void Assign(State& st) {
    auto in = st.Fields();
    auto& dv = problem->decisionVariables;
    for (int f = 0; f < 10; ++f)
      for (size_t i = 0; i < samples; ++i) dv[map[f][i]].SetValue((*in[f])[i]);
    for (size_t i = 0; i < samples; ++i)
      for (size_t j = 0; j < modules; ++j) {
        dv[mfx[i][j]].SetValue(st.fx[i][j]);
        dv[mfy[i][j]].SetValue(st.fy[i][j]);
      }
    for (size_t k = 0; k < segs; ++k)
      if (mdt[k] >= 0) dv[mdt[k]].SetValue(st.dt[k]);
  }
  Residuals At(State& st) {
    Assign(st);
    return Evaluate(*problem);
  }
  /// Independent layout: sample index of a waypoint.
  size_t WptSample(size_t wpt) const {
    size_t i = 0;
    for (size_t k = 0; k < wpt; ++k) i += N[k];
    return i;
  }

  std::array<std::vector<int>, 10> map;
  std::vector<std::vector<int>> mfx, mfy;
  std::vector<int> mdt, unreported;
  std::vector<double> initialRaw;
};

/// Reference plane geometry (long double).
struct V2 {
  double x = 0, y = 0;
};
inline V2 Rot(V2 p, double th) { return {p.x * std::cos(th) - p.y * std::sin(th), p.x * std::sin(th) + p.y * std::cos(th)}; }
inline double SegDist(V2 a, V2 b, V2 p) {
  long double lx = (long double)b.x - a.x, ly = (long double)b.y - a.y, px = (long double)p.x - a.x, py = (long double)p.y - a.y;
  long double l2 = lx * lx + ly * ly;
  long double t = l2 > 0 ? (px * lx + py * ly) / l2 : 0;
  t = t < 0 ? 0 : (t > 1 ? 1 : t);
  return static_cast<double>(std::sqrt((px - t * lx) * (px - t * lx) + (py - t * ly) * (py - t * ly)));
}

/// A physical motion which satisfies the stated discrete model by
/// construction; `Fault` breaks exactly one stated relation at one sample.
struct Fault {
  enum Kind { kNone, kX, kY, kTheta, kVx, kVy, kOmega, kFx, kFy, kTau } kind = kNone;
  size_t sample = 0;
  double delta = 0;
};
inline const char* FaultName(Fault::Kind k) {
  static const char* n[] = {"none", "position-x", "position-y", "heading", "velocity-x", "velocity-y", "turn-rate", "force-x", "force-y", "torque"};
  return n[k];
}

struct Motion {
  std::vector<size_t> N;
  std::vector<V2> modules;  // positions
  double mass = 1, moi = 1;
  std::vector<double> dt;                   // per segment
  std::vector<std::vector<V2>> robotForce;  // per sample, per module, in robot frame
  double x0 = 0, y0 = 0, th0 = 0, vx0 = 0, vy0 = 0, om0 = 0;
  std::vector<double> theta;  // filled by Simulate

  size_t Samples() const {
    size_t n = 1;
    for (auto k : N) n += k;
    return n;
  }
  /// The same motion of a robot k times as heavy.
  void Heavier(double k) {
    mass *= k; moi *= k;
    for (auto& f : robotForce) for (auto& q : f) { q.x *= k; q.y *= k; }
  }
  /// The same motion k times as slow.
  void Slower(double k) {
    for (auto& h : dt) h *= k;
    vx0 /= k; vy0 /= k; om0 /= k;
    for (auto& f : robotForce) for (auto& q : f) { q.x /= k * k; q.y /= k * k; }
  }
  void Vary(mon::Rng& r) {
    if (r.chance(0.2)) Heavier(r.logUni(0.03, 30));
    if (r.chance(0.2)) Slower(r.logUni(0.3, 10));
  }
  State Simulate(const Fault& f = {}) {
    size_t S = Samples(), M = modules.size();
    State st;
    st.Resize(S, N.size(), M);
    st.dt = dt;
    theta.assign(S, 0);
    size_t seg = 0, left = 0;
    double x = x0, y = y0, th = th0, vx = vx0, vy = vy0, om = om0;
    for (size_t i = 0; i < S; ++i) {
      double h = 0;
      if (i > 0) {
        if (left == 0) {
          while (N[seg] == 0) ++seg;
          left = N[seg];
        }
        h = dt[seg];
      }
      auto d = [&](Fault::Kind k) { return f.kind == k && f.sample == i ? f.delta : 0.0; };
      double tau = 0;
      V2 F{};
      for (size_t j = 0; j < M; ++j) {
        V2 q = robotForce[i][j];
        tau += modules[j].x * q.y - modules[j].y * q.x;
      }
      double al = tau / moi + d(Fault::kTau);
      if (i > 0) {
        om = om + al * h + d(Fault::kOmega);
        th = th + om * h + d(Fault::kTheta);
      }
      for (size_t j = 0; j < M; ++j) {
        V2 q = Rot(robotForce[i][j], th);
        st.fx[i][j] = q.x;
        st.fy[i][j] = q.y;
        F.x += q.x;
        F.y += q.y;
      }
      double ax = F.x / mass + d(Fault::kFx), ay = F.y / mass + d(Fault::kFy);
      if (i > 0) {
        vx = vx + ax * h + d(Fault::kVx);
        vy = vy + ay * h + d(Fault::kVy);
        x = x + vx * h + d(Fault::kX);
        y = y + vy * h + d(Fault::kY);
      }
      st.x[i] = x; st.y[i] = y; st.c[i] = std::cos(th); st.s[i] = std::sin(th);
      st.vx[i] = vx; st.vy[i] = vy; st.om[i] = om; st.ax[i] = ax; st.ay[i] = ay; st.al[i] = al;
      theta[i] = th;
      if (i > 0 && --left == 0) ++seg;
    }
    return st;
  }
};

inline double WheelSpeed(const State& st, const V2& m, size_t i) {
  // ground velocity of the wheel = v + omega x R(theta) r
  double rx = st.c[i] * m.x - st.s[i] * m.y, ry = st.s[i] * m.x + st.c[i] * m.y;
  return std::hypot(st.vx[i] - st.om[i] * ry, st.vy[i] + st.om[i] * rx);
}

inline Motion RandomMotion(mon::Rng& r, std::vector<size_t> N, size_t M, double force = 20, double speed = 1.5) {
  Motion m;
  m.N = std::move(N);
  m.mass = r.chance(0.15) ? r.logUni(0.5, 500) : r.round(2, 60);
  m.moi = r.chance(0.15) ? r.logUni(0.2, 80) : r.round(0.5, 8);
  if (r.chance(0.03)) m.moi = m.mass;
  // Module positions: pairwise distinct coordinates at least 0.15 apart.
  std::vector<int> gx, gy;
  for (int i = -4; i <= 4; ++i) { gx.push_back(i); gy.push_back(i); }
  r.shuffle(gx);
  r.shuffle(gy);
  for (size_t j = 0; j < M; ++j)
    m.modules.push_back({gx[j % gx.size()] * 0.25 + r.uni(-0.04, 0.04), gy[j % gy.size()] * 0.25 + r.uni(-0.04, 0.04)});
  for (size_t k = 0; k < m.N.size(); ++k) m.dt.push_back(r.uni(0.002, 0.03));
  m.robotForce.resize(m.Samples());
  for (auto& f : m.robotForce)
    for (size_t j = 0; j < M; ++j) f.push_back({r.uni(-force, force), r.uni(-force, force)});
  m.x0 = r.round(-5, 5); m.y0 = r.round(-5, 5); m.th0 = r.chance(0.3) ? r.angle(2) : r.uni(-7, 7);
  if (m.dt.size() > 1 && r.chance(0.2)) m.dt.back() = m.dt.front();
  m.vx0 = r.uni(-speed, speed); m.vy0 = r.uni(-speed, speed); m.om0 = r.uni(-2, 2);
  return m;
}

inline std::vector<size_t> RandomCounts(mon::Rng& r, int maxSegs = 4, int maxN = 6) {
  std::vector<size_t> N;
  int segs = static_cast<int>(r.chance(0.02) ? r.range(maxSegs, 30) : r.range(1, maxSegs));
  for (int k = 0; k < segs; ++k) N.push_back(static_cast<size_t>(r.range(1, maxN)));
  return N;
}

}  // namespace rec

// C11 kinematics, C12 dynamics, C13 wheel limits, C14 objective and time steps,
// C15 module order, C17 result integrity.
#include "rec.hpp"

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace rec;

struct Limits {
  std::vector<double> speed, force, radius;  // per module
  double torque = 0, turn = 0;  // if set, the same for all modules (radii follow)
};

static double MinSpacing(const std::vector<V2>& m) {
  double w = INFINITY;
  for (size_t i = 0; i < m.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      if (double d = std::abs(m[i].x - m[j].x); d != 0) w = std::min(w, d);
      if (double d = std::abs(m[i].y - m[j].y); d != 0) w = std::min(w, d);
    }
  return w;
}

static trajopt::SwerveDrivetrain Drivetrain(const Motion& m, const Limits& l, const std::vector<size_t>& order = {}) {
  trajopt::SwerveDrivetrain d{m.mass, m.moi, {}};
  for (size_t k = 0; k < m.modules.size(); ++k) {
    size_t j = order.empty() ? k : order[k];
    if (l.torque > 0) d.modules.push_back({{m.modules[j].x, m.modules[j].y}, l.torque / l.force[j], l.speed[j] * l.force[j] / l.torque, l.torque});
    else if (l.turn > 0) d.modules.push_back({{m.modules[j].x, m.modules[j].y}, l.speed[j] / l.turn, l.turn, l.force[j] * l.speed[j] / l.turn});
    else d.modules.push_back({{m.modules[j].x, m.modules[j].y}, l.radius[j], l.speed[j] / l.radius[j], l.force[j] * l.radius[j]});
  }
  return d;
}

static trajopt::SwervePathBuilder Builder(const Motion& m, const Limits& l, const std::vector<size_t>& order = {}) {
  trajopt::SwervePathBuilder b;
  b.SetDrivetrain(Drivetrain(m, l, order));
  b.WptInitialGuessPoint(m.N.size(), trajopt::Pose2d{1.0, 2.0, 0.5});
  auto n = m.N;
  b.ControlIntervalCounts(std::move(n));
  return b;
}

static void Cover(Limits& l, const Motion& m, const State& st, double margin) {
  for (size_t j = 0; j < m.modules.size(); ++j)
    for (size_t i = 0; i < st.x.size(); ++i) {
      l.speed[j] = std::max(l.speed[j], WheelSpeed(st, m.modules[j], i) * margin);
      l.force[j] = std::max(l.force[j], std::hypot(st.fx[i][j], st.fy[i][j]) * margin);
    }
}
static Limits NewLimits(Rng& r, const Motion& m) {
  Limits l;
  for (size_t j = 0; j < m.modules.size(); ++j) {
    l.speed.push_back(1e-3);
    l.force.push_back(1e-3);
    l.radius.push_back(r.uni(0.02, 0.12));
  }
  if (r.chance(0.25)) std::fill(l.radius.begin(), l.radius.end(), 0.05);
  else if (r.chance(0.15)) l.torque = r.uni(0.5, 5);
  else if (r.chance(0.15)) l.turn = r.uni(20, 200);
  return l;
}
static bool StepsFit(const Motion& m, const Limits& l) {
  double w = MinSpacing(m.modules), v = 0;
  for (double s : l.speed) v = std::max(v, s);
  for (double h : m.dt)
    if (h * v > 0.9 * w) return false;
  return true;
}

static std::string Describe(const Motion& m, const Limits& l) {
  Desc d;
  d << "N=" << m.N << " dt=" << m.dt << " mass=" << m.mass << " moi=" << m.moi << " common torque=" << l.torque << " common wheel speed=" << l.turn << " modules=[";
  for (size_t j = 0; j < m.modules.size(); ++j)
    d << "(" << m.modules[j].x << "," << m.modules[j].y << " r=" << l.radius[j] << " speed=" << l.speed[j] << " force=" << l.force[j] << ")";
  d << "] start=(" << m.x0 << "," << m.y0 << "," << m.th0 << "; " << m.vx0 << "," << m.vy0 << "," << m.om0 << ")";
  return d.str();
}

static std::string Worst(const Residuals& r) {
  return (Desc{} << "max |equality|=" << r.maxEq << " min inequality=" << r.minIneq << (r.nan ? " (nan)" : "")).str();
}

static void Arrange(Rng& r, Motion& m) {
  // Half of the drivetrains are rectangles, as real ones are.
  if (m.modules.size() == 4 && r.chance(0.5)) {
    double a = r.uni(0.2, 0.4), b = r.uni(0.2, 0.4);
    m.modules = {{a, b}, {a, -b}, {-a, b}, {-a, -b}};
    r.shuffle(m.modules);
    return;
  }
  if (m.modules.empty() || !r.chance(0.35)) return;
  // Special places: on an axis, at the center, in one spot, all in one line.
  auto any = [&]() -> V2& { return m.modules[static_cast<size_t>(r.range(0, static_cast<int64_t>(m.modules.size()) - 1))]; };
  for (int k = static_cast<int>(r.range(1, 3)); k > 0; --k) switch (r.range(0, 5)) {
      case 0: any().x = 0; break;
      case 1: any().y = 0; break;
      case 2: any() = {0, 0}; break;
      case 3: { V2 q = any(); any() = q; } break;
      case 4: { double y = any().y; any().y = y; any().y = -y; } break;
      case 5: if (r.chance(0.3)) { double x = any().x; for (auto& q : m.modules) q.x = x; } break;
    }
}
/// Now and then a segment as long as in real use.
static std::vector<size_t> Counts(Rng& r, int maxSegs = 4, int maxN = 6) {
  auto N = RandomCounts(r, maxSegs, maxN);
  if (r.chance(0.04)) N[static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 1))] = static_cast<size_t>(r.chance(0.4) ? 40 : r.range(10, 90));
  return N;
}

static const std::string kMotionRule =
    "a case is a random drivetrain (0-8 modules, distinct per-module limits), random interval counts and a random motion integrated forward "
    "from module forces, so that it satisfies the stated model by construction; the recorded problem must accept it and must reject variants in "
    "which exactly one stated relation is broken at one sample; distinct by case content; non-trivial: at least one fault evaluated";

// Kinematic and dynamic faults.
static void Faults(Ctx& c, const std::vector<Fault::Kind>& kinds, uint64_t n) {
  c.rule = kMotionRule;
  c.Cases("motion", n, [&](Rng& r) {
    size_t M = static_cast<size_t>(r.chance(0.1) ? 0 : r.range(1, r.chance(0.2) ? 8 : 5));
    Motion m = RandomMotion(r, Counts(r), M, r.chance(0.5) ? 20 : 120);
    Arrange(r, m);
    m.Vary(r);
    struct T { Fault f; State st; };
    std::vector<T> tests;
    Limits l;
    std::vector<Fault> faults;
    int want = 14;
    for (int k = 0; k < want; ++k) {
      Fault f;
      f.kind = r.pick(kinds);
      bool dyn = f.kind == Fault::kFx || f.kind == Fault::kFy || f.kind == Fault::kTau;
      int64_t S = static_cast<int64_t>(m.Samples());
      // Make sure first, last and border samples come up often.
      f.sample = static_cast<size_t>(r.chance(0.2) ? S - 1 : r.range(dyn ? 0 : 1, S - 1));
      if (dyn && r.chance(0.15)) f.sample = 0;
      if (r.chance(0.25)) {
        size_t b = 0, seg = static_cast<size_t>(r.range(0, static_cast<int64_t>(m.N.size()) - 1));
        for (size_t q = 0; q <= seg; ++q) b += m.N[q];
        f.sample = r.chance(0.5) ? b : std::min<size_t>(b + 1, static_cast<size_t>(S - 1));
      }
      f.delta = f.kind == Fault::kTheta ? r.signedMag(0.02, 1.5) : r.signedMag(0.02, 0.5);
      faults.push_back(f);
    }
    for (int attempt = 0;; ++attempt) {
      tests.clear();
      tests.push_back({{}, m.Simulate()});
      for (auto& f : faults) tests.push_back({f, m.Simulate(f)});
      l = NewLimits(r, m);
      for (auto& t : tests) Cover(l, m, t.st, 1.05);
      if (StepsFit(m, l)) break;
      if (attempt > 40) return;
      for (auto& h : m.dt) h *= 0.6;
    }
    Capture cap{Builder(m, l), M};
    for (auto& t : tests) {
      auto res = cap.At(t.st);
      if (t.f.kind == Fault::kNone) {
        c.Check(res.Feasible(1e-6, 1e-7), "valid-motion-rejected", [&] { return Describe(m, l) + " " + Worst(res); });
        c.Stat("valid_motions");
      } else {
        c.Check(!res.Feasible(1e-6, 1e-7), std::string{"broken-motion-accepted:"} + FaultName(t.f.kind), [&] {
          return (Desc{} << Describe(m, l) << " fault " << FaultName(t.f.kind) << " at sample " << t.f.sample << " of " << m.Samples() << " by " << t.f.delta << " " << Worst(res)).str();
        });
        c.Stat(std::string{"faults_"} + FaultName(t.f.kind));
      }
    }
    c.Distinct(Describe(m, l));
    c.Sample(Describe(m, l));
  });
}

static void C11(Ctx& c) {
  Faults(c, {Fault::kX, Fault::kY, Fault::kTheta, Fault::kVx, Fault::kVy, Fault::kOmega}, c.N(1200, 16000));
  // Wrong step: using another segment's step, or none, must be rejected.
  c.Cases("step-of-other-segment", c.N(150, 2000), [&](Rng& r) {
    auto N = Counts(r, 4, 4);
    if (N.size() < 2) N.push_back(2);
    Motion m = RandomMotion(r, N, 3);
    for (size_t k = 0; k < m.dt.size(); ++k) m.dt[k] = 0.004 + 0.006 * static_cast<double>(k) + r.uni(0, 0.001);
    auto st = m.Simulate();
    auto l = NewLimits(r, m);
    Cover(l, m, st, 1.05);
    if (!StepsFit(m, l)) return;
    Capture cap{Builder(m, l), 3};
    c.Check(cap.At(st).Feasible(), "valid-motion-rejected", [&] { return Describe(m, l); });
    size_t a = static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 2)), b = a + 1;
    std::swap(st.dt[a], st.dt[b]);
    c.Check(!cap.At(st).Feasible(1e-6, 1e-7), "wrong-step-accepted", [&] { return Describe(m, l); });
    c.Distinct(Describe(m, l));
  });
  // Known: the heading relation also accepts a jump of half a turn.
  c.Cases("half-turn", 1, [&](Rng& r) {
    Motion m = RandomMotion(r, {3}, 4);
    for (auto& f : m.robotForce) for (auto& q : f) q = {0, 0};
    m.vx0 = m.vy0 = m.om0 = 0;
    auto st = m.Simulate();
    st.c[2] = -st.c[2]; st.s[2] = -st.s[2];
    auto l = NewLimits(r, m);
    Capture cap{Builder(m, l), 4};
    c.Check(!cap.At(st).Feasible(), "known-half-turn-jump-accepted", [&] { return std::string{"robot at rest, heading reversed at sample 2 of 4"}; });
    // Known: without a pose waypoint the heading vector may be scaled by k, 1/k, k, ...
    auto st2 = m.Simulate();
    for (size_t i = 0; i < st2.c.size(); ++i) {
      double k = i % 2 ? 0.5 : 2.0;
      st2.c[i] *= k; st2.s[i] *= k;
    }
    c.Check(!cap.At(st2).Feasible(), "known-nonunit-heading-accepted", [&] { return std::string{"robot at rest, heading vectors of length 2, 0.5, 2, 0.5, no pose waypoint"}; });
  });
}

static void C12(Ctx& c) {
  Faults(c, {Fault::kFx, Fault::kFy, Fault::kTau}, c.N(1200, 16000));
  // Moving force between modules keeps the sum but changes the torque.
  c.Cases("couple", c.N(500, 8000), [&](Rng& r) {
    size_t M = static_cast<size_t>(r.range(2, 5));
    Motion m = RandomMotion(r, Counts(r), M);
    Arrange(r, m);
    auto st = m.Simulate();
    size_t i = static_cast<size_t>(r.range(0, static_cast<int64_t>(m.Samples()) - 1));
    size_t a = static_cast<size_t>(r.range(0, static_cast<int64_t>(M) - 1)), b = (a + 1) % M;
    // field-frame lever arm between the two modules
    V2 lever = Rot({m.modules[a].x - m.modules[b].x, m.modules[a].y - m.modules[b].y}, m.theta[i]);
    double len = std::hypot(lever.x, lever.y), f = r.signedMag(1, 5);
    if (len < 0.05) return;
    auto bad = st, good = st;
    bad.fx[i][a] += -lever.y / len * f; bad.fy[i][a] += lever.x / len * f;
    bad.fx[i][b] -= -lever.y / len * f; bad.fy[i][b] -= lever.x / len * f;
    good.fx[i][a] += lever.x / len * f; good.fy[i][a] += lever.y / len * f;
    good.fx[i][b] -= lever.x / len * f; good.fy[i][b] -= lever.y / len * f;
    auto l = NewLimits(r, m);
    Cover(l, m, st, 1.05); Cover(l, m, bad, 1.05); Cover(l, m, good, 1.05);
    if (!StepsFit(m, l)) return;
    Capture cap{Builder(m, l), M};
    auto rg = cap.At(good), rb = cap.At(bad);
    c.Check(rg.Feasible(), "internal-force-rejected", [&] { return Describe(m, l) + Worst(rg); });
    c.Check(!rb.Feasible(), "unexplained-torque-accepted", [&] { return Describe(m, l) + Worst(rb); });
    c.Distinct(Describe(m, l));
    c.Stat("couples");
  });
}

static void C13(Ctx& c) {
  c.rule = kMotionRule + "; here the fault is one module's limit placed between its largest and second largest demand of the motion, so that exactly one (sample, module) pair exceeds it";
  c.Cases("limits", c.N(1500, 20000), [&](Rng& r) {
    size_t M = static_cast<size_t>(r.range(1, r.chance(0.2) ? 8 : 5));
    Motion m = RandomMotion(r, Counts(r), M, 40);
    Arrange(r, m);
    size_t S = m.Samples();
    size_t iS = static_cast<size_t>(r.range(0, static_cast<int64_t>(S) - 1)), jS = static_cast<size_t>(r.range(0, static_cast<int64_t>(M) - 1));
    bool speed = r.chance(0.5);
    if (speed) {
      // Push towards a peak of speed at iS.
      double p = r.uni(200, 900);
      m.th0 = r.uni(-3, 3);
      m.om0 = r.uni(-0.5, 0.5);
      for (size_t i = 0; i < S; ++i)
        for (auto& q : m.robotForce[i]) { q.x = (i <= iS ? p : -p) * r.uni(0.9, 1.1); q.y = r.uni(-5, 5); }
      m.vx0 = 1.0 * std::cos(m.th0); m.vy0 = 1.0 * std::sin(m.th0);
    } else {
      m.robotForce[iS][jS] = {r.signedMag(45, 80), r.signedMag(45, 80)};
    }
    m.Vary(r);
    State st;
    Limits l;
    for (int a = 0;; ++a) {
      st = m.Simulate();
      l = NewLimits(r, m);
      Cover(l, m, st, 1.002);
      if (StepsFit(m, l)) break;
      if (a > 40) return;
      for (auto& h : m.dt) h *= 0.6;
    }
    auto b = Builder(m, l);
    {
      Capture cap{b, M};
      auto res = cap.At(st);
      c.Check(res.Feasible(1e-6, 1e-9), "motion-within-limits-rejected", [&] { return Describe(m, l) + " " + Worst(res); });
    }
    // Tighten one module.
    for (size_t j = 0; j < M; ++j) {
      if (!speed && j != jS) continue;
      std::vector<std::pair<double, size_t>> d;
      for (size_t i = 0; i < S; ++i) d.push_back({speed ? WheelSpeed(st, m.modules[j], i) : std::hypot(st.fx[i][j], st.fy[i][j]), i});
      std::sort(d.rbegin(), d.rend());
      double second = d.size() > 1 ? d[1].first : 0.0;
      if ((d[0].first - second) * d[0].first < 2e-5 || d[0].first - second < 2e-4 * d[0].first) continue;
      auto t = l;
      (speed ? t.speed : t.force)[j] = d[0].first - std::min((d[0].first - second) / 2, 0.05 * d[0].first);
      Capture cap{Builder(m, t), M};
      auto res = cap.At(st);
      size_t at = d[0].second;
      std::string where = at == 0 ? "first" : at == S - 1 ? "last" : "interior";
      c.Check(!res.Feasible(1e-6, 1e-6), std::string{speed ? "wheel-speed" : "wheel-force"} + "-excess-accepted",
              [&] { return (Desc{} << Describe(m, t) << " module " << j << " exceeds at sample " << at << " of " << S << " " << Worst(res)).str(); });
      c.Stat((speed ? "speed_excess_" : "force_excess_") + where);
      c.Distinct((Desc{} << Describe(m, t) << j << speed).str());
    }
    // The same limit for all modules, exceeded by one of them at one sample.
    {
      struct D { double v; size_t i, j; };
      std::vector<D> d;
      for (size_t j = 0; j < M; ++j)
        for (size_t i = 0; i < S; ++i) d.push_back({speed ? WheelSpeed(st, m.modules[j], i) : std::hypot(st.fx[i][j], st.fy[i][j]), i, j});
      std::sort(d.begin(), d.end(), [](auto& p, auto& q) { return p.v > q.v; });
      double second = d.size() > 1 ? d[1].v : 0.0;
      if ((d[0].v - second) * d[0].v >= 2e-5 && d[0].v - second >= 2e-4 * d[0].v) {
        auto t = l;
        double lim = d[0].v - std::min((d[0].v - second) / 2, 0.05 * d[0].v);
        auto& set = speed ? t.speed : t.force;
        std::fill(set.begin(), set.end(), lim);
        Capture cap{Builder(m, t), M};
        auto res = cap.At(st);
        c.Check(!res.Feasible(1e-6, 1e-6), std::string{"common-"} + (speed ? "wheel-speed" : "wheel-force") + "-excess-accepted",
                [&] { return (Desc{} << Describe(m, t) << " module " << d[0].j << " exceeds at sample " << d[0].i << " of " << S << " " << Worst(res)).str(); });
        c.Stat("common_limit_excess");
      }
    }
    c.Sample(Describe(m, l));
  });
}

static Motion Rest(Rng& r, std::vector<size_t> N, size_t M) {
  Motion m = RandomMotion(r, std::move(N), M);
  for (auto& f : m.robotForce)
    for (auto& q : f) q = {0, 0};
  m.vx0 = m.vy0 = m.om0 = 0;
  return m;
}

static void GridModules(Rng& r, Motion& m) {
  // Coordinates from a small grid, so that equal coordinates are common.
  double sx = r.uni(0.1, 0.5), sy = r.uni(0.1, 0.5);
  for (auto& q : m.modules) q = {sx * static_cast<double>(r.range(-3, 3)) * (r.chance(0.3) ? 1.37 : 1.0), sy * static_cast<double>(r.range(-3, 3)) * (r.chance(0.3) ? 1.21 : 1.0)};
}

static void C14(Ctx& c) {
  c.rule = "a case is a random drivetrain and interval counts; the recorded cost is evaluated at random time steps, and acceptance of a resting "
           "motion is observed with one segment's step negative, zero, just inside and just outside the stated bound; distinct by case content; "
           "non-trivial: a finite step bound exists";
  c.Cases("objective", c.N(500, 8000), [&](Rng& r) {
    auto N = Counts(r, 5, 7);
    size_t M = static_cast<size_t>(r.range(0, r.chance(0.1) ? 14 : 5));
    if (r.chance(0.03)) { N = {static_cast<size_t>(r.range(200, 1500)), 3}; r.shuffle(N); M = std::min<size_t>(M, 2); }
    Motion m = Rest(r, N, M);
    if (r.chance(0.6)) GridModules(r, m); else Arrange(r, m);
    if (r.chance(0.25)) {  // toys and very large robots
      double size = r.logUni(0.02, 50);
      for (auto& q : m.modules) q = {q.x * size, q.y * size};
    }
    Limits l = NewLimits(r, m);
    double vmax = 0;
    double slow = r.chance(0.2) ? r.logUni(1e-5, 5) : 1.0;
    for (auto& v : l.speed) { v = slow * r.uni(0.5, 6); vmax = std::max(vmax, v); }
    double w = MinSpacing(m.modules);
    double bound = M == 0 || !std::isfinite(w) ? INFINITY : w / vmax;
    Capture cap{Builder(m, l), M};
    for (int t = 0; t < 4; ++t) {
      auto st = m.Simulate();
      long double ref = 0;
      for (size_t k = 0; k < N.size(); ++k) {
        st.dt[k] = r.chance(0.1) ? 0.0 : r.uni(0, 3);
        ref += (long double)N[k] * st.dt[k];
      }
      auto res = cap.At(st);
      c.Check(mon::Near(res.cost, static_cast<double>(ref), 1e-10 * (1 + std::abs(static_cast<double>(ref)))), "cost-is-not-total-time",
              [&] { return (Desc{} << Describe(m, l) << " dt=" << st.dt << " cost=" << res.cost << " expected " << static_cast<double>(ref)).str(); });
      c.Stat("costs");
    }
    double safe = std::min(bound, 1.0) * 0.1;
    auto trial = [&](size_t seg, double h, bool accept, const char* key) {
      m.dt.assign(N.size(), safe);
      m.dt[seg] = h;
      auto st = m.Simulate();
      auto res = cap.At(st);
      c.Check(res.Feasible(1e-9, 1e-9) == accept, key, [&] {
        return (Desc{} << Describe(m, l) << " segment " << seg << " step " << h << " bound " << bound << " " << Worst(res)).str();
      });
      c.Stat(accept ? "steps_accepted" : "steps_rejected");
    };
    for (size_t k = 0; k < N.size(); ++k) {
      trial(k, -r.uni(1e-4, 0.5), false, "negative-step-accepted");
      trial(k, 0.0, true, "zero-step-rejected");
      if (std::isfinite(bound)) {
        trial(k, bound * r.uni(0.9, 0.999), true, "step-within-bound-rejected");
        trial(k, bound * r.uni(1.001, 1.3), false, "step-beyond-bound-accepted");
      } else {
        trial(k, r.logUni(1, 1e7), true, "unbounded-step-rejected");
      }
    }
    if (std::isfinite(bound)) c.Distinct(Describe(m, l));
    c.Sample(Describe(m, l));
  });
}

/// Changes the module forces of every sample, one sample after the other, so that
/// the recorded problem's equalities hold as well as these forces allow
/// (least squares by conjugate gradients; the residuals are affine in them).
static void ProjectForces(Capture& cap, State& st) {
  for (size_t i = 0; i < st.x.size(); ++i) {
    std::vector<double*> u;
    for (auto& f : st.fx[i]) u.push_back(&f);
    for (auto& f : st.fy[i]) u.push_back(&f);
    auto e0 = cap.At(st).eq;
    std::vector<std::vector<std::pair<size_t, double>>> cols(u.size());
    for (size_t k = 0; k < u.size(); ++k) {
      double was = *u[k];
      *u[k] = was + 16.0;
      auto e = cap.At(st).eq;
      *u[k] = was;
      for (size_t q = 0; q < e.size(); ++q)
        if (std::abs(e[q] - e0[q]) > 1e-9) cols[k].push_back({q, (e[q] - e0[q]) / 16.0});
    }
    std::vector<double> d(u.size()), res(e0.size()), g(u.size()), p, jp(e0.size());
    for (size_t q = 0; q < e0.size(); ++q) res[q] = -e0[q];
    auto gradient = [&] {
      double n = 0;
      for (size_t k = 0; k < u.size(); ++k) {
        g[k] = 0;
        for (auto& [q, v] : cols[k]) g[k] += v * res[q];
        n += g[k] * g[k];
      }
      return n;
    };
    double gg = gradient();
    p = g;
    for (int it = 0; it < 60 && gg > 1e-24; ++it) {
      std::fill(jp.begin(), jp.end(), 0.0);
      for (size_t k = 0; k < u.size(); ++k)
        for (auto& [q, v] : cols[k]) jp[q] += v * p[k];
      double jj = 0;
      for (double v : jp) jj += v * v;
      if (jj == 0) break;
      double al = gg / jj;
      for (size_t k = 0; k < u.size(); ++k) d[k] += al * p[k];
      for (size_t q = 0; q < res.size(); ++q) res[q] -= al * jp[q];
      double n = gradient();
      for (size_t k = 0; k < u.size(); ++k) p[k] = g[k] + n / gg * p[k];
      gg = n;
    }
    for (size_t k = 0; k < u.size(); ++k) *u[k] += d[k];
  }
}

static void C15(Ctx& c) {
  c.rule = "a case is a drivetrain and a random reordering of its modules; both recorded problems are evaluated at the same motions (valid, "
           "single-fault, limit-exceeding, and at rest with time steps around every module spacing) and must agree on acceptance and cost; "
           "distinct by case content; non-trivial: the reordering is not the identity";
  c.Cases("permute", c.N(350, 5000), [&](Rng& r) {
    size_t M = static_cast<size_t>(r.range(2, r.chance(0.1) ? 14 : 6));
    bool rest = r.chance(0.5);
    Motion m = rest ? Rest(r, Counts(r), M) : RandomMotion(r, Counts(r), M);
    if (rest && r.chance(0.7)) GridModules(r, m);
    Arrange(r, m);
    std::vector<size_t> order(M);
    for (size_t j = 0; j < M; ++j) order[j] = j;
    do r.shuffle(order); while (std::is_sorted(order.begin(), order.end()));
    auto l = NewLimits(r, m);
    std::vector<State> states;
    double vmax = 0;
    if (rest) {
      for (auto& v : l.speed) { v = r.chance(0.2) ? r.logUni(1e-3, 50) : r.uni(0.5, 6); vmax = std::max(vmax, v); }
      std::vector<double> sp;
      for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < i; ++j) {
          sp.push_back(std::abs(m.modules[i].x - m.modules[j].x));
          sp.push_back(std::abs(m.modules[i].y - m.modules[j].y));
        }
      std::sort(sp.begin(), sp.end());
      for (double d : sp) {
        if (d < 1e-6) continue;
        m.dt.assign(m.N.size(), d / vmax * 1.0001);
        states.push_back(m.Simulate());
        m.dt.assign(m.N.size(), d / vmax * 0.9999);
        states.push_back(m.Simulate());
      }
    } else {
      auto st = m.Simulate();
      Cover(l, m, st, 1.01);
      states.push_back(st);
      for (int k = 0; k < 6; ++k) {
        Fault f{static_cast<Fault::Kind>(r.range(1, 9)), static_cast<size_t>(r.range(1, static_cast<int64_t>(m.Samples()) - 1)), r.signedMag(0.05, 0.4)};
        states.push_back(m.Simulate(f));
      }
      // One module's force swapped with another's: wrong torque unless reordered alike.
      auto sw = st;
      size_t i = static_cast<size_t>(r.range(0, static_cast<int64_t>(m.Samples()) - 1));
      size_t p = static_cast<size_t>(r.range(0, static_cast<int64_t>(M) - 1)), q = (p + static_cast<size_t>(r.range(1, static_cast<int64_t>(M) - 1))) % M;
      std::swap(sw.fx[i][p], sw.fx[i][q]);
      std::swap(sw.fy[i][p], sw.fy[i][q]);
      states.push_back(sw);
      // Motions that the first problem itself accepts, whatever it asks for.
      if (m.Samples() <= 14 && r.chance(0.4)) {
        for (auto& f : l.force) f = f * 50 + 200;
        Capture own{Builder(m, l), M};
        auto any = st;
        for (auto* f : {&any.fx, &any.fy})
          for (auto& row : *f)
            for (auto& v : row) v += r.chance(0.5) ? r.uni(-30, 30) : 0.0;
        ProjectForces(own, any);
        c.Stat(own.At(any).Feasible(1e-7, 1e-9) ? "projected_accepted" : "projected_rejected");
        states.push_back(any);
      }
      // Tighten one module's limits.
      size_t j = static_cast<size_t>(r.range(0, static_cast<int64_t>(M) - 1));
      if (r.chance(0.5)) l.speed[j] *= 0.97;
      if (r.chance(0.5)) l.force[j] *= 0.97;
    }
    Capture a{Builder(m, l), M}, b{Builder(m, l, order), M};
    for (auto& st : states) {
      auto pt = st;
      for (size_t i = 0; i < st.x.size(); ++i)
        for (size_t k = 0; k < M; ++k) {
          pt.fx[i][k] = st.fx[i][order[k]];
          pt.fy[i][k] = st.fy[i][order[k]];
        }
      auto ra = a.At(st), rb = b.At(pt);
      bool fa = ra.Feasible(1e-7, 1e-9), fb = rb.Feasible(1e-7, 1e-9);
      c.Check(fa == fb, fa ? "reordering-rejects" : "reordering-accepts", [&] {
        return (Desc{} << Describe(m, l) << " order " << order << " dt=" << st.dt << " original: " << Worst(ra) << "; reordered: " << Worst(rb)).str();
      });
      c.Check(mon::Near(ra.cost, rb.cost, 1e-9 * (1 + std::abs(ra.cost))), "reordering-changes-cost", [&] { return Describe(m, l); });
      c.Stat(fa ? "accepted_by_both" : "rejected_by_both");
    }
    c.Distinct((Desc{} << Describe(m, l) << order).str());
    c.Sample((Desc{} << Describe(m, l) << " order " << order).str());
  });
}

static void C17(Ctx& c) {
  c.rule = "a case is a random path and drivetrain solved several times with arbitrary final values (including huge, tiny, infinite, signed zero); "
           "every returned field must be the final value of its own variable, bit for bit, and the identification of fields by value must make a "
           "physically valid motion acceptable to the recorded problem; distinct by case content; non-trivial: at least two samples";
  c.Cases("result", c.N(1800, 25000), [&](Rng& r) {
    size_t M = static_cast<size_t>(r.range(0, 6));
    auto N = Counts(r, 5, 7);
    if (r.chance(0.15)) N[static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 1))] = 0;
    Motion m = RandomMotion(r, N, M);
    Arrange(r, m);
    State st;
    Limits l;
    for (int a = 0;; ++a) {
      st = m.Simulate();
      l = NewLimits(r, m);
      Cover(l, m, st, 1.05);
      if (StepsFit(m, l)) break;
      if (a > 40) return;
      for (auto& h : m.dt) h *= 0.6;
    }
    std::unique_ptr<Capture> cap;
    try {
      cap = std::make_unique<Capture>(Builder(m, l), M);
    } catch (const MapError& e) {
      c.Viol("malformed-solution", Describe(m, l) + ": " + e.what());
      return;
    }
    auto res = cap->At(st);
    c.Check(res.Feasible(), "fields-do-not-mean-what-they-say", [&] { return Describe(m, l) + " valid motion assigned field by field is rejected: " + Worst(res); });
    for (int round = 0; round < 3; ++round) {
      std::vector<double> fin;
      SolverScope scope{[&](OptimizationProblem& p, const SolverConfig&) {
        for (auto& v : p.decisionVariables) {
          double x;
          switch (r.range(0, 9)) {
            case 0: x = -0.0; break;
            case 1: x = std::ldexp(r.signedMag(0.5, 1), static_cast<int>(r.range(-1000, 1000))); break;
            case 2: x = r.chance(0.5) ? INFINITY : -INFINITY; break;
            default: x = r.signedMag(0, 100);
          }
          v.SetValue(x);
          fin.push_back(x);
        }
        return Status(r.chance(0.5) ? SolverExitCondition::kSuccess : SolverExitCondition::kSolvedToAcceptableTolerance);
      }};
      auto out = cap->gen->Generate();
      if (!c.Check(out.has_value(), "no-solution", "success reported as an error")) return;
      auto& s = out.value();
      auto fs = SolFields(s);
      auto same = [&](double got, int idx) { return mon::SameBits(got, fin[static_cast<size_t>(idx)]); };
      bool ok = true;
      for (int f = 0; f < 10; ++f) {
        ok = fs[f]->size() == cap->samples;
        for (size_t i = 0; ok && i < cap->samples; ++i) ok = same((*fs[f])[i], cap->map[f][i]);
        c.Check(ok, std::string{"wrong-value:"} + State::kNames[f], [&] { return Describe(m, l); });
      }
      ok = s.moduleFX.size() == cap->samples && s.moduleFY.size() == cap->samples;
      for (size_t i = 0; ok && i < cap->samples; ++i) {
        ok = s.moduleFX[i].size() == M && s.moduleFY[i].size() == M;
        for (size_t j = 0; ok && j < M; ++j) ok = same(s.moduleFX[i][j], cap->mfx[i][j]) && same(s.moduleFY[i][j], cap->mfy[i][j]);
      }
      c.Check(ok, "wrong-value:module-force", [&] { return Describe(m, l); });
      ok = s.dt.size() == cap->samples - 1;
      size_t off = 0;
      for (size_t k = 0; ok && k < N.size(); ++k)
        for (size_t i = 0; ok && i < N[k]; ++i) ok = same(s.dt[off++], cap->mdt[k]);
      c.Check(ok, "wrong-value:dt", [&] { return (Desc{} << Describe(m, l) << " dt=" << s.dt).str(); });
      c.Stat("solutions");
    }
    if (cap->samples > 1) c.Distinct(Describe(m, l));
    c.Sample(Describe(m, l));
  });
}

int main(int argc, char** argv) {
  return mon::Main(argc, argv, {{"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C17", C17}});
}

// C04 initial guess, C05 builder histories, C06 obstacles, C07-C09 constraint
// meaning, C10 where constraints bind.
#include <array>

#include "rec.hpp"

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace rec;
using trajopt::Constraint;
using trajopt::Pose2d;
using trajopt::Rotation2d;
using trajopt::SwervePathBuilder;
using trajopt::Translation2d;

static double Wrap(double a) { return std::remainder(a, 2 * kPi); }

/// A path shape onto which constraints are put: `M` modules with limits far
/// away from anything the states below contain.
struct Rig {
  std::vector<size_t> N;
  size_t M = 0;
  double mass = 10, moi = 3;
  SwervePathBuilder Base() const {
    SwervePathBuilder b;
    Prepare(b);
    Finish(b);
    return b;
  }
  void Prepare(SwervePathBuilder& b) const {
    trajopt::SwerveDrivetrain d{mass, moi, {}};
    for (size_t j = 0; j < M; ++j)
      d.modules.push_back({{0.3 + 0.2 * static_cast<double>(j), 0.1 - 0.3 * static_cast<double>(j)}, 0.05, 1e7, 1e7});
    b.SetDrivetrain(std::move(d));
  }
  void Finish(SwervePathBuilder& b) const {
    b.WptInitialGuessPoint(N.size(), Pose2d{1.0, 2.0, 0.5});
    auto n = N;
    b.ControlIntervalCounts(std::move(n));
  }
  size_t Samples() const {
    size_t s = 1;
    for (auto n : N) s += n;
    return s;
  }
  size_t WptSample(size_t w) const {
    size_t s = 0;
    for (size_t k = 0; k < w; ++k) s += N[k];
    return s;
  }
};

static Rig RandomRig(Rng& r, int maxSegs = 3, int maxN = 4) {
  Rig g;
  int segs = static_cast<int>(r.chance(0.02) ? r.range(maxSegs, 24) : r.range(r.chance(0.15) ? 0 : 1, maxSegs));
  for (int k = 0; k < segs; ++k) g.N.push_back(static_cast<size_t>(r.range(1, maxN)));
  g.M = static_cast<size_t>(r.range(0, 2));
  return g;
}

/// A state in which nothing holds by coincidence, with unit headings and
/// positive time steps.
static State Generic(Rng& r, const Rig& g) {
  State st;
  st.Resize(g.Samples(), g.N.size(), g.M);
  for (size_t i = 0; i < g.Samples(); ++i) {
    double th = r.uni(-kPi, kPi);
    st.x[i] = r.uni(-20, 20); st.y[i] = r.uni(-20, 20);
    st.c[i] = std::cos(th); st.s[i] = std::sin(th);
    st.vx[i] = r.signedMag(0.3, 4); st.vy[i] = r.signedMag(0.3, 4); st.om[i] = r.signedMag(0.3, 4);
    st.ax[i] = r.signedMag(0.3, 4); st.ay[i] = r.signedMag(0.3, 4); st.al[i] = r.signedMag(0.3, 4);
    for (size_t j = 0; j < g.M; ++j) { st.fx[i][j] = r.signedMag(1, 9); st.fy[i][j] = r.signedMag(1, 9); }
  }
  for (auto& h : st.dt) h = r.uni(1e-8, 2e-8);
  return st;
}

static std::string At(const State& st, size_t i) {
  return (Desc{} << "sample " << i << ": pose (" << st.x[i] << "," << st.y[i] << ", heading " << std::atan2(st.s[i], st.c[i]) << ") v=(" << st.vx[i] << "," << st.vy[i] << ") omega=" << st.om[i]
                 << " a=(" << st.ax[i] << "," << st.ay[i] << ") alpha=" << st.al[i]).str();
}

/// Where a constraint is put, and the samples this concerns.
struct Place {
  bool segment = false;
  size_t from = 0, to = 0;
  void Put(SwervePathBuilder& b, const Constraint& c) const {
    if (segment) b.SgmtConstraint(from, to, c);
    else b.WptConstraint(from, c);
  }
  void PutObstacle(SwervePathBuilder& b, const trajopt::Obstacle& o) const {
    if (segment) b.SgmtObstacle(from, to, o);
    else b.WptObstacle(from, o);
  }
  bool Concerns(const Rig& g, size_t i) const {
    return segment ? i >= g.WptSample(from) && i <= g.WptSample(to) : i == g.WptSample(from);
  }
  std::string str() const { return (Desc{} << (segment ? "segments " : "waypoint ") << from << (segment ? ".." : "") << (segment ? std::to_string(to) : "")).str(); }
};
static Place RandomPlace(Rng& r, size_t segs) {
  Place p;
  p.segment = segs > 0 && r.chance(0.5);
  if (p.segment) {
    p.from = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs) - 1));
    p.to = static_cast<size_t>(r.range(static_cast<int64_t>(p.from) + 1, static_cast<int64_t>(segs)));
  } else {
    p.from = p.to = static_cast<size_t>(r.range(0, static_cast<int64_t>(segs)));
  }
  return p;
}
static size_t ConcernedSample(Rng& r, const Rig& g, const Place& p) {
  std::vector<size_t> s;
  for (size_t i = 0; i < g.Samples(); ++i)
    if (p.Concerns(g, i)) s.push_back(i);
  return r.pick(s);
}

/// Compares a problem having some constraint with the same problem without.
struct Duo {
  Capture with, without;
  Duo(const Rig& g, const SwervePathBuilder& b) : with{b, g.M}, without{g.Base(), g.M} {}
  bool Admits(State& st) { return with.At(st).Violated() == without.At(st).Violated(); }
};

// ---------------------------------------------------------------- C07
static void C07(Ctx& c) {
  c.rule = "a case is one limit or direction constraint at a random waypoint or segment range of a random path; every state checked there is one oracle evaluation; "
           "distinct by constraint kind, value and place; the states around the constrained quantity are generic, so that a limit on another quantity shows";
  c.Cases("limits", c.N(2400, 30000), [&](Rng& r) {
    Rig g = RandomRig(r);
    Place p = RandomPlace(r, g.N.size());
    int kind = static_cast<int>(r.range(0, 3));
    double lim = kind == 3 ? (r.chance(0.5) ? r.angle(3) : r.uni(-20, 20)) : r.chance(0.2) ? 0.0 : r.chance(0.4) ? r.logUni(2e-3, 200) : r.round(0.05, 6);
    static const char* names[] = {"linear-velocity", "angular-velocity", "linear-acceleration", "direction"};
    Constraint k = kind == 0   ? Constraint{trajopt::LinearVelocityMaxMagnitudeConstraint{lim}}
                   : kind == 1 ? Constraint{trajopt::AngularVelocityMaxMagnitudeConstraint{lim}}
                   : kind == 2 ? Constraint{trajopt::LinearAccelerationMaxMagnitudeConstraint{lim}}
                               : Constraint{trajopt::LinearVelocityDirectionConstraint{lim}};
    SwervePathBuilder b;
    g.Prepare(b);
    p.Put(b, k);
    g.Finish(b);
    Duo duo{g, b};
    State ok = Generic(r, g);
    // Other concerned samples are kept satisfied.
    auto set = [&](State& st, size_t i, V2 v) {
      if (kind == 0 || kind == 3) { st.vx[i] = v.x; st.vy[i] = v.y; }
      else if (kind == 1) st.om[i] = v.x;
      else { st.ax[i] = v.x; st.ay[i] = v.y; }
    };
    for (size_t i = 0; i < g.Samples(); ++i)
      if (p.Concerns(g, i)) set(ok, i, kind == 3 ? V2{std::cos(lim), std::sin(lim)} : V2{0, 0});
    auto trial = [&](V2 v, bool admit, const std::string& what) {
      size_t i = ConcernedSample(r, g, p);
      State st = ok;
      set(st, i, v);
      bool got = duo.Admits(st);
      c.Check(got == admit, std::string{names[kind]} + (lim == 0 && kind != 3 ? "-zero" : "") + (admit ? "-rejects-allowed" : "-admits-excess"), [&] {
        return (Desc{} << names[kind] << " " << lim << " at " << p.str() << " N=" << g.N << ": " << what << ", " << At(st, i)).str();
      });
      c.Stat(admit ? "states_to_admit" : "states_to_reject");
    };
    auto dirs = [&] { return r.chance(0.3) ? static_cast<double>(r.range(0, 7)) * kPi / 4 : r.uni(-kPi, kPi); };
    if (kind == 3) {
      for (int q = 0; q < 6; ++q) {
        double m = r.uni(0.3, 5);
        trial({m * std::cos(lim), m * std::sin(lim)}, true, "parallel");
        trial({-m * std::cos(lim), -m * std::sin(lim)}, true, "antiparallel");
        double off = r.chance(0.3) ? kPi / 2 : r.uni(0.05, kPi - 0.05);
        if (r.chance(0.5)) off = -off;
        trial({m * std::cos(lim + off), m * std::sin(lim + off)}, false, "off direction");
      }
      trial({0, 0}, true, "zero");
    } else if (lim == 0) {
      trial({0, 0}, true, "zero");
      for (int q = 0; q < 4; ++q) {
        double m = r.chance(0.5) ? r.uni(1e-3, 1e-2) : r.uni(0.01, 5), a = dirs();
        if (kind == 1) trial({r.chance(0.5) ? m : -m, 0}, false, "nonzero");
        else {
          trial({m * std::cos(a), m * std::sin(a)}, false, "nonzero");
          trial({r.chance(0.5) ? m : -m, 0}, false, "nonzero x");
          trial({0, r.chance(0.5) ? m : -m}, false, "nonzero y");
        }
      }
    } else {
      for (double f : {0.0, r.uni(0.05, 0.9), r.uni(0.9, 0.99), 1 - 1e-3, 1 + 1e-3, r.uni(1.01, 1.2), r.uni(1.2, 9.0), r.uni(10.0, 300.0)}) {
        double a = dirs();
        // Too close to tell at the resolution of the comparison.
        if (std::abs(f * f - 1) * lim * lim < 2e-7) continue;
        V2 v = kind == 1 ? V2{(r.chance(0.5) ? 1 : -1) * f * lim, 0} : V2{f * lim * std::cos(a), f * lim * std::sin(a)};
        trial(v, f < 1, (Desc{} << f << " times the limit").str());
        if (kind == 1) trial({-v.x, 0}, f < 1, (Desc{} << -f << " times the limit").str());
      }
    }
    c.Distinct((Desc{} << kind << lim << p.str() << g.N).str());
    c.Sample((Desc{} << names[kind] << " " << lim << " at " << p.str() << " N=" << g.N).str());
  });
}

// ---------------------------------------------------------------- C08
static void C08(Ctx& c) {
  c.rule = "a case is one pose, translation or point-at constraint (given directly or through PoseWpt/TranslationWpt) on a random path; every pose checked is one oracle evaluation; distinct by constraint and place";
  c.Cases("pins", c.N(1800, 24000), [&](Rng& r) {
    Rig g = RandomRig(r);
    Place p = RandomPlace(r, g.N.size());
    int kind = static_cast<int>(r.range(0, 2));
    bool call = kind < 2 && r.chance(0.4);
    if (call) { p.segment = false; p.to = p.from; }
    double X = r.round(-9, 9), Y = r.round(-9, 9), H = r.chance(0.3) ? r.angle(4) : r.uni(-14, 14);
    double tol = r.chance(0.2) ? 0.0 : r.chance(0.2) ? r.uni(1.5, kPi) : r.uni(0.01, 1.5);
    SwervePathBuilder b;
    g.Prepare(b);
    if (kind == 0) call ? b.PoseWpt(p.from, X, Y, H) : p.Put(b, trajopt::PoseEqualityConstraint{X, Y, H});
    else if (kind == 1) call ? b.TranslationWpt(p.from, X, Y, r.uni(-4, 4)) : p.Put(b, trajopt::TranslationEqualityConstraint{X, Y});
    else p.Put(b, trajopt::PointAtConstraint{Translation2d{X, Y}, tol});
    g.Finish(b);
    Duo duo{g, b};
    std::string what = (Desc{} << (kind == 0 ? "pose" : kind == 1 ? "translation" : "point-at") << (call ? " waypoint" : " constraint") << " (" << X << "," << Y << ") "
                               << (kind == 0 ? "heading " : kind == 2 ? "tolerance " : "") << (kind == 0 ? H : kind == 2 ? tol : 0.0) << " at " << p.str() << " N=" << g.N).str();
    auto set = [](State& st, size_t i, double x, double y, double th, double len = 1) {
      st.x[i] = x; st.y[i] = y; st.c[i] = len * std::cos(th); st.s[i] = len * std::sin(th);
    };
    State ok = Generic(r, g);
    for (size_t i = 0; i < g.Samples(); ++i)
      if (p.Concerns(g, i)) kind == 2 ? set(ok, i, X - 1, Y, 0) : set(ok, i, X, Y, H);
    auto trial = [&](const std::function<void(State&, size_t)>& f, bool admit, const char* why) {
      size_t i = ConcernedSample(r, g, p);
      State st = ok;
      f(st, i);
      c.Check(duo.Admits(st) == admit, std::string{kind == 0 ? "pose" : kind == 1 ? "translation" : "point-at"} + (admit ? "-rejects:" : "-admits:") + why,
              [&] { return what + ": " + why + ", " + At(st, i); });
      c.Stat(admit ? "poses_to_admit" : "poses_to_reject");
    };
    auto off = [&] { return r.chance(0.5) ? r.signedMag(1e-3, 1e-2) : r.signedMag(0.01, 5); };
    if (kind < 2) {
      trial([&](State& st, size_t i) { set(st, i, X, Y, H); }, true, "named-pose");
      trial([&](State& st, size_t i) { set(st, i, X, Y, H + 2 * kPi * static_cast<double>(r.range(-2, 2))); }, true, "named-pose-other-turn");
      for (int q = 0; q < 3; ++q) {
        trial([&](State& st, size_t i) { set(st, i, X + off(), Y, H); }, false, "x-off");
        trial([&](State& st, size_t i) { set(st, i, X, Y + off(), H); }, false, "y-off");
        trial([&](State& st, size_t i) { set(st, i, X + off(), Y + off(), H); }, false, "both-off");
        double d = r.signedMag(0.02, kPi - 0.02);
        trial([&](State& st, size_t i) { set(st, i, X, Y, H + d); }, kind == 1, "other-heading");
      }
      if (kind == 0) {
        trial([&](State& st, size_t i) { set(st, i, X, Y, H, r.chance(0.5) ? r.uni(1.01, 3) : r.uni(0.1, 0.99)); }, false, "heading-vector-not-unit");
        trial([&](State& st, size_t i) { set(st, i, X, Y, H, 0); }, false, "heading-vector-zero");
      }
    } else {
      for (int q = 0; q < 12; ++q) {
        double dist = r.chance(0.2) ? r.logUni(0.05, 60) : r.uni(0.3, 8), dir = r.angle();
        double x = X - dist * std::cos(dir), y = Y - dist * std::sin(dir);
        double d;
        if (r.chance(0.5)) d = tol + r.signedMag(0.01, 0.2);
        else d = r.uni(0, kPi);
        d = std::clamp(d, 0.0, kPi);
        if (q == 0) d = 0;
        if (q == 1) d = kPi;
        // At a half-turn tolerance every heading is allowed.
        double slack = std::cos(d) - std::cos(tol);
        if (std::abs(slack) < 1e-5 && !(d == 0 && tol == 0)) continue;
        double sd = r.chance(0.5) ? d : -d;
        trial([&](State& st, size_t i) { set(st, i, x, y, dir + sd); }, d <= tol, d <= tol ? "within-tolerance" : "beyond-tolerance");
      }
    }
    c.Distinct(what);
    c.Sample(what);
  });
  c.Cases("reversed", 1, [&](Rng& r) {
    Rig g;
    g.N = {2};
    SwervePathBuilder b;
    g.Prepare(b);
    b.PoseWpt(0, 1, 2, 0.3);
    g.Finish(b);
    Duo duo{g, b};
    State st = Generic(r, g);
    st.x[0] = 1; st.y[0] = 2; st.c[0] = -std::cos(0.3); st.s[0] = -std::sin(0.3);
    c.Check(!duo.Admits(st), "known-reversed-heading-admitted", [&] { return "PoseWpt(0, 1, 2, 0.3) admits " + At(st, 0); });
  });
}

// ---------------------------------------------------------------- C09
static void C09(Ctx& c) {
  c.rule = "a case is one keep-out constraint with random features on a random path, checked at poses around the distance bound (found by bisection of the true distance) and at random poses; distinct by constraint and place";
  c.Cases("keepout", c.N(900, 15000), [&](Rng& r) {
    Rig g = RandomRig(r);
    Place p = RandomPlace(r, g.N.size());
    int kind = static_cast<int>(r.range(0, 2));
    auto pt = [&](double w) { return V2{r.round(-w, w), r.round(-w, w)}; };
    V2 ra = pt(0.8), rb = pt(0.8), fa = pt(4), fb = pt(4);
    if (r.chance(0.15)) ra = {0, 0};
    while (std::hypot(ra.x - rb.x, ra.y - rb.y) < 0.05) rb = pt(0.8);
    if (r.chance(0.4)) fb = {fa.x + r.uni(-0.8, 0.8), fa.y + r.uni(-0.8, 0.8)};
    if (r.chance(0.1)) fb = {fa.x + r.signedMag(0.1, 3), fa.y};
    if (r.chance(0.1)) fb = {fa.x, fa.y + r.signedMag(0.1, 3)};
    if (r.chance(0.1)) rb = {ra.x, ra.y + r.signedMag(0.1, 1)};
    if (r.chance(0.1)) rb = {ra.x + r.signedMag(0.1, 1), ra.y};
    if (r.chance(0.05) && std::hypot(ra.x, ra.y) > 0.05) rb = {-ra.x, -ra.y};
    while (std::hypot(fa.x - fb.x, fa.y - fb.y) < 0.05) fb = pt(4);
    double min = r.chance(0.08) ? 0.0 : r.chance(0.08) ? r.logUni(1e-3, 0.05) : r.chance(0.08) ? r.logUni(3, 20) : r.chance(0.5) ? r.uni(0.05, 0.9) : r.uni(0.9, 3);
    auto T = [](V2 v) { return Translation2d{v.x, v.y}; };
    Constraint k = kind == 0   ? Constraint{trajopt::PointPointConstraint{T(ra), T(fa), min}}
                   : kind == 1 ? Constraint{trajopt::LinePointConstraint{T(ra), T(rb), T(fa), min}}
                               : Constraint{trajopt::PointLineConstraint{T(ra), T(fa), T(fb), min}};
    static const char* names[] = {"point-point", "line-point", "point-line"};
    auto dist = [&](double x, double y, double th) {
      V2 a = Rot(ra, th), b = Rot(rb, th);
      a.x += x; a.y += y; b.x += x; b.y += y;
      return kind == 0 ? std::hypot(a.x - fa.x, a.y - fa.y) : kind == 1 ? SegDist(a, b, fa) : SegDist(fa, fb, a);
    };
    SwervePathBuilder b;
    g.Prepare(b);
    p.Put(b, k);
    g.Finish(b);
    Duo duo{g, b};
    State ok = Generic(r, g);
    for (size_t i = 0; i < g.Samples(); ++i)
      if (p.Concerns(g, i)) { ok.x[i] = 500; ok.y[i] = 600; }
    std::string what = (Desc{} << names[kind] << " robot (" << ra.x << "," << ra.y << ")-(" << rb.x << "," << rb.y << ") field (" << fa.x << "," << fa.y << ")-(" << fb.x << "," << fb.y << ") min " << min << " at " << p.str() << " N=" << g.N).str();
    auto trial = [&](double x, double y, double th) {
      double d = dist(x, y, th);
      // Skip the band in which rounding and tolerance decide.
      if (min > 0 && (std::abs(d - min) < 5e-4 * min || std::abs(d * d - min * min) < 1e-7)) return;
      size_t i = ConcernedSample(r, g, p);
      State st = ok;
      st.x[i] = x; st.y[i] = y; st.c[i] = std::cos(th); st.s[i] = std::sin(th);
      bool admit = d >= min;
      c.Check(duo.Admits(st) == admit, std::string{names[kind]} + (admit ? "-rejects-clear-pose" : "-admits-close-pose"),
              [&] { return (Desc{} << what << ": true distance " << d << ", " << At(st, i)).str(); });
      c.Stat(admit ? "poses_clear" : "poses_close");
    };
    for (int q = 0; q < 10; ++q) {
      // Walk from far away towards the feature, stopping at the bound.
      double th = r.angle(), dir = r.angle();
      V2 a = Rot(ra, th);
      double u = kind == 2 ? r.uni(-0.3, 1.3) : 0, w = kind == 1 ? r.uni(-0.3, 1.3) : 0;
      V2 br = Rot(rb, th);
      V2 aim = {fa.x + u * (fb.x - fa.x) - (a.x + w * (br.x - a.x)), fa.y + u * (fb.y - fa.y) - (a.y + w * (br.y - a.y))};
      double lo = 0, hi = 60;
      auto at = [&](double s) { return dist(aim.x + s * std::cos(dir), aim.y + s * std::sin(dir), th); };
      if (at(lo) < min) {
        for (int n = 0; n < 60; ++n) {
          double mid = (lo + hi) / 2;
          (at(mid) < min ? lo : hi) = mid;
        }
        for (double e : {1e-3 * min, 0.02, 0.3, -1e-3 * min, -0.02, -0.2, -0.3 * min}) trial(aim.x + (hi + e) * std::cos(dir), aim.y + (hi + e) * std::sin(dir), th);
      }
      trial(aim.x, aim.y, th);
      trial(aim.x + r.uni(-4, 4), aim.y + r.uni(-4, 4), r.uni(-kPi, kPi));
    }
    c.Distinct(what);
    c.Sample(what);
  });
}

// ---------------------------------------------------------------- C10
static void C10(Ctx& c) {
  c.rule = "a case is a path with up to four constraints of different kinds on random waypoints and segment ranges; for every constraint and every sample, the constrained quantity is moved across the bound at "
           "that sample alone, and the number of violated residuals must change exactly if the sample is one the constraint was given for; distinct by layout and places; non-trivial: at least one sample inside and one outside";
  c.Cases("where", c.N(1000, 14000), [&](Rng& r) {
    Rig g = RandomRig(r, 5, 4);
    // Some paths have segments with as many intervals as real ones.
    if (r.chance(0.06) && !g.N.empty()) g.N[static_cast<size_t>(r.range(0, static_cast<int64_t>(g.N.size()) - 1))] = static_cast<size_t>(r.chance(0.4) ? 40 : r.range(16, 140));
    bool zeros = r.chance(0.12);
    if (zeros)
      for (auto& n : g.N)
        if (r.chance(0.3)) n = 0;
    std::vector<int> kinds{0, 1, 2, 3, 4, 5, 6};
    r.shuffle(kinds);
    size_t K = static_cast<size_t>(r.range(1, 4));
    SwervePathBuilder b;
    g.Prepare(b);
    if (r.chance(0.5)) b.WptInitialGuessPoint(g.N.size(), Pose2d{0.0, 0.0, 0.0});
    struct Item { int kind; Place p; double a, b; };
    std::vector<Item> items;
    static const char* names[] = {"linear-velocity", "angular-velocity", "linear-acceleration", "keep-out", "translation", "pose", "direction"};
    bool position = false, velocity = false;
    // Now and then many constraints in one place that ask for nothing here.
    size_t fillers = r.chance(0.1) ? static_cast<size_t>(r.range(4, 40)) : 0;
    for (size_t q = 0; q < K; ++q) {
      int k = kinds[q];
      if (k >= 3 && k <= 5) { if (position) continue; position = true; }
      if (k == 0 || k == 6) { if (velocity) continue; velocity = true; }
      Item it{k, RandomPlace(r, g.N.size()), r.uni(50, 90), r.uni(50, 90)};
      Constraint con = k == 0   ? Constraint{trajopt::LinearVelocityMaxMagnitudeConstraint{7}}
                       : k == 1 ? Constraint{trajopt::AngularVelocityMaxMagnitudeConstraint{7}}
                       : k == 2 ? Constraint{trajopt::LinearAccelerationMaxMagnitudeConstraint{7}}
                       : k == 3 ? Constraint{trajopt::PointPointConstraint{{0.1, 0.2}, {it.a, it.b}, 1.0}}
                       : k == 4 ? Constraint{trajopt::TranslationEqualityConstraint{it.a, it.b}}
                       : k == 5 ? Constraint{trajopt::PoseEqualityConstraint{it.a, it.b, 0.4}}
                                : Constraint{trajopt::LinearVelocityDirectionConstraint{0.7}};
      for (size_t f = 0; f < fillers; ++f) it.p.Put(b, trajopt::LinearAccelerationMaxMagnitudeConstraint{900.0 + static_cast<double>(f)});
      it.p.Put(b, con);
      items.push_back(it);
    }
    g.Finish(b);
    Capture cap{b, g.M};
    State base = Generic(r, g);
    auto satisfied = [&](const Item& it, State& st, size_t i, bool ok) {
      switch (it.kind) {
        case 0: st.vx[i] = ok ? 2.1 : 8.3; st.vy[i] = 1.7; break;
        case 1: st.om[i] = (i % 2 ? -1 : 1) * (ok ? 3.3 : 8.8); break;
        case 2: st.ax[i] = 1.1; st.ay[i] = ok ? 2.2 : -9.2; break;
        case 3: st.x[i] = ok ? -3.3 : it.a + 0.05; st.y[i] = ok ? 4.4 : it.b - 0.04; break;
        case 4: st.x[i] = ok ? it.a : it.a + 1.3; st.y[i] = it.b; break;
        case 5: st.x[i] = it.a; st.y[i] = ok ? it.b : it.b - 2.3; st.c[i] = std::cos(0.4); st.s[i] = std::sin(0.4); break;
        case 6: st.vx[i] = 1.3 * std::cos(0.7); st.vy[i] = ok ? 1.3 * std::sin(0.7) : -1.1; break;
      }
    };
    bool inside = false, outside = false;
    for (auto& it : items)
      for (size_t i = 0; i < g.Samples(); ++i) {
        // Long paths: the samples around places and a selection of the others.
        if (g.Samples() > 30) {
          bool edge = i == 0 || i + 1 == g.Samples() || it.p.Concerns(g, i) != it.p.Concerns(g, i - 1) || it.p.Concerns(g, i) != it.p.Concerns(g, i + 1);
          if (!edge && !r.chance(12.0 / static_cast<double>(g.Samples()))) continue;
        }
        State good = base, bad = base;
        satisfied(it, good, i, true);
        satisfied(it, bad, i, false);
        int delta = cap.At(bad).Violated() - cap.At(good).Violated();
        bool concerns = it.p.Concerns(g, i);
        (concerns ? inside : outside) = true;
        c.Check((delta > 0) == concerns && delta >= 0, std::string{names[it.kind]} + (it.p.segment ? "-segment" : "-waypoint") + (concerns ? "-missing" : "-applies-elsewhere"), [&] {
          return (Desc{} << names[it.kind] << " given for " << it.p.str() << " of N=" << g.N << ": sample " << i << " violated residuals change by " << delta).str();
        });
        c.Stat(concerns ? "samples_inside" : "samples_outside");
      }
    if (inside && outside) {
      Desc d;
      d << g.N;
      for (auto& it : items) d << it.kind << it.p.str();
      c.Distinct(d.str());
      c.Sample(d.str());
    }
  });
}

// ---------------------------------------------------------------- C06
struct Shape {
  double safety;
  std::vector<V2> pts;
  std::vector<std::pair<V2, V2>> Edges() const {
    std::vector<std::pair<V2, V2>> e;
    if (pts.size() == 1) e.push_back({pts[0], pts[0]});
    for (size_t i = 0; i + 1 < pts.size(); ++i) e.push_back({pts[i], pts[i + 1]});
    if (pts.size() >= 3) e.push_back({pts.back(), pts.front()});
    return e;
  }
  trajopt::Obstacle Make() const {
    trajopt::Obstacle o{safety, {}};
    for (auto& q : pts) o.points.push_back({q.x, q.y});
    return o;
  }
};
static Shape RandomShape(Rng& r, double size, V2 center) {
  Shape s;
  s.safety = r.chance(0.2) ? 0.0 : r.uni(0.02, 0.4);
  int n = static_cast<int>(r.chance(0.3) ? 1 : r.chance(0.2) ? 2 : r.range(3, 6));
  if (n >= 3 && r.chance(0.1)) n = static_cast<int>(r.range(7, 16));
  bool box = n == 4 && r.chance(0.6);
  double rot = r.angle();
  for (int i = 0; i < n; ++i) {
    double a = rot + (2 * kPi * i + r.uni(-0.5, 0.5)) / n, m = size * (r.chance(0.2) ? r.uni(0.3, 0.5) : r.uni(0.6, 1.2));
    if (box) { a = kPi / 4 + i * kPi / 2; m = size; }
    s.pts.push_back({center.x + m * std::cos(a), center.y + m * std::sin(a)});
  }
  if (r.chance(0.5)) std::reverse(s.pts.begin(), s.pts.end());
  return s;
}
static std::string Str(const Shape& s) {
  Desc d;
  d << "{safety " << s.safety << ":";
  for (auto& q : s.pts) d << " (" << q.x << "," << q.y << ")";
  d << "}";
  return d.str();
}

static void C06(Ctx& c) {
  c.rule = "a case is 1-3 bumper outlines and an obstacle (points, segments and polygons wound either way) applied to a random waypoint or segment range; poses just inside and just outside the required "
           "clearance (bisection along random approaches, so that each pair of edge and corner gets to be the closest one), and random poses, are evaluated; distinct by shapes and place; non-trivial: poses on both sides";
  c.Cases("obstacles", c.N(450, 8000), [&](Rng& r) {
    Rig g = RandomRig(r, 3, 3);
    Place p = RandomPlace(r, g.N.size());
    std::vector<Shape> bumpers;
    int B = static_cast<int>(r.chance(0.1) ? r.range(4, 7) : r.range(1, 3));
    for (int i = 0; i < B; ++i) bumpers.push_back(RandomShape(r, r.uni(0.2, 0.9), {r.uni(-0.3, 0.3), r.uni(-0.3, 0.3)}));
    // One or a few obstacles; outlines and obstacles may coincide in part.
    std::vector<Shape> obstacles{RandomShape(r, r.uni(0.2, 2.0), {r.uni(-3, 3), r.uni(-3, 3)})};
    if (r.chance(0.2))
      for (int k = static_cast<int>(r.range(1, 3)); k > 0; --k) {
        Shape o = RandomShape(r, r.uni(0.2, 2.0), {r.uni(-3, 3), r.uni(-3, 3)});
        const Shape& like = r.pick(obstacles);
        switch (r.range(0, 4)) {
          case 0: o.pts = like.pts; break;
          case 1: o.pts[0] = like.pts[0]; break;
          case 2: o.pts.back() = like.pts.back(); break;
          case 3: o.safety = like.safety; break;
          default: break;
        }
        obstacles.push_back(o);
      }
    if (B > 1 && r.chance(0.2)) {
      Shape& s = bumpers[static_cast<size_t>(r.range(1, B - 1))];
      const Shape& like = bumpers[static_cast<size_t>(r.range(0, B - 1))];
      switch (r.range(0, 3)) {
        case 0: s.pts = like.pts; break;
        case 1: s.pts[0] = like.pts[0]; break;
        case 2: s.safety = like.safety; break;
        default: s.pts = like.pts; std::reverse(s.pts.begin(), s.pts.end()); break;
      }
    }
    bool own = r.chance(0.03);  // an obstacle of the robot's own shape
    if (own) obstacles[0].pts = r.pick(bumpers).pts;
    SwervePathBuilder b;
    g.Prepare(b);
    bool createFirst = r.chance(0.5);
    if (createFirst) b.WptInitialGuessPoint(g.N.size(), Pose2d{0.0, 0.0, 0.0});
    for (auto& s : bumpers) b.AddBumpers(s.Make());
    // Obstacles far from every pose tried, before and after.
    int far = r.chance(0.12) ? static_cast<int>(r.range(1, 12)) : 0, farAfter = r.chance(0.12) ? static_cast<int>(r.range(1, 6)) : 0;
    for (int i = 0; i < far; ++i) p.PutObstacle(b, trajopt::Obstacle{0.5, {{3000.0 + i, 3000.0}}});
    for (auto& o : obstacles) p.PutObstacle(b, o.Make());
    for (int i = 0; i < farAfter; ++i) p.PutObstacle(b, trajopt::Obstacle{0.5, {{3000.0, -3000.0 - i}}});
    g.Finish(b);
    Duo duo{g, b};
    auto slack = [&](double x, double y, double th) {
      // least relative clearance over all pairs; infinity if nothing is asked
      double worst = INFINITY;
      for (auto& s : bumpers) {
        Shape moved = s;
        for (auto& q : moved.pts) {
          q = Rot(q, th);
          q.x += x;
          q.y += y;
        }
        for (auto& o : obstacles) {
          double need = s.safety + o.safety;
          if (need <= 0) continue;
          for (auto& e : moved.Edges())
            for (auto& q : o.pts) worst = std::min(worst, SegDist(e.first, e.second, q) / need - 1);
          for (auto& e : o.Edges())
            for (auto& q : moved.pts) worst = std::min(worst, SegDist(e.first, e.second, q) / need - 1);
        }
      }
      return worst;
    };
    State ok = Generic(r, g);
    for (size_t i = 0; i < g.Samples(); ++i)
      if (p.Concerns(g, i)) { ok.x[i] = 500; ok.y[i] = 600; }
    Desc wd;
    for (auto& o : obstacles) wd << "obstacle " << Str(o) << " ";
    wd << "bumpers";
    for (auto& s : bumpers) wd << " " << Str(s);
    wd << " at " << p.str() << " N=" << g.N;
    std::string what = wd.str();
    bool near = false, clear = false;
    auto trial = [&](double x, double y, double th) {
      double s = slack(x, y, th);
      if (std::abs(s) < 1e-3) return;
      size_t i = ConcernedSample(r, g, p);
      State st = ok;
      st.x[i] = x; st.y[i] = y; st.c[i] = std::cos(th); st.s[i] = std::sin(th);
      bool admit = s > 0;
      c.Check(duo.Admits(st) == admit, std::string{p.segment ? "segment" : "waypoint"} + (admit ? "-obstacle-rejects-clear-pose" : "-obstacle-admits-close-pose"),
              [&] { return (Desc{} << what << ": clearance is " << (s + 1) << " of what is required, " << At(st, i)).str(); });
      (admit ? clear : near) = true;
      c.Stat(admit ? "poses_clear" : "poses_close");
    };
    for (int q = 0; q < 12; ++q) {
      // Bring a random bumper feature next to a random obstacle feature, then back off.
      double th = r.angle(), dir = r.angle();
      auto be = r.pick(bumpers).Edges(), oe = r.pick(obstacles).Edges();
      auto& e1 = r.pick(be);
      auto& e2 = r.pick(oe);
      double u = r.chance(0.3) ? 0.0 : r.uni(0, 1), w = r.chance(0.3) ? 0.0 : r.uni(0, 1);
      V2 m = Rot({e1.first.x + u * (e1.second.x - e1.first.x), e1.first.y + u * (e1.second.y - e1.first.y)}, th);
      V2 f{e2.first.x + w * (e2.second.x - e2.first.x), e2.first.y + w * (e2.second.y - e2.first.y)};
      V2 aim{f.x - m.x, f.y - m.y};
      double lo = 0, hi = 20;
      auto at = [&](double s) { return slack(aim.x + s * std::cos(dir), aim.y + s * std::sin(dir), th); };
      trial(aim.x, aim.y, th);
      if (at(0) < 0) {
        for (int n = 0; n < 50; ++n) {
          double mid = (lo + hi) / 2;
          (at(mid) < 0 ? lo : hi) = mid;
        }
        for (double e : {0.003, 0.05, 0.4, -0.003, -0.02, -0.1}) trial(aim.x + (hi + e) * std::cos(dir), aim.y + (hi + e) * std::sin(dir), th);
      }
      trial(aim.x + r.uni(-2, 2), aim.y + r.uni(-2, 2), r.uni(-kPi, kPi));
    }
    // Samples the obstacle was not given for are free.
    for (size_t i = 0; i < g.Samples(); ++i)
      if (!p.Concerns(g, i)) {
        State st = ok;
        const Shape& obs = r.pick(obstacles);
        st.x[i] = obs.pts[0].x; st.y[i] = obs.pts[0].y;
        c.Check(duo.Admits(st), "obstacle-applies-elsewhere", [&] { return what + " " + At(st, i); });
        c.Stat("samples_not_concerned");
      }
    if (near && clear) c.Distinct(what);
    c.Sample(what);
  });
}

// ---------------------------------------------------------------- C04
static void C04(Ctx& c) {
  c.rule = "a case is a random history of guess-setting calls; per segment, a dynamic program decides whether the guess visits all guess points in order with equal steps in between; distinct by history; non-trivial: a segment with intermediate points";
  c.Cases("guess", c.N(24000, 400000), [&](Rng& r) {
    size_t W = static_cast<size_t>(r.chance(0.02) ? r.range(6, 24) : r.range(1, 5));
    SwervePathBuilder b;
    struct P { double x, y, th; };
    std::vector<P> wpt(W, P{0, 0, 0});
    std::vector<std::vector<std::vector<P>>> mid(W);  // blocks per target waypoint
    std::vector<P> all0;
    auto rp = [&] {
      P p{r.round(-9, 9), r.round(-9, 9), r.round(-12, 12)};
      if (r.chance(0.15) && !all0.empty()) p = r.pick(all0);  // the same pose again
      if (r.chance(0.2)) p.th = static_cast<double>(r.range(-8, 8)) * kPi / 4 + r.uni(-1e-3, 1e-3);
      all0.push_back(p);
      return p;
    };
    Desc d;
    b.WptInitialGuessPoint(W - 1, Pose2d{0.0, 0.0, 0.0});
    int calls = static_cast<int>(r.range(1, W > 5 ? 40 : 9));
    bool multi = false;
    for (int q = 0; q < calls; ++q) {
      size_t w = static_cast<size_t>(r.range(0, static_cast<int64_t>(W) - 1));
      int k = static_cast<int>(r.range(0, 3));
      P p = rp();
      if (k == 0) { b.PoseWpt(w, p.x, p.y, p.th); wpt[w] = p; d << "pose"; }
      else if (k == 1) { b.TranslationWpt(w, p.x, p.y, p.th); wpt[w] = p; d << "translation"; }
      else if (k == 2) { b.WptInitialGuessPoint(w, Pose2d{p.x, p.y, p.th}); wpt[w] = p; d << "guess"; }
      else if (W > 1) {
        w = static_cast<size_t>(r.range(0, static_cast<int64_t>(W) - 2));
        std::vector<P> pts;
        std::vector<Pose2d> poses;
        int n = static_cast<int>(r.range(r.chance(0.1) ? 0 : 1, r.chance(0.03) ? 40 : 4));
        for (int a = 0; a < n; ++a) {
          pts.push_back(rp());
          poses.emplace_back(pts.back().x, pts.back().y, Rotation2d{pts.back().th});
        }
        b.SgmtInitialGuessPoints(w, poses);
        if (!mid[w + 1].empty()) multi = true;
        mid[w + 1].push_back(pts);
        d << "points" << n;
      }
      d << " " << w << "(" << p.x << "," << p.y << "," << p.th << ");";
    }
    std::vector<size_t> N(W - 1);
    bool all = true;
    for (size_t k = 0; k + 1 < W; ++k) {
      size_t need = 1;
      for (auto& m : mid[k + 1]) need += m.size();
      N[k] = r.chance(0.2) ? need : static_cast<size_t>(r.range(1, 13));
      if (r.chance(0.5) && N[k] < need) N[k] = need + static_cast<size_t>(r.range(0, 5));
      if (N[k] < need) all = false;
    }
    if (r.chance(0.03) && W > 1) N[static_cast<size_t>(r.range(0, static_cast<int64_t>(W) - 2))] = static_cast<size_t>(r.range(14, 200));
    if (r.chance(0.05)) { N.assign(W - 1, 40); }
    else b.ControlIntervalCounts(std::vector<size_t>{N});
    auto g = b.CalculateInitialGuess();
    d << " N=" << N;
    size_t S = 1;
    for (auto n : N) S += n;
    bool sizes = g.x.size() == S && g.y.size() == S && g.thetacos.size() == S && g.thetasin.size() == S;
    c.Check(sizes, "wrong-length", [&] { return (Desc{} << d.str() << " lengths " << g.x.size() << " " << g.y.size() << " " << g.thetacos.size() << " " << g.thetasin.size() << " for " << S << " samples").str(); });
    if (!sizes) return;
    auto same = [&](size_t i, const P& p) {
      return mon::Near(g.x[i], p.x, 1e-9) && mon::Near(g.y[i], p.y, 1e-9) && mon::Near(g.thetacos[i], std::cos(p.th), 1e-9) && mon::Near(g.thetasin[i], std::sin(p.th), 1e-9);
    };
    for (size_t i = 0; i < S; ++i)
      c.Check(mon::Near(std::hypot(g.thetacos[i], g.thetasin[i]), 1, 1e-9), "heading-not-unit", [&] { return (Desc{} << d.str() << " sample " << i).str(); });
    size_t at = 0;
    c.Check(same(0, wpt[0]), "first-sample-wrong", [&] { return (Desc{} << d.str() << " (" << g.x[0] << "," << g.y[0] << ")").str(); });
    for (size_t k = 0; k + 1 < W; ++k) {
      size_t end = at + N[k];
      c.Check(same(end, wpt[k + 1]), "waypoint-sample-wrong", [&] { return (Desc{} << d.str() << " waypoint " << (k + 1) << " sample " << end << " (" << g.x[end] << "," << g.y[end] << ")").str(); });
      size_t need = 1;
      for (auto& m : mid[k + 1]) need += m.size();
      if (N[k] >= need) {
        bool ok = false;
        // The order in which several calls for one segment contribute is open.
        for (int rev = 0; rev < 2 && !ok; ++rev) {
          std::vector<P> pts{wpt[k]};
          auto blocks = mid[k + 1];
          if (rev) std::reverse(blocks.begin(), blocks.end());
          for (auto& m : blocks) pts.insert(pts.end(), m.begin(), m.end());
          pts.push_back(wpt[k + 1]);
          size_t K = pts.size() - 1;
          // reach[j][n]: point j is met at local sample n
          std::vector<std::vector<char>> reach(K + 1, std::vector<char>(N[k] + 1));
          reach[0][0] = 1;
          auto line = [&](const P& a, const P& e, size_t from, size_t n) {
            double diff = Wrap(e.th - a.th);
            for (int alt = 0; alt < (kPi - std::abs(diff) < 1e-6 ? 2 : 1); ++alt) {
              double dd = alt ? (diff > 0 ? diff - 2 * kPi : diff + 2 * kPi) : diff;
              bool good = true;
              for (size_t q = 1; q <= n && good; ++q) {
                double t = static_cast<double>(q) / static_cast<double>(n);
                good = same(at + from + q, P{a.x + t * (e.x - a.x), a.y + t * (e.y - a.y), a.th + t * dd});
              }
              if (good) return true;
            }
            return false;
          };
          for (size_t j = 0; j < K; ++j)
            for (size_t n0 = 0; n0 <= N[k]; ++n0)
              if (reach[j][n0])
                for (size_t n = 1; n0 + n <= N[k]; ++n)
                  if (line(pts[j], pts[j + 1], n0, n)) reach[j + 1][n0 + n] = 1;
          ok = reach[K][N[k]];
          if (!multi) break;
        }
        c.Check(ok, "guess-points-not-visited-linearly", [&] {
          Desc e;
          e << d.str() << " segment " << k << " guess x:";
          for (size_t i = at; i <= end; ++i) e << " " << g.x[i];
          e << " points x: " << wpt[k].x;
          for (auto& m : mid[k + 1]) for (auto& q : m) e << " " << q.x;
          e << " " << wpt[k + 1].x;
          return e.str();
        });
        c.Stat("segments_full");
        if (need > 1) { c.Stat("segments_with_intermediate_points"); c.Distinct(d.str()); }
      } else {
        c.Stat("segments_short");
      }
      at = end;
    }
    (void)all;
    c.Sample(d.str());
  });
}

// ---------------------------------------------------------------- C05
struct Op {
  int kind;  // 0 pose 1 translation 2 wpt guess 3 sgmt guess 4 wpt marker 5 sgmt marker 6 drivetrain 7 bumpers 8 wpt obstacle 9 sgmt obstacle
  size_t a = 0, b = 0;
  double x = 0, y = 0, th = 0;
  std::vector<V2> pts;
  trajopt::SwerveDrivetrain drive{};
  std::string str() const {
    static const char* n[] = {"pose", "translation", "guess", "points", "marker", "segment-marker", "drivetrain", "bumpers", "obstacle", "segment-obstacle"};
    return (Desc{} << n[kind] << " " << a << (kind == 5 || kind == 9 ? ".." + std::to_string(b) : "") << "(" << x << "," << y << ")").str();
  }
  void Run(SwervePathBuilder& B) const {
    switch (kind) {
      case 0: B.PoseWpt(a, x, y, th); break;
      case 1: B.TranslationWpt(a, x, y, th); break;
      case 2: B.WptInitialGuessPoint(a, Pose2d{x, y, th}); break;
      case 3: {
        std::vector<Pose2d> p;
        for (auto& q : pts) p.emplace_back(q.x, q.y, Rotation2d{th});
        B.SgmtInitialGuessPoints(a, p);
        break;
      }
      case 4: B.WptConstraint(a, trajopt::PointPointConstraint{{0, 0}, {x, y}, 0.5}); break;
      case 5: B.SgmtConstraint(a, b, trajopt::PointPointConstraint{{0, 0}, {x, y}, 0.5}); break;
      case 6: B.SetDrivetrain(drive); break;
      case 7: B.AddBumpers({0.2, {{x, y}}}); break;
      case 8: B.WptObstacle(a, {0.3, {{x, y}}}); break;
      case 9: B.SgmtObstacle(a, b, {0.3, {{x, y}}}); break;
    }
  }
  size_t Highest() const {
    switch (kind) {
      case 3: return a + 1;
      case 5: case 9: return b;
      case 6: return 0;
      case 7: return 0;
      default: return a;
    }
  }
  bool MakesWaypoints() const { return kind != 6 && kind != 7; }
};

static void C05(Ctx& c) {
  c.rule = "a case is a random history of builder calls with unique marker constraints; waypoint count, interval counts, guesses and, for every marker and every sample, where it binds are compared with a reference "
           "interpretation of the history, and a random commuting reordering must record the same problem; distinct by history; non-trivial: two or more calls and waypoints";
  // Calls that create many waypoints at once.
  c.Cases("jumps", c.N(250, 4000), [&](Rng& r) {
    SwervePathBuilder b;
    std::map<size_t, std::array<double, 3>> guess;
    size_t W = 0;
    Desc d;
    for (int q = static_cast<int>(r.range(1, 5)); q > 0; --q) {
      Op o;
      o.kind = static_cast<int>(r.range(0, 5));
      o.a = static_cast<size_t>(r.range(0, static_cast<int64_t>(r.logUni(2, 400))));
      o.b = o.a + 1 + static_cast<size_t>(r.range(0, static_cast<int64_t>(r.logUni(1, 100))));
      o.x = r.uni(-9, 9);
      o.y = r.uni(-9, 9);
      o.th = r.uni(-3, 3);
      o.Run(b);
      d << o.str() << ";";
      W = std::max(W, o.Highest() + 1);
      if (o.kind <= 2) guess[o.a] = {o.x, o.y, o.th};
    }
    c.Check(b.GetPath().waypoints.size() == W, "waypoint-count-wrong", [&] { return (Desc{} << d.str() << " has " << b.GetPath().waypoints.size() << " waypoints, expected " << W).str(); });
    auto n = b.GetControlIntervalCounts();
    c.Check(n == std::vector<size_t>(W - 1, 40), "interval-counts-wrong", [&] { return (Desc{} << d.str() << " has counts " << std::vector<size_t>{n}).str(); });
    b.ControlIntervalCounts(std::vector<size_t>(W - 1, 1));
    auto ig = b.CalculateInitialGuess();
    if (c.Check(ig.x.size() == W && ig.y.size() == W && ig.thetacos.size() == W && ig.thetasin.size() == W, "guess-length-wrong", [&] { return (Desc{} << d.str() << " guess of " << ig.x.size() << " samples for " << W << " waypoints").str(); }))
      for (size_t w = 0; w < W; ++w) {
        auto it = guess.find(w);
        std::array<double, 3> want = it == guess.end() ? std::array<double, 3>{0, 0, 0} : it->second;
        c.Check(mon::Near(ig.x[w], want[0], 1e-9) && mon::Near(ig.y[w], want[1], 1e-9) && mon::Near(ig.thetacos[w], std::cos(want[2]), 1e-9) && mon::Near(ig.thetasin[w], std::sin(want[2]), 1e-9), "waypoint-guess-wrong",
                [&] { return (Desc{} << d.str() << " waypoint " << w << " guess (" << ig.x[w] << "," << ig.y[w] << ")").str(); });
      }
    c.Stat("waypoints_created", W);
    c.Distinct(d.str());
  });
  c.Cases("histories", c.N(900, 12000), [&](Rng& r) {
    size_t maxW = static_cast<size_t>(r.chance(0.03) ? r.range(6, 20) : r.range(1, 5));
    int n = static_cast<int>(r.range(2, r.chance(0.03) ? 40 : 14));
    std::vector<Op> ops;
    size_t marker = 0;
    size_t nBumpers = 0;
    for (int q = 0; q < n; ++q) {
      Op o;
      o.kind = static_cast<int>(r.range(0, 9));
      o.a = static_cast<size_t>(r.range(0, static_cast<int64_t>(maxW) - 1));
      o.x = 100.0 + 10.0 * static_cast<double>(marker) + r.uni(-1, 1);
      o.y = r.uni(-9, 9);
      ++marker;
      o.th = r.chance(0.15) ? 0.0 : r.uni(-3, 3);
      if (o.kind == 3 || o.kind == 5 || o.kind == 9) {
        if (maxW < 2) continue;
        o.a = static_cast<size_t>(r.range(0, static_cast<int64_t>(maxW) - 2));
        o.b = static_cast<size_t>(r.range(static_cast<int64_t>(o.a) + 1, static_cast<int64_t>(maxW) - 1));
      }
      if (o.kind == 3)
        for (int k = static_cast<int>(r.range(r.chance(0.3) ? 0 : 1, 3)); k > 0; --k) o.pts.push_back({r.uni(-9, 9), r.uni(-9, 9)});
      if (o.kind == 6) {
        o.drive.mass = r.uni(2, 50);
        o.drive.moi = r.uni(1, 9);
        for (int k = static_cast<int>(r.range(0, 4)); k > 0; --k)
          o.drive.modules.push_back({{r.uni(-1, 1), r.uni(-1, 1)}, r.uni(0.03, 0.1), r.uni(20, 90), r.uni(1, 4)});
      }
      if (o.kind == 7) { o.x = r.uni(-0.4, 0.4); o.y = r.uni(-0.4, 0.4); ++nBumpers; }
      ops.push_back(o);
    }
    // A generation needs a drivetrain; the first call sets one, later ones may replace it.
    Op first;
    first.kind = 6;
    first.drive = {r.uni(2, 50), r.uni(1, 9), {{{0.3, 0.2}, 0.05, 50, 2}, {{-0.3, 0.1}, 0.05, 60, 2}}};
    ops.insert(ops.begin(), first);
    Op last;
    last.kind = 2;
    last.a = static_cast<size_t>(r.range(0, static_cast<int64_t>(maxW) - 1));
    last.x = 3;
    ops.insert(ops.begin() + r.range(0, static_cast<int64_t>(ops.size())), last);

    // Reference interpretation.
    size_t W = 0;
    size_t countsAt = r.chance(0.6) ? static_cast<size_t>(r.range(0, static_cast<int64_t>(ops.size()))) : SIZE_MAX;
    std::vector<size_t> counts;
    SwervePathBuilder A;
    std::vector<V2> guess;
    std::vector<double> guessTh;
    size_t modules = 0;
    Desc d;
    bool overridden = false;
    for (size_t q = 0; q <= ops.size(); ++q) {
      if (q == countsAt && W > 0) {
        int times = static_cast<int>(r.range(1, 2));
        for (int t = 0; t < times; ++t) {
          counts.clear();
          for (size_t k = 0; k + 1 < W; ++k) counts.push_back(static_cast<size_t>(r.range(1, 4)));
          A.ControlIntervalCounts(std::vector<size_t>{counts});
        }
        overridden = true;
        d << "counts" << counts << ";";
      }
      if (q == ops.size()) break;
      const Op& o = ops[q];
      if (o.MakesWaypoints()) {
        bool obst = o.kind == 8 || o.kind == 9;
        // An obstacle without bumpers asks for nothing; whether it creates waypoints is left open.
        size_t bumpersBefore = 0;
        for (size_t t = 0; t < q; ++t) bumpersBefore += ops[t].kind == 7;
        if (obst && bumpersBefore == 0) continue;
        while (W <= o.Highest()) {
          if (W) counts.push_back(40);
          ++W;
          guess.push_back({0, 0});
          guessTh.push_back(0);
        }
      }
      o.Run(A);
      d << o.str() << ";";
      if (o.kind <= 2) { guess[o.a] = {o.x, o.y}; guessTh[o.a] = o.th; }
      if (o.kind == 6) modules = o.drive.modules.size();
    }
    c.Check(A.GetPath().waypoints.size() == W, "waypoint-count-wrong", [&] { return (Desc{} << d.str() << " has " << A.GetPath().waypoints.size() << " waypoints, expected " << W).str(); });
    auto got = A.GetControlIntervalCounts();
    c.Check(got == counts, "interval-counts-wrong", [&] { return (Desc{} << d.str() << " has counts " << std::vector<size_t>{got} << ", expected " << counts).str(); });
    if (A.GetPath().waypoints.size() != W || got != counts) return;
    c.Stat(overridden ? "with_counts" : "default_counts");
    size_t total = 1;
    for (auto k : counts) total += k;
    // Guess poses at the waypoints.
    auto ig = A.CalculateInitialGuess();
    size_t at = 0;
    if (ig.x.size() == total)
      for (size_t w = 0; w < W; ++w) {
        if (w) at += counts[w - 1];
        c.Check(mon::Near(ig.x[at], guess[w].x, 1e-9) && mon::Near(ig.y[at], guess[w].y, 1e-9) && mon::Near(ig.thetacos[at], std::cos(guessTh[w]), 1e-9) && mon::Near(ig.thetasin[at], std::sin(guessTh[w]), 1e-9), "waypoint-guess-wrong",
                [&] { return (Desc{} << d.str() << " waypoint " << w << " guess (" << ig.x[at] << "," << ig.y[at] << ") expected (" << guess[w].x << "," << guess[w].y << ")").str(); });
      }
    // Shrink before the expensive part: same builder, fewer intervals.
    std::vector<size_t> small;
    for (size_t k = 0; k + 1 < W; ++k) small.push_back(static_cast<size_t>(r.range(1, 4)));
    A.ControlIntervalCounts(std::vector<size_t>{small});
    Rig g;
    g.N = small;
    g.M = modules;
    Capture cap{A, modules};
    State base = Generic(r, g);
    // Where every marker binds.
    size_t bumpersSeen = 0;
    for (size_t q = 0; q < ops.size(); ++q) {
      const Op& o = ops[q];
      if (o.kind == 7) ++bumpersSeen;
      bool marker = o.kind == 4 || o.kind == 5 || o.kind <= 1 || ((o.kind == 8 || o.kind == 9) && bumpersSeen);
      if (!marker) continue;
      Place p;
      p.segment = o.kind == 5 || o.kind == 9;
      p.from = o.a;
      p.to = p.segment ? o.b : o.a;
      for (size_t i = 0; i < g.Samples(); ++i) {
        State in = base, out = base;
        bool pin = o.kind <= 1;
        // obstacles bind with every bumper added before the call
        std::vector<V2> offs;
        if (o.kind == 8 || o.kind == 9) {
          for (size_t t = 0; t < q; ++t)
            if (ops[t].kind == 7) offs.push_back({ops[t].x, ops[t].y});
        } else {
          offs.push_back({0, 0});
        }
        for (auto& off : offs) {
          V2 m = Rot(off, std::atan2(base.s[i], base.c[i]));
          in.x[i] = o.x - m.x; in.y[i] = o.y - m.y;
          out.x[i] = o.x - m.x + 0.11; out.y[i] = o.y - m.y + 4.3;
          if (o.kind == 0) { in.c[i] = out.c[i] = std::cos(o.th); in.s[i] = out.s[i] = std::sin(o.th); }
          int delta = cap.At(in).Violated() - cap.At(out).Violated();
          if (pin) delta = -delta;
          bool concerns = p.Concerns(g, i);
          c.Check((delta > 0) == concerns && delta >= 0, std::string{concerns ? "call-not-effective:" : "call-effective-elsewhere:"} + (o.kind == 0 ? "pose" : o.kind == 1 ? "translation" : o.kind == 4 ? "wpt-constraint" : o.kind == 5 ? "sgmt-constraint" : o.kind == 8 ? "wpt-obstacle" : "sgmt-obstacle"),
                  [&] { return (Desc{} << d.str() << " " << o.str() << " at sample " << i << " N=" << small << " delta " << delta).str(); });
          c.Stat("marker_checks");
        }
      }
    }
    // A commuting reordering.
    std::vector<size_t> order(ops.size());
    for (size_t q = 0; q < ops.size(); ++q) order[q] = q;
    auto conflict = [&](const Op& u, const Op& v) {
      bool gu = u.kind <= 2, gv = v.kind <= 2;
      if (gu && gv && u.a == v.a) return true;
      if (u.kind == 3 && v.kind == 3 && u.a == v.a) return true;
      if (u.kind == 6 && v.kind == 6) return true;
      bool bu = u.kind == 7, bv = v.kind == 7, ou = u.kind >= 8, ov = v.kind >= 8;
      return (bu && ov) || (ou && bv);
    };
    for (int sw = 0; sw < 200; ++sw) {
      size_t q = static_cast<size_t>(r.range(0, static_cast<int64_t>(ops.size()) - 2));
      if (!conflict(ops[order[q]], ops[order[q + 1]])) std::swap(order[q], order[q + 1]);
    }
    SwervePathBuilder B2;
    size_t seen = 0;
    for (size_t q : order) {
      if (ops[q].kind == 7) ++seen;
      if (ops[q].kind >= 8 && !seen) continue;
      ops[q].Run(B2);
    }
    if (!overridden) c.Check(B2.GetControlIntervalCounts() == counts, "order-changes-interval-counts", [&] { return (Desc{} << d.str() << " reordered " << order).str(); });
    B2.ControlIntervalCounts(std::vector<size_t>{small});
    c.Check(B2.GetPath().waypoints.size() == W, "order-changes-waypoints", [&] { return (Desc{} << d.str() << " reordered " << order).str(); });
    if (B2.GetPath().waypoints.size() != W) return;
    Capture cap2{B2, modules};
    c.Check(cap.initialRaw == cap2.initialRaw, "order-changes-starting-point", [&] { return (Desc{} << d.str() << " reordered " << order).str(); });
    for (int t = 0; t < 3; ++t) {
      State st = Generic(r, g);
      for (auto& h : st.dt) h = r.uni(0.001, 1);
      auto sorted = [](std::vector<double> v) { std::sort(v.begin(), v.end()); return v; };
      auto a = cap.At(st), b = cap2.At(st);
      c.Check(sorted(a.eq) == sorted(b.eq) && sorted(a.ineq) == sorted(b.ineq) && a.cost == b.cost, "order-changes-problem",
              [&] { return (Desc{} << d.str() << " reordered " << order << ": " << a.eq.size() << "/" << b.eq.size() << " equalities, " << a.ineq.size() << "/" << b.ineq.size() << " inequalities").str(); });
    }
    if (W > 1 && ops.size() > 2) c.Distinct(d.str());
    c.Sample(d.str());
  });
}

int main(int argc, char** argv) {
  return mon::Main(argc, argv, {{"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}});
}

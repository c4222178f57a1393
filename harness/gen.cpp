// C16 starting point, C18 exit conditions, C19 trajectories, C20 progress
// reports, C21 cancellation, C23 isolation and repeatability.
#include <condition_variable>
#include <deque>
#include <sys/wait.h>
#include <thread>

#include "clock.hpp"
#include "paths.hpp"
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/util/Cancellation.hpp>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace rec;
using trajopt::Pose2d;
using trajopt::SwervePathBuilder;
using trajopt::SwerveTrajectoryGenerator;

// ---------------------------------------------------------------- C16
static void C16(Ctx& c) {
  c.rule = "a case is a random builder history (guess points, counts, waypoints, drivetrain) up to the solver's start; every variable's starting value is one oracle evaluation; "
           "distinct by counts and guess values";
  c.Cases("start", c.N(900, 20000), [&](Rng& r) {
    paths::Options o;
    o.maxSegs = 6;
    o.manyCounts = true;
    auto b = paths::Random(r, o);
    auto N = b.builder.GetControlIntervalCounts();
    size_t M = b.modules;
    auto guess = b.builder.CalculateInitialGuess();
    SwervePathBuilder copy = b.builder;
    Capture cap{copy, M};
    size_t S = cap.samples;
    c.Distinct((Desc{} << N << guess.x << guess.thetacos).str());
    c.Sample((Desc{} << "N=" << N << " M=" << M << " x=" << guess.x).str().substr(0, 300));
    c.Stat("samples", static_cast<int64_t>(S));
    auto& st = cap.initial;
    if (!c.Check(guess.x.size() == S && guess.y.size() == S && guess.thetacos.size() == S && guess.thetasin.size() == S && guess.dt.size() + 1 >= S, "guess-size",
                 [&] { return (Desc{} << "guess has " << guess.x.size() << " positions for " << S << " samples, N=" << N).str(); }))
      return;
    auto where = [&](const char* what, size_t i, double got, double want) {
      return [=, &N] { return (Desc{} << what << " of sample " << i << " starts at " << got << ", expected " << want << "; N=" << N).str(); };
    };
    double h = 0;
    auto near = [](double a, double b) { return mon::Near(a, b, 1e-9 * (1 + std::abs(b))); };
    for (size_t i = 0; i < S; ++i) {
      c.Check(st.x[i] == guess.x[i], "pose:x", where("x", i, st.x[i], guess.x[i]));
      c.Check(st.y[i] == guess.y[i], "pose:y", where("y", i, st.y[i], guess.y[i]));
      c.Check(st.c[i] == guess.thetacos[i], "pose:thetacos", where("thetacos", i, st.c[i], guess.thetacos[i]));
      c.Check(st.s[i] == guess.thetasin[i], "pose:thetasin", where("thetasin", i, st.s[i], guess.thetasin[i]));
      double vx = 0, vy = 0, om = 0, ax = 0, ay = 0, al = 0;
      bool halfTurn = false;
      if (i > 0) {
        // The guess lists one time step per sample, all alike.
        h = guess.dt[std::min(i, guess.dt.size() - 1)];
        c.Check(h > 0, "guess-dt-not-positive", where("guess dt", i, h, 1));
        double turn = paths::Rem(std::atan2(guess.thetasin[i], guess.thetacos[i]) - std::atan2(guess.thetasin[i - 1], guess.thetacos[i - 1]));
        halfTurn = std::abs(std::abs(turn) - kPi) < 1e-6;
        vx = (guess.x[i] - guess.x[i - 1]) / h;
        vy = (guess.y[i] - guess.y[i - 1]) / h;
        om = turn / h;
        if (halfTurn && om * st.om[i] < 0) om = -om;
        ax = (vx - st.vx[i - 1]) / h;
        ay = (vy - st.vy[i - 1]) / h;
        al = (om - st.om[i - 1]) / h;
        c.Check(std::abs(st.om[i]) * h <= kPi + 1e-9, "turn-rate-long-way", where("omega", i, st.om[i], om));
      }
      c.Check(near(st.vx[i], vx), "start:vx", where("vx", i, st.vx[i], vx));
      c.Check(near(st.vy[i], vy), "start:vy", where("vy", i, st.vy[i], vy));
      c.Check(near(st.om[i], om), "start:omega", where("omega", i, st.om[i], om));
      double scale = 1e-9 * (1 + (i ? (std::abs(vx) + std::abs(st.vx[i - 1]) + std::abs(vy) + std::abs(st.vy[i - 1]) + std::abs(om) + std::abs(st.om[i - 1])) / h : 0));
      c.Check(mon::Near(st.ax[i], ax, scale), "start:ax", where("ax", i, st.ax[i], ax));
      c.Check(mon::Near(st.ay[i], ay, scale), "start:ay", where("ay", i, st.ay[i], ay));
      c.Check(mon::Near(st.al[i], al, scale), "start:alpha", where("alpha", i, st.al[i], al));
    }
    for (size_t k = 0; k < st.dt.size(); ++k) c.Check(st.dt[k] > 0 && std::isfinite(st.dt[k]), "dt-not-positive", where("segment dt", k, st.dt[k], 1));
    for (size_t i = 0; i < cap.initialRaw.size(); ++i)
      c.Check(std::isfinite(cap.initialRaw[i]), "start-not-finite", where("variable", i, cap.initialRaw[i], 0));
  });
}

// ---------------------------------------------------------------- C18
static void C18(Ctx& c) {
  using enum SolverExitCondition;
  static const std::vector<SolverExitCondition> all{kSuccess, kSolvedToAcceptableTolerance, kCallbackRequestedStop, kTooFewDOFs, kLocallyInfeasible, kFeasibilityRestorationFailed,
                                                    kNonfiniteInitialCostOrConstraints, kDivergingIterates, kMaxIterationsExceeded, kTimeout};
  c.rule = "a case is a sequence of generations on one random path, each scripted to end in one of the solver's 10 exit conditions after 0-6 iterations with or without diagnostics; "
           "distinct by (exit condition sequence, diagnostics, iterations); every outcome, message and solver request is an oracle evaluation";
  c.Cases("exits", c.N(4000, 60000), [&](Rng& r) {
    paths::Options o;
    o.maxSegs = 2;
    auto b = paths::Random(r, o);
    SwerveTrajectoryGenerator gen{b.builder};
    int runs = static_cast<int>(r.range(1, 4));
    for (int g = 0; g < runs; ++g) {
      auto exit = r.pick(all);
      int diag = static_cast<int>(r.range(0, 2)), iters = static_cast<int>(r.range(0, 6)), solves = 0;
      bool cancel = r.chance(0.2), poison = r.chance(0.2);
      SolverConfig cfg;
      SolverScope scope{[&](OptimizationProblem& p, const SolverConfig& k) {
        ++solves;
        cfg = k;
        for (auto& v : p.decisionVariables) v.SetValue(poison ? NAN : r.uni(-5, 5));
        for (int i = 0; i < iters; ++i) {
          gSteadyNs += r.range(0, 40'000'000);
          if (cancel && i == iters / 2) trajopt::GetCancellationFlag() = 1;
          if (p.Iterate(i)) return Status(kCallbackRequestedStop);
        }
        return Status(exit);
      }};
      auto res = diag == 2 ? gen.Generate() : gen.Generate(diag == 1);
      if (cancel && iters > 0) exit = kCallbackRequestedStop;
      bool good = exit == kSuccess || exit == kSolvedToAcceptableTolerance;
      std::string what = (Desc{} << "exit condition " << static_cast<int>(exit) << " (" << std::string{sleipnir::ToMessage(exit)} << "), generation " << g << ", diagnostics "
                                 << (diag == 1) << ", " << iters << " iterations" << (cancel ? ", cancelled" : "")).str();
      c.Distinct((Desc{} << static_cast<int>(exit) << "/" << diag << "/" << iters << "/" << g << "/" << cancel << "/" << poison).str());
      c.Sample(what);
      c.Stat("exit " + std::to_string(static_cast<int>(exit)));
      c.Check(res.has_value() == good, good ? "success-reported-as-failure" : "failure-reported-as-success", [&] { return what; });
      if (!res.has_value()) c.Check(res.error() == sleipnir::ToMessage(exit), "wrong-message", [&] { return what + ": message is '" + res.error() + "'"; });
      else c.Check(res->x.size() > 0, "empty-solution", [&] { return what; });
      c.Check(solves == 1, "solver-runs", [&] { return (Desc{} << what << ": the solver ran " << solves << " times").str(); });
      c.Check(cfg.tolerance == 1e-4, "tolerance", [&] { return (Desc{} << "tolerance " << cfg.tolerance).str(); });
      c.Check(cfg.diagnostics == (diag == 1) && !cfg.spy, "diagnostics", [&] { return what; });
    }
  });
}

// ---------------------------------------------------------------- C19
static void C19(Ctx& c) {
  c.rule = "a case is a random solution (0-80 samples, 0-6 modules, uneven and zero time steps, non-unit heading vectors, extreme values) converted to a trajectory; "
           "every field of every sample is one oracle evaluation; distinct by content";
  c.Cases("convert", c.N(30000, 500000), [&](Rng& r) {
    trajopt::SwerveSolution s;
    size_t n = r.chance(0.05) ? 0 : static_cast<size_t>(r.range(1, r.chance(0.005) ? 3000 : r.chance(0.1) ? 80 : 12)), M = static_cast<size_t>(r.range(0, r.chance(0.02) ? 20 : 6));
    auto val = [&] { return r.chance(0.05) ? 0.0 : r.chance(0.03) ? r.signedMag(1e100, 1e200) : r.chance(0.05) ? -0.0 : r.uni(-50, 50); };
    double scale = r.chance(0.2) ? 1e-6 : 1;
    bool uneven = r.chance(0.1);
    for (size_t i = 0; i < n; ++i) {
      for (auto* v : {&s.x, &s.y, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) v->push_back(val());
      double th = r.chance(0.2) ? static_cast<double>(r.range(-4, 4)) * kPi / 4 : r.uni(-kPi, kPi), len = r.chance(0.3) ? r.uni(0.2, 3) : 1;
      s.thetacos.push_back(len * std::cos(th));
      s.thetasin.push_back(r.chance(0.05) ? 0.0 : len * std::sin(th));
      if (i > 0) s.dt.push_back(r.chance(0.05) ? 0.0 : r.uni(1e-4, 0.3) * scale);
      s.moduleFX.emplace_back();
      s.moduleFY.emplace_back();
      for (size_t j = 0; j < M; ++j) {
        s.moduleFX.back().push_back(val());
        s.moduleFY.back().push_back(val());
      }
      if (uneven) {  // each sample has its own numbers of forces
        s.moduleFX.back().resize(static_cast<size_t>(r.range(0, 6)), val());
        s.moduleFY.back().resize(static_cast<size_t>(r.range(0, 6)), val());
      }
    }
    const auto keep = s;
    trajopt::HolonomicTrajectory t{s};
    c.Distinct((Desc{} << n << "/" << M << s.x << s.dt).str());
    c.Sample((Desc{} << "n=" << n << " modules=" << M << " dt=" << s.dt).str().substr(0, 200));
    if (!c.Check(t.samples.size() == n, "sample-count", [&] { return (Desc{} << t.samples.size() << " samples for " << n << " positions").str(); })) return;
    for (size_t i = 0; i < n; ++i) {
      auto& p = t.samples[i];
      auto at = [&] { return (Desc{} << "sample " << i << " of " << n).str(); };
      if (i == 0) c.Check(p.timestamp == 0.0, "first-time", at);
      else c.Check(mon::Near(p.timestamp - t.samples[i - 1].timestamp, s.dt[i - 1], 1e-12 * (1 + p.timestamp)), "time", [&] { return (Desc{} << at() << ": time " << p.timestamp << " after " << t.samples[i - 1].timestamp << ", dt " << s.dt[i - 1]).str(); });
      c.Check(p.heading >= -kPi && p.heading <= kPi, "heading-range", [&] { return (Desc{} << at() << ": " << p.heading).str(); });
      double len = std::hypot(s.thetacos[i], s.thetasin[i]);
      if (len > 0)
        c.Check(mon::Near(std::cos(p.heading), s.thetacos[i] / len, 1e-12) && mon::Near(std::sin(p.heading), s.thetasin[i] / len, 1e-12), "heading",
                [&] { return (Desc{} << at() << ": heading " << p.heading << " for (" << s.thetacos[i] << "," << s.thetasin[i] << ")").str(); });
      c.Check(mon::SameBits(p.x, s.x[i]) && mon::SameBits(p.y, s.y[i]), "position", at);
      c.Check(mon::SameBits(p.velocityX, s.vx[i]) && mon::SameBits(p.velocityY, s.vy[i]), "velocity", at);
      c.Check(mon::SameBits(p.angularVelocity, s.omega[i]), "turn-rate", at);
      c.Check(p.moduleForcesX == s.moduleFX[i] && p.moduleForcesY == s.moduleFY[i], "module-forces", at);
    }
    bool same = keep.dt == s.dt && keep.x == s.x && keep.thetacos == s.thetacos && keep.moduleFX == s.moduleFX;
    c.Check(same, "solution-changed", "converting changed the solution");
    auto copy = t.samples;
    trajopt::HolonomicTrajectory u{copy};
    c.Check(u.samples.size() == n, "from-samples", "constructing from samples lost samples");
    for (size_t i = 0; i < std::min(n, u.samples.size()); ++i)
      c.Check(mon::SameBits(u.samples[i].x, t.samples[i].x) && mon::SameBits(u.samples[i].timestamp, t.samples[i].timestamp) && u.samples[i].moduleForcesY == t.samples[i].moduleForcesY, "from-samples",
              "constructing from samples changed a sample");
  });
  c.Cases("samples", c.N(2000, 20000), [&](Rng& r) {
    double v[7];
    for (auto& x : v) x = r.chance(0.1) ? 0.0 : r.uni(-50, 50);
    std::vector<double> fx, fy;
    for (int64_t k = r.range(0, 5); k > 0; --k) fx.push_back(r.uni(-9, 9)), fy.push_back(r.uni(-9, 9));
    auto same = [&](const trajopt::HolonomicTrajectorySample& s, const double* w, const std::vector<double>& gx, const std::vector<double>& gy, const char* what) {
      c.Check(s.timestamp == w[0] && s.x == w[1] && s.y == w[2] && s.heading == w[3] && s.velocityX == w[4] && s.velocityY == w[5] && s.angularVelocity == w[6] && s.moduleForcesX == gx && s.moduleForcesY == gy,
              std::string{"sample-fields:"} + what, [&] { return (Desc{} << what << " a sample from " << std::vector<double>(w, w + 7) << " gives " << s.timestamp << " " << s.x << " " << s.y << " " << s.heading << " " << s.velocityX << " " << s.velocityY << " " << s.angularVelocity << " and forces " << s.moduleForcesX << s.moduleForcesY).str(); });
    };
    const double none[7]{};
    same({}, none, {}, {}, "default-constructing");
    same({v[0], v[1], v[2], v[3], v[4], v[5], v[6]}, v, {}, {}, "constructing");
    trajopt::HolonomicTrajectorySample full{v[0], v[1], v[2], v[3], v[4], v[5], v[6], fx, fy};
    same(full, v, fx, fy, "constructing with forces");
    auto copy = full;
    same(copy, v, fx, fy, "copying");
    auto moved = std::move(copy);
    same(moved, v, fx, fy, "moving");
    trajopt::HolonomicTrajectory t{std::vector<trajopt::HolonomicTrajectorySample>{full, {}, full}};
    auto u = t;
    t = {};
    c.Check(t.samples.empty() && u.samples.size() == 3, "trajectory-copy", "a copied trajectory shares its samples or loses some");
    if (u.samples.size() == 3) same(u.samples[2], v, fx, fy, "copying a trajectory of");
    c.Distinct((Desc{} << "samples" << fx.size() << v[0]).str());
  });
}

// ---------------------------------------------------------------- C20
/// Decision variable `j` at iteration `k` of generation `g` gets this value.
static double Tag(int g, int k, size_t j) { return static_cast<double>((static_cast<int64_t>(g) * 512 + k + 1) * 16384 + static_cast<int64_t>(j)) + 0.25; }
static void Untag(double v, int& g, int& k, size_t& j) {
  auto t = static_cast<int64_t>(v - 0.25);
  j = static_cast<size_t>(t % 16384);
  k = static_cast<int>(t / 16384 % 512) - 1;
  g = static_cast<int>(t / 16384 / 512);
}

struct Report {
  int callback;
  int64_t handle;
  trajopt::SwerveSolution sol;
};

struct Gen20 {
  int id = 0;
  int64_t handle = 0;
  int callbacks = 0;
  std::shared_ptr<std::vector<Report>> log = std::make_shared<std::vector<Report>>();
  std::unique_ptr<SwerveTrajectoryGenerator> gen;
  int64_t lastReport = -1, firstIteration = -1;
  size_t samples = 0, modules = 0;
  struct Seen { int iteration; trajopt::SwerveSolution sol; };
  std::vector<Seen> seen;
  std::vector<int> changed;  // iteration which last changed each variable
};

static std::vector<double> Flat(const trajopt::SwerveSolution& s) {
  std::vector<double> f = s.dt;
  for (auto* v : SolFields(s)) f.insert(f.end(), v->begin(), v->end());
  for (auto& v : s.moduleFX) f.insert(f.end(), v.begin(), v.end());
  for (auto& v : s.moduleFY) f.insert(f.end(), v.begin(), v.end());
  return f;
}

static Gen20 Make20(Rng& r, int id) {
  Gen20 g;
  g.id = id;
  paths::Options o;
  o.maxSegs = 2;
  auto b = paths::Random(r, o);
  g.callbacks = static_cast<int>(r.range(r.chance(0.2) ? 0 : 1, r.chance(0.05) ? 40 : 4));
  for (int i = 0; i < g.callbacks; ++i)
    b.builder.AddIntermediateCallback([log = g.log, i, takes = r.chance(0.1) ? r.range(1'000'000, 40'000'000) : 0, scribbles = i + 1 == g.callbacks && r.chance(0.3)](trajopt::SwerveSolution& s, int64_t h) {
      log->push_back({i, h, s});
      gSteadyNs += takes;  // a slow callback
      if (scribbles) {     // the last one spoils what it was given
        s.x.assign(s.x.size() + 1, -7.0);
        s.dt.clear();
        s.moduleFX.resize(1);
      }
    });
  g.handle = r.chance(0.3) ? static_cast<int64_t>(r.next()) : r.range(-3, 1000);
  g.modules = b.modules;
  g.samples = 1;
  for (auto n : b.builder.GetControlIntervalCounts()) g.samples += n;
  g.gen = std::make_unique<SwerveTrajectoryGenerator>(b.builder, g.handle);
  return g;
}

static constexpr int64_t kFrameNs = 16'666'666;  // 1/60 s, rounded down
/// One solver iteration of a generation, and the check of what it reported.
static void Iterate20(Ctx& c, Rng& r, Gen20& g, OptimizationProblem& p, int gi, int k) {
  // Mostly every variable changes; sometimes just a few or none do, as when
  // waypoints are fixed or the solver refuses a step.
  size_t vars = p.decisionVariables.size();
  bool first = g.changed.size() != vars;
  if (first) g.changed.assign(vars, k);
  int mode = first ? 0 : static_cast<int>(r.range(0, 9));
  size_t some = static_cast<size_t>(r.range(0, static_cast<int64_t>(vars)));
  for (size_t j = 0; j < vars; ++j) {
    bool touch = mode < 6 || (mode == 6 && j == some) || (mode == 7 && j != some) || (mode == 8 && j >= some);
    if (!touch) continue;
    p.decisionVariables[j].SetValue(Tag(gi, k, j));
    g.changed[j] = k;
  }
  c.Stat(mode < 6 ? "iterations_all_changed" : "iterations_some_kept");
  size_t before = g.log->size();
  int64_t now = gSteadyNs.load();
  if (g.firstIteration < 0) g.firstIteration = now;
  p.Iterate(k);
  size_t got = g.log->size() - before;
  std::string where = (Desc{} << "generation " << gi << " iteration " << k << " at " << now << " ns, first iteration " << g.firstIteration << ", last report " << g.lastReport << ", "
                              << g.callbacks << " callbacks").str();
  c.Stat("iterations");
  if (g.callbacks == 0) return;
  c.Check(got == 0 || got == static_cast<size_t>(g.callbacks), "callbacks-missed-or-repeated", [&] { return (Desc{} << where << ": " << got << " calls").str(); });
  bool mayNot = g.lastReport >= 0 && now - g.lastReport < kFrameNs - 1000;
  bool must = now - g.firstIteration > kFrameNs + 1000 && (g.lastReport < 0 || now - g.lastReport > kFrameNs + 1000);
  if (mayNot) c.Check(got == 0, "report-too-soon", [&] { return where; });
  if (must) c.Check(got > 0, "report-missing", [&] { return where; });
  c.Stat(must ? "due" : mayNot ? "early" : "optional");
  if (got == 0) return;
  c.Stat("reports");
  g.lastReport = now;
  for (size_t i = 0; i < got; ++i) {
    auto& rep = (*g.log)[before + i];
    c.Check(rep.callback == static_cast<int>(i), "callback-order", [&] { return (Desc{} << where << ": call " << i << " went to callback " << rep.callback).str(); });
    c.Check(rep.handle == g.handle, "wrong-handle", [&] { return (Desc{} << where << ": handle " << rep.handle << " instead of " << g.handle).str(); });
    bool sizes = rep.sol.moduleFX.size() == g.samples && rep.sol.moduleFY.size() == g.samples && rep.sol.dt.size() + 1 == g.samples;
    for (auto* v : SolFields(rep.sol)) sizes = sizes && v->size() == g.samples;
    for (size_t q = 0; sizes && q < g.samples; ++q) sizes = rep.sol.moduleFX[q].size() == g.modules && rep.sol.moduleFY[q].size() == g.modules;
    c.Check(sizes, "incomplete-solution", [&] { return where; });
    for (double v : Flat(rep.sol)) {
      int vg, vk;
      size_t vj;
      Untag(v, vg, vk, vj);
      if (!c.Check(vg == gi && vj < vars && vk == g.changed[vj], "stale-values", [&] { return (Desc{} << where << ": reported value " << v << " is from generation " << vg << " iteration " << vk).str(); })) break;
    }
  }
  g.seen.push_back({k, (*g.log)[before].sol});
}
static void AfterRun20(Ctx& c, Gen20& g, const trajopt::SwerveSolution& final_) {
  // Every report has each value in the same field as the returned solution.
  auto want = Flat(final_);
  for (auto& s : g.seen) {
    auto have = Flat(s.sol);
    bool ok = have.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) {
      int a, b, e, f;
      size_t x, y;
      Untag(have[i], a, b, x);
      Untag(want[i], e, f, y);
      ok = x == y;
    }
    c.Check(ok, "report-fields-differ", [&] { return (Desc{} << "report of iteration " << s.iteration << " has other variables in its fields than the returned solution").str(); });
  }
  g.seen.clear();
}
static void Advance(Rng& r) {
  switch (r.range(0, 6)) {
    case 0: gSteadyNs += r.range(0, 2'000'000); break;
    case 1: gSteadyNs += r.range(5'000'000, 12'000'000); break;
    case 2: gSteadyNs += kFrameNs - r.range(5'000, 300'000); break;
    case 3: gSteadyNs += kFrameNs + r.range(5'000, 300'000); break;
    case 4: gSteadyNs += r.range(17'000'000, 60'000'000); break;
    case 5: gSteadyNs += r.chance(0.1) ? r.range(1'000'000'000, r.chance(0.2) ? 200'000'000'000'000 : 90'000'000'000) : r.range(0, 20'000'000); break;
    default: break;
  }
  if (r.chance(0.15)) gWallOffsetNs += r.range(-5'000'000'000, 5'000'000'000);
}

static void C20(Ctx& c) {
  c.rule = "a case runs 1-3 generators, nested in each other's iterations or one after the other, with 0-4 callbacks each, under a virtual steady clock (and a jumping wall clock); "
           "each iteration's reports are checked against the rate and completeness specification; distinct by hash of the (generator, time step) schedule";
  c.assumptions.push_back("time is what std::chrono::steady_clock::now() returns; instants within 1 us of the 1/60 s limit are left open");
  c.Cases("reports", c.N(700, 15000), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    int n = static_cast<int>(r.range(1, 3));
    uint64_t h = 0;
    std::vector<Gen20> gens;
    for (int i = 0; i < n; ++i) {
      gens.push_back(Make20(r, i));
      Advance(r);
    }
    int runId = 0;
    std::function<void(int, int)> run = [&](int which, int depth) {
      Gen20& g = gens[which];
      int gi = ++runId % 200, iters = static_cast<int>(r.range(3, r.chance(0.02) ? 390 : 25));
      g.firstIteration = -1;
      g.changed.clear();
      // How it ends is no business of the next generation's reports.
      using enum SolverExitCondition;
      auto exit = r.chance(0.7) ? kSuccess : r.pick(std::vector<SolverExitCondition>{kSolvedToAcceptableTolerance, kCallbackRequestedStop, kTooFewDOFs, kLocallyInfeasible, kFeasibilityRestorationFailed,
                                                                                     kNonfiniteInitialCostOrConstraints, kDivergingIterates, kMaxIterationsExceeded, kTimeout});
      bool good = exit == kSuccess || exit == kSolvedToAcceptableTolerance;
      std::optional<trajopt::expected<trajopt::SwerveSolution, std::string>> res;
      SolverScope scope{[&](OptimizationProblem& p, const SolverConfig&) {
        for (int k = 0; k < iters; ++k) {
          Advance(r);
          Iterate20(c, r, g, p, gi, k);
          h = mon::Mix(h, static_cast<uint64_t>(gSteadyNs.load()) * 7 + which);
          if (depth + 1 < n && r.chance(0.08)) {
            run(which + 1 < n ? which + 1 : which, depth + (which + 1 < n ? 1 : 99));
            c.Stat("nested generations");
          }
          if (r.chance(0.05)) {  // a generator is constructed meanwhile
            auto extra = Make20(r, 99);
          }
        }
        for (size_t j = 0; j < p.decisionVariables.size(); ++j) p.decisionVariables[j].SetValue(Tag(gi, 400, j));
        return Status(exit);
      }};
      if (depth + 1 < 99) {
        res.emplace(g.gen->Generate());
        c.Stat(good ? "generations that succeeded" : "generations that failed");
        if (c.Check(res->has_value() == good, "not-finished", "a generation without cancellation ended otherwise than the solver did") && good) AfterRun20(c, g, res->value());
      }
    };
    int seq = static_cast<int>(r.range(1, 3));
    for (int k = 0; k < seq; ++k) {
      run(0, 0);
      Advance(r);
    }
    c.Distinct(h);
    c.Sample((Desc{} << n << " generators, callbacks " << gens[0].callbacks << ", handle " << gens[0].handle).str());
  });
  // Two generations advancing alternately on two threads.
  c.Cases("threads", c.N(60, 1500), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    std::mutex m;
    std::condition_variable cv;
    int turn = 0;
    bool done[2] = {false, false};
    Rng sched{r.next()};
    std::vector<Gen20> gens;
    for (int i = 0; i < 2; ++i) gens.push_back(Make20(r, i));
    uint64_t h = r.next();
    auto body = [&](int me, int iters) {
      SolverScope scope{[&, me](OptimizationProblem& p, const SolverConfig&) {
        for (int k = 0; k < iters; ++k) {
          std::unique_lock lk{m};
          cv.wait(lk, [&] { return turn == me || done[1 - me]; });
          Advance(sched);
          Iterate20(c, sched, gens[me], p, me + 1, k);
          turn = sched.chance(0.5) ? me : 1 - me;
          h = mon::Mix(h, static_cast<uint64_t>(me));
          cv.notify_all();
        }
        for (size_t j = 0; j < p.decisionVariables.size(); ++j) p.decisionVariables[j].SetValue(Tag(me + 1, 400, j));
        return Status(SolverExitCondition::kSuccess);
      }};
      auto res = gens[me].gen->Generate();
      std::unique_lock lk{m};
      if (c.Check(res.has_value(), "not-finished", "a generation without cancellation failed")) AfterRun20(c, gens[me], *res);
      done[me] = true;
      turn = 1 - me;
      cv.notify_all();
    };
    int i0 = static_cast<int>(r.range(5, 30)), i1 = static_cast<int>(r.range(5, 30));
    std::thread a{[&] { body(0, i0); }}, b{[&] { body(1, i1); }};
    a.join();
    b.join();
    c.Distinct(h);
  });
}

// ---------------------------------------------------------------- C21
static void Request(Rng& r, int how) {
  auto set = [] { trajopt::GetCancellationFlag() = 1; };
  if (how == 0) set();
  else if (how == 1) std::thread{set}.join();
  else { trajopt::GetCancellationFlag().store(1); }
  (void)r;
}

/// Everything but the start of a generation leaves a pending request alone.
static void Bystander(Rng& r) {
  paths::Options o;
  o.maxSegs = 1;
  auto other = paths::Random(r, o);
  other.builder.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) {});
  trajopt::SwervePathBuilder copy = other.builder;
  (void)copy.CalculateInitialGuess();
  SwerveTrajectoryGenerator gen{copy, 9};
  (void)gen;
}

static void C21(Ctx& c) {
  c.rule = "a case is one or two (nested or two-thread) generations with a cancellation request at a chosen point: before construction, between construction and start, before the first iteration, "
           "between iterations, from a progress callback, during a later generation, or never; distinct by (topology, point, source, iterations)";
  const std::string stop{sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop)};
  c.Cases("single", c.N(5000, 80000), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    paths::Options o;
    o.maxSegs = 2;
    auto b = paths::Random(r, o);
    int iters = static_cast<int>(r.range(1, r.chance(0.02) ? 1500 : 15)), how = static_cast<int>(r.range(0, 2));
    // -3: before construction, -2: between construction and start, -1: never,
    // 0..: just before that iteration; 100+: from a callback.
    int at = static_cast<int>(r.range(-3, iters - 1));
    bool fromCallback = at >= 0 && r.chance(0.35);
    bool armed = false, requested = false;
    int cbs = static_cast<int>(r.range(fromCallback ? 1 : 0, 3));
    for (int i = 0; i < cbs; ++i)
      b.builder.AddIntermediateCallback([&, i](trajopt::SwerveSolution&, int64_t) {
        if (armed && i == 0) {
          Request(r, how);
          requested = true;
          if (r.chance(0.2)) Request(r, how);
        }
      });
    if (at == -3) Request(r, how);
    SwerveTrajectoryGenerator gen{b.builder, 4};
    if (at == -2) Request(r, how);
    int runs = r.chance(0.3) ? 2 : 1;
    for (int g = 0; g < runs; ++g) {
      bool asked = false;
      int asks = 0, done = 0;
      requested = false;
      SolverScope scope{[&](OptimizationProblem& p, const SolverConfig&) {
        for (int k = 0; k < iters; ++k) {
          if (g == 0 && at == k && !fromCallback) {
            Request(r, how);
            requested = true;
            if (r.chance(0.2)) { Request(r, how); c.Stat("requested twice"); }
            if (r.chance(0.1)) { Bystander(r); c.Stat("other use between a request and its iteration"); }
          } else if (r.chance(0.01)) {
            Bystander(r);
          }
          armed = g == 0 && fromCallback && at == k;
          gSteadyNs += armed || r.chance(0.5) ? 30'000'000 : 1'000'000;
          bool s = p.Iterate(k);
          armed = false;
          ++done;
          c.Check(s == requested, requested ? "request-ignored" : "stopped-without-request",
                  [&] { return (Desc{} << "iteration " << k << " of generation " << g << " returned " << s << "; request point " << at << (fromCallback ? " from a callback" : "")).str(); });
          if (s) { ++asks; asked = true; return Status(SolverExitCondition::kCallbackRequestedStop); }
        }
        return Status(SolverExitCondition::kSuccess);
      }};
      auto res = gen.Generate();
      c.Check(res.has_value() != asked, "outcome", [&] { return (Desc{} << "request point " << at << " generation " << g << ": solver asked to stop " << asked << ", result " << res.has_value()).str(); });
      if (!res.has_value()) c.Check(res.error() == stop, "message", [&] { return "message '" + res.error() + "'"; });
      c.Stat(at >= 0 ? fromCallback ? "requested from callback" : "requested between iterations" : at == -1 ? "never requested" : "requested before start");
      if (g == 0 && runs == 2 && r.chance(0.3)) Request(r, how);  // between two generations
    }
    c.Distinct((Desc{} << iters << "/" << at << "/" << fromCallback << "/" << how << "/" << cbs << "/" << runs).str());
    c.Sample((Desc{} << iters << " iterations, request point " << at << (fromCallback ? " from callback" : "")).str());
  });
  // Several generations running on threads; all must stop at their next iteration.
  c.Cases("threads", c.N(80, 2500), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    int n = static_cast<int>(r.range(2, 4));
    std::vector<std::unique_ptr<SwerveTrajectoryGenerator>> gens;
    for (int i = 0; i < n; ++i) {
      paths::Options o;
      o.maxSegs = 1;
      gens.push_back(std::make_unique<SwerveTrajectoryGenerator>(paths::Random(r, o).builder, i));
    }
    std::mutex m;
    std::condition_variable cv;
    int running = 0;
    bool requested = false;
    std::vector<int> before;
    for (int i = 0; i < n; ++i) before.push_back(static_cast<int>(r.range(0, 6)));
    bool never = r.chance(0.2);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        SolverScope scope{[&, i](OptimizationProblem& p, const SolverConfig&) {
          for (int k = 0; k < before[i]; ++k) c.Check(!p.Iterate(k), "stopped-without-request", "an iteration before the request asked to stop");
          {
            std::unique_lock lk{m};
            ++running;
            cv.notify_all();
            cv.wait(lk, [&] { return requested; });
          }
          bool s = p.Iterate(before[i]);
          c.Check(s == !never, never ? "stopped-without-request" : "request-ignored", [&] { return (Desc{} << "generation " << i << " of " << n << " after " << before[i] << " iterations").str(); });
          return Status(s ? SolverExitCondition::kCallbackRequestedStop : SolverExitCondition::kSuccess);
        }};
        auto res = gens[i]->Generate();
        c.Check(res.has_value() == never, "outcome", "wrong outcome of a cancelled generation");
        if (!res.has_value()) c.Check(res.error() == stop, "message", [&] { return "message '" + res.error() + "'"; });
      });
    {
      std::unique_lock lk{m};
      cv.wait(lk, [&] { return running == n; });
      if (!never) trajopt::GetCancellationFlag() = 1;
      if (r.chance(0.3)) Bystander(r);
      requested = true;
      cv.notify_all();
    }
    for (auto& t : ts) t.join();
    c.Distinct((Desc{} << n << before << never).str());
    c.Stat("concurrently running generations", n);
  });
  // Active probe: a request pending for one generation when another one starts.
  c.Cases("probe", 1, [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    paths::Options o;
    o.maxSegs = 1;
    SwerveTrajectoryGenerator a{paths::Random(r, o).builder}, b{paths::Random(r, o).builder};
    bool stopped = false;
    SolverScope outer{[&](OptimizationProblem& p, const SolverConfig&) {
      p.Iterate(0);
      trajopt::GetCancellationFlag() = 1;
      {
        SolverScope inner{[&](OptimizationProblem&, const SolverConfig&) { return Status(SolverExitCondition::kSuccess); }};
        b.Generate();
      }
      stopped = p.Iterate(1);
      return Status(stopped ? SolverExitCondition::kCallbackRequestedStop : SolverExitCondition::kSuccess);
    }};
    a.Generate();
    c.Check(stopped, "known-pending-request-lost-when-another-generation-starts", "a request made while generation A ran was cleared by the start of generation B before A's next iteration; A ran on");
  });
  trajopt::GetCancellationFlag() = 0;
}

// ---------------------------------------------------------------- C23
/// Everything observable about the problem a generator poses.
struct Signature {
  std::vector<double> start, residuals;
  std::string error;
  bool operator==(const Signature& o) const {
    auto same = [](auto& a, auto& b) {
      if (a.size() != b.size()) return false;
      for (size_t i = 0; i < a.size(); ++i)
        if (!mon::SameBits(a[i], b[i])) return false;
      return true;
    };
    return same(start, o.start) && same(residuals, o.residuals) && error == o.error;
  }
  std::string Diff(const Signature& o) const {
    if (start.size() != o.start.size()) return (Desc{} << start.size() << " vs " << o.start.size() << " variables").str();
    for (size_t i = 0; i < start.size(); ++i)
      if (!mon::SameBits(start[i], o.start[i])) return (Desc{} << "variable " << i << " starts at " << start[i] << " vs " << o.start[i]).str();
    if (residuals.size() != o.residuals.size()) return (Desc{} << residuals.size() << " vs " << o.residuals.size() << " residuals").str();
    for (size_t i = 0; i < residuals.size(); ++i)
      if (!mon::SameBits(residuals[i], o.residuals[i])) return (Desc{} << "residual " << i << ": " << residuals[i] << " vs " << o.residuals[i]).str();
    return error;
  }
};
static Signature Sign(SwerveTrajectoryGenerator& g, uint64_t seed, trajopt::SwerveSolution* out = nullptr, const std::function<void()>& meanwhile = {}) {
  Signature s;
  SolverScope scope{[&](OptimizationProblem& p, const SolverConfig& cfg) {
    s.start.push_back(cfg.tolerance);
    for (auto& v : p.decisionVariables) s.start.push_back(v.Value());
    Rng r{seed};
    for (int k = 0; k < 3; ++k) {
      for (auto& v : p.decisionVariables) v.SetValue(r.uni(-2, 2));
      if (meanwhile) meanwhile();
      gSteadyNs += 20'000'000;
      p.Iterate(k);
      auto e = Evaluate(p);
      s.residuals.push_back(e.cost);
      s.residuals.insert(s.residuals.end(), e.eq.begin(), e.eq.end());
      s.residuals.insert(s.residuals.end(), e.ineq.begin(), e.ineq.end());
    }
    return Status(SolverExitCondition::kSuccess);
  }};
  auto res = g.Generate();
  if (!res.has_value()) {
    s.error = res.error();
  } else {
    auto f = Flat(*res);
    s.residuals.insert(s.residuals.end(), f.begin(), f.end());
    if (out) *out = *res;
  }
  return s;
}
static std::string BuilderState(SwervePathBuilder& b) {
  Desc d;
  auto g = b.CalculateInitialGuess();
  d << b.GetControlIntervalCounts() << g.x << g.y << g.thetacos << g.thetasin << g.dt;
  auto& p = b.GetPath();
  d << "|" << p.waypoints.size();
  for (auto& w : p.waypoints) d << "," << w.waypointConstraints.size() << "/" << w.segmentConstraints.size();
  d << "|" << p.callbacks.size() << "|" << p.drivetrain.mass << "," << p.drivetrain.moi;
  for (auto& m : p.drivetrain.modules) d << ";" << m.translation.X() << "," << m.translation.Y() << "," << m.wheelRadius << "," << m.wheelMaxAngularVelocity << "," << m.wheelMaxTorque;
  return d.str();
}

/// The signature a child process computes after generating other trajectories.
static std::string InFreshProcess(const std::function<std::string()>& f) {
  int fd[2];
  if (pipe(fd)) return "no pipe";
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    std::string s;
    try { s = f(); } catch (const std::exception& e) { s = std::string{"exception "} + e.what(); }
    for (size_t at = 0; at < s.size();) {
      ssize_t n = write(fd[1], s.data() + at, s.size() - at);
      if (n <= 0) break;
      at += static_cast<size_t>(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, static_cast<size_t>(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) s += (Desc{} << " child ended with status " << st).str();
  return s;
}
/// A generation of some other path, ending in any way.
static void Unrelated(Rng& r) {
  paths::Options o;
  o.maxSegs = 2;
  auto p = paths::Random(r, o);
  bool thrower = r.chance(0.15);
  if (thrower) p.builder.AddIntermediateCallback([](trajopt::SwerveSolution&, int64_t) { throw std::runtime_error{"from a callback"}; });
  else if (r.chance(0.3)) p.builder.AddIntermediateCallback([](trajopt::SwerveSolution& s, int64_t) { s.x.clear(); });
  SwerveTrajectoryGenerator g{p.builder, r.range(0, 9)};
  if (r.chance(0.15)) trajopt::GetCancellationFlag() = 1;
  auto exit = static_cast<SolverExitCondition>(r.chance(0.5) ? 0 : r.pick(std::vector<int>{1, -1, -2, -3, -5, -6, -7}));
  int iters = static_cast<int>(r.range(0, 4));
  bool cancel = r.chance(0.2);
  SolverScope scope{[&](OptimizationProblem& q, const SolverConfig&) {
    for (auto& v : q.decisionVariables) v.SetValue(r.chance(0.01) ? NAN : r.uni(-9, 9));
    for (int k = 0; k < iters; ++k) {
      gSteadyNs += 30'000'000;
      if (cancel) trajopt::GetCancellationFlag() = 1;
      if (q.Iterate(k)) return Status(SolverExitCondition::kCallbackRequestedStop);
    }
    return Status(exit);
  }};
  try {
    auto res = g.Generate(r.chance(0.5));
    if (res && !res->x.empty()) trajopt::HolonomicTrajectory t{*res};
  } catch (const std::runtime_error&) {}
}

static void C23(Ctx& c) {
  // First, while this process has not generated anything.
  c.Cases("history", c.N(250, 4000), [&](Rng& r) {
    uint64_t pathSeed = r.next(), seed = r.next(), before = r.next();
    int n = static_cast<int>(r.range(1, 5));
    bool sameThread = r.chance(0.8);
    auto sign = [&] {
      Rng q{pathSeed};
      paths::Options o;
      o.maxSegs = 2;
      auto p = paths::Random(q, o);
      std::vector<double> reports;
      p.builder.AddIntermediateCallback([&](trajopt::SwerveSolution& s, int64_t h) {
        reports.push_back(static_cast<double>(h));
        auto f = Flat(s);
        reports.insert(reports.end(), f.begin(), f.end());
      });
      SwerveTrajectoryGenerator g{p.builder, 7};
      auto s = Sign(g, seed);
      s.residuals.insert(s.residuals.end(), reports.begin(), reports.end());
      uint64_t h = mon::HashStr(s.error);
      std::string text = (Desc{} << s.start.size() << " starting values, " << s.residuals.size() << " numbers, " << reports.size() << " reported, error '" << s.error << "'").str();
      for (auto* v : {&s.start, &s.residuals})
        for (double d : *v) h = mon::Mix(h, std::isnan(d) ? 1 : std::bit_cast<uint64_t>(d));
      return (Desc{} << text << ", hash " << h).str();
    };
    auto fresh = InFreshProcess(sign);
    auto later = InFreshProcess([&] {
      Rng q{before};
      auto work = [&] { for (int k = 0; k < n; ++k) Unrelated(q); };
      if (sameThread) work();
      else std::thread{work}.join();
      return sign();
    });
    c.Check(fresh == later && fresh.find("hash") != std::string::npos, "earlier-generations-change-later-ones", [&] { return (Desc{} << n << " unrelated generations before: " << later << "; in a fresh process: " << fresh).str(); });
    c.Stat("generations compared with a fresh process");
    c.Stat("unrelated generations before them", n);
    c.Distinct((Desc{} << pathSeed << "/" << before).str());
  });
  c.rule = "a case makes generators from one random builder, then changes or destroys the builder, interleaves, copies, moves and destroys generators; what each poses, reports and returns is compared with a reference "
           "generator; distinct by path content and operation sequence";
  c.Cases("isolation", c.N(700, 12000), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    paths::Options o;
    o.maxSegs = 3;
    auto b = paths::Random(r, o);
    uint64_t seed = r.next();
    auto logA = std::make_shared<std::vector<std::pair<int64_t, trajopt::SwerveSolution>>>();
    b.builder.AddIntermediateCallback([logA](trajopt::SwerveSolution& s, int64_t h) { logA->push_back({h, s}); });
    std::string before = BuilderState(b.builder);
    auto builder = std::make_unique<SwervePathBuilder>(b.builder);
    SwervePathBuilder equal = b.builder;  // an equal builder
    SwerveTrajectoryGenerator ref{equal, 7};
    trajopt::SwerveSolution want;
    Signature sig = Sign(ref, seed, &want);
    c.Check(sig.error.empty(), "reference-failed", [&] { return sig.error; });
    auto wantLog = *logA;
    logA->clear();
    c.Check(BuilderState(equal) == before, "running-changed-the-builder", "the builder differs after generating from it");

    auto gen = std::make_unique<SwerveTrajectoryGenerator>(*builder, 7);
    c.Check(BuilderState(*builder) == before, "constructing-changed-the-builder", "the builder differs after constructing a generator");
    std::string ops;
    // Later changes of the builder.
    for (int k = static_cast<int>(r.range(1, 4)); k > 0; --k) {
      int what = static_cast<int>(r.range(0, 7));
      ops += static_cast<char>('a' + what);
      size_t w = builder->GetControlIntervalCounts().size();
      switch (what) {
        case 0: builder->PoseWpt(r.chance(0.5) ? w + 1 : 0, 9, 9, 9); break;
        case 1: builder->SetDrivetrain({99, 99, {}}); break;
        case 2: { std::vector<size_t> n(w, 3); builder->ControlIntervalCounts(std::move(n)); } break;
        case 3: builder->WptConstraint(0, trajopt::AngularVelocityMaxMagnitudeConstraint{0.5}); break;
        case 4: builder->AddIntermediateCallback([&c](trajopt::SwerveSolution&, int64_t h) { if (h == 7) c.Viol("later-callback-called", "a callback added after constructing the generator was called"); }); break;
        case 5: builder->GetPath().drivetrain.modules.clear(); break;
        case 6: for (auto& wp : builder->GetPath().waypoints) { wp.waypointConstraints.clear(); wp.segmentConstraints.clear(); } break;
        case 7: builder->WptInitialGuessPoint(0, Pose2d{-50, 50, 1}); break;
      }
    }
    std::unique_ptr<SwerveTrajectoryGenerator> other;
    if (r.chance(0.5)) { other = std::make_unique<SwerveTrajectoryGenerator>(*builder, 8); ops += 'O'; }
    if (r.chance(0.7)) { builder.reset(); ops += 'D'; }
    // Copies and moves of the generator.
    int moves = static_cast<int>(r.range(0, 3));
    for (int k = 0; k < moves; ++k) {
      int what = static_cast<int>(r.range(0, 3));
      ops += static_cast<char>('0' + what);
      if (what == 0) {
        auto next = std::make_unique<SwerveTrajectoryGenerator>(std::move(*gen));
        gen = std::move(next);
      } else if (what == 1) {
        if constexpr (std::is_copy_constructible_v<SwerveTrajectoryGenerator>) {
          auto next = std::make_unique<SwerveTrajectoryGenerator>(*gen);
          gen = std::move(next);
        }
      } else if (what == 2) {
        if constexpr (std::is_move_assignable_v<SwerveTrajectoryGenerator>) {
          paths::Options p;
          p.maxSegs = 1;
          auto next = std::make_unique<SwerveTrajectoryGenerator>(paths::Random(r, p).builder, 9);
          *next = std::move(*gen);
          gen = std::move(next);
        }
      } else {
        std::vector<SwerveTrajectoryGenerator> v;
        v.push_back(std::move(*gen));
        v.reserve(v.capacity() + 3);
        gen = std::make_unique<SwerveTrajectoryGenerator>(std::move(v.front()));
      }
    }
    c.Distinct(mon::HashStr(before + ops));
    c.Sample("operations " + ops + ", builder " + before.substr(0, 150));
    c.Stat("moves or copies", moves);
    trajopt::SwerveSolution got;
    Signature sig2 = Sign(*gen, seed, &got, [&] {
      if (!other) return;
      SolverScope inner{[&](OptimizationProblem& p, const SolverConfig&) {
        for (auto& v : p.decisionVariables) v.SetValue(77);
        p.Iterate(0);
        return Status(SolverExitCondition::kSuccess);
      }};
      other->Generate();
    });
    c.Check(sig == sig2, "generators-differ", [&] { return "operations " + ops + ": " + sig.Diff(sig2); });
    std::vector<std::pair<int64_t, trajopt::SwerveSolution>> mine;
    for (auto& e : *logA)
      if (e.first == 7) mine.push_back(e);
    bool logs = mine.size() == wantLog.size();
    for (size_t i = 0; logs && i < mine.size(); ++i) logs = mine[i].first == wantLog[i].first && Flat(mine[i].second) == Flat(wantLog[i].second);
    c.Check(logs, "reports-differ", [&] { return (Desc{} << "operations " << ops << ": " << mine.size() << " reports vs " << wantLog.size() << " of the reference").str(); });
    c.Check(BuilderState(equal) == before, "builder-changed", "the builder differs after generating");
    // A generator can be run again; a moved one too.
    if (r.chance(0.5)) {
      auto again = std::make_unique<SwerveTrajectoryGenerator>(std::move(*gen));
      gen.reset();
      trajopt::SwerveSolution sol2;
      Signature sig3 = Sign(*again, seed, &sol2);
      c.Check(sig3.error.empty() && Flat(sol2) == Flat(got), "second-run-differs", [&] { return "operations " + ops + " " + sig3.error; });
      ops += 'R';
    }
  });
}

int main(int argc, char** argv) {
  return mon::Main(argc, argv, {{"C16", C16}, {"C18", C18}, {"C19", C19}, {"C20", C20}, {"C21", C21}, {"C23", C23}});
}

// C31: histories of valid calls, and C32: malformed requests, under the
// sanitizers (and valgrind). Compiled with FAULTS the allocator is replaced by
// one that counts, fills memory with a pattern and fails on demand.
#include "clock.hpp"
#include "paths.hpp"
#include "twin.hpp"
#include <RustFFI.hpp>
#include <trajopt/util/Cancellation.hpp>
#include <trajopt/util/GenerateLinearInitialGuess.hpp>
#include <trajoptlib/src/lib.rs.h>

#include <new>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace twin;
using namespace trajopt;
namespace ffi = trajopt::rsffi;

// ---- allocator --------------------------------------------------------------
static thread_local int64_t gLive = 0, gAllocs = 0, gFailAt = -1, gFailed = 0;
static thread_local int gFill = 0xA5;
#ifdef FAULTS
static void* Alloc(size_t n, size_t align = 0) {
  ++gAllocs;
  if (gFailAt >= 0 && gAllocs > gFailAt) { gFailAt = -1; ++gFailed; throw std::bad_alloc{}; }
  void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  memset(p, gFill, n);
  ++gLive;
  return p;
}
static void Free(void* p) { if (p) { --gLive; free(p); } }
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Free(p); }
#elif defined(NDEBUG)
// Requests for an astronomical index may raise whatever runs out first: memory
// runs out soon for them.
static thread_local int64_t gLeft = -1;
static void* Alloc(size_t n) {
  if (gLeft >= 0 && gLeft-- == 0) { gLeft = -1; throw std::bad_alloc{}; }
  if (n > (size_t{1} << 32)) throw std::bad_alloc{};
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  return p;
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#if defined(FAULTS) || !defined(NDEBUG)
static thread_local int64_t gLeft = -1;
#endif

// ---- histories --------------------------------------------------------------
static Constraint AnyConstraint(Rng& r) {
  auto p = [&] { return Translation2d{r.uni(-4, 4), r.uni(-4, 4)}; };
  double d = r.uni(0, 2);
  switch (r.range(0, 9)) {
    case 0: return AngularVelocityMaxMagnitudeConstraint{d};
    case 1: return LinePointConstraint{p(), p(), p(), d};
    case 2: return LinearAccelerationMaxMagnitudeConstraint{d};
    case 3: return LinearVelocityDirectionConstraint{r.uni(-7, 7)};
    case 4: return LinearVelocityMaxMagnitudeConstraint{d};
    case 5: return PointAtConstraint{p(), d};
    case 6: return PointLineConstraint{p(), p(), p(), d};
    case 7: return PointPointConstraint{p(), p(), d};
    case 8: return PoseEqualityConstraint{r.uni(-4, 4), r.uni(-4, 4), r.uni(-7, 7)};
    default: return TranslationEqualityConstraint{r.uni(-4, 4), r.uni(-4, 4)};
  }
}
static Obstacle AnyObstacle(Rng& r, int most = 6) {
  Obstacle o{r.uni(0, 1), {}};
  for (int k = static_cast<int>(r.range(1, most)); k > 0; --k) o.points.push_back({r.uni(-4, 4), r.uni(-4, 4)});
  return o;
}
struct CallbackError : std::runtime_error {
  CallbackError() : std::runtime_error{"from a callback"} {}
};
/// Number of operations executed per kind (no allocation: counted in place).
struct Counts { int64_t n[40] = {}; };
enum Act { kCopyBuilder, kMoveBuilder, kAssignBuilder, kSelfAssign, kGuessAct, kGuessTrajectory, kCallbackAct, kObstacles, kConstraints, kAliased, kPathEdit, kGenerateAct, kCopyGenerator, kMoveGenerator, kAgain,
           kThrowing, kNested, kCancelled, kResults, kTrajectories, kFfiAct, kTypesAct, kDropBuilder, kActs };
static const char* kActName[] = {"builder copied", "builder moved", "builder assigned", "builder self-assigned", "guess computed", "guess turned into a trajectory", "callback added", "obstacles", "constraints",
                                 "constraints taken from the path itself", "path edited through GetPath", "generations", "generator copied", "generator moved", "generated again", "callbacks that threw", "nested generations",
                                 "cancellations", "results copied, moved and swapped", "trajectories", "foreign-function histories", "geometry chains", "builder destroyed before generating"};

static void Observe(std::vector<double>& out, const SwerveSolution& s) {
  for (auto* v : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) out.insert(out.end(), v->begin(), v->end());
  for (auto& v : s.moduleFX) out.insert(out.end(), v.begin(), v.end());
  for (auto& v : s.moduleFY) out.insert(out.end(), v.begin(), v.end());
}
static void Observe(std::vector<double>& out, const HolonomicTrajectory& t) {
  for (auto& s : t.samples) {
    for (double d : {s.timestamp, s.x, s.y, s.heading, s.velocityX, s.velocityY, s.angularVelocity}) out.push_back(d);
    out.insert(out.end(), s.moduleForcesX.begin(), s.moduleForcesX.end());
    out.insert(out.end(), s.moduleForcesY.begin(), s.moduleForcesY.end());
  }
}
static void Observe(std::vector<double>& out, const Print& p) {
  out.push_back(static_cast<double>(p.posed));
  out.insert(out.end(), p.start.begin(), p.start.end());
  out.insert(out.end(), p.cost.begin(), p.cost.end());
  for (auto& v : p.eq) out.insert(out.end(), v.begin(), v.end());
  for (auto& v : p.ineq) out.insert(out.end(), v.begin(), v.end());
}

static void Geometry(Rng& r, std::vector<double>& out) {
  Pose2d a{r.uni(-4, 4), r.uni(-4, 4), Rotation2d{r.uni(-7, 7)}}, b{Translation2d{r.uni(-4, 4), r.uni(-4, 4)}, Rotation2d{r.uni(-1, 1), r.uni(0.1, 1)}};
  auto t = (a.Translation() - b.Translation()).RotateBy(b.Rotation() + a.Rotation()) * 2.0 / 3.0;
  out.insert(out.end(), {t.X(), t.Y(), t.Norm(), t.SquaredNorm(), t.Dot(a.Translation()), t.Cross(b.Translation()), t.Angle().Radians(), a.Rotation().RotateBy(-b.Rotation()).Radians()});
}

static void FfiHistory(Rng& r, std::vector<double>& out);

/// One history; everything it observed goes to `out`, also if it throws.
/// `keepGoing`: an operation that throws bad_alloc is skipped, not the rest.
static void History(const Script& s, uint64_t seed, std::vector<double>& out, Counts& n, bool keepGoing = false) {
  Rng r{seed};
  gSteadyNs = 0;
  GetCancellationFlag() = 0;
  auto builder = std::make_unique<SwervePathBuilder>();
  auto shared = std::make_shared<std::vector<double>>();  // outlives callbacks that write to it
  auto attempt = [&](auto&& f) {
    if (!keepGoing) { f(); return; }
    try { f(); } catch (const std::bad_alloc&) { } catch (const std::out_of_range&) { }
  };
  auto wpts = [&] { return static_cast<int64_t>(builder->GetPath().waypoints.size()); };
  for (auto& o : s.ops) {
    attempt([&] { Native(*builder, o); });
    if (!r.chance(0.5)) continue;
    attempt([&] {
      switch (r.range(0, 10)) {
        case 0: ++n.n[kCopyBuilder]; builder = std::make_unique<SwervePathBuilder>(*builder); break;
        case 1: ++n.n[kMoveBuilder]; builder = std::make_unique<SwervePathBuilder>(std::move(*builder)); break;
        case 2: {
          ++n.n[kAssignBuilder];
          SwervePathBuilder other;
          other.PoseWpt(1, 1, 2, 3);
          other = *builder;
          SwervePathBuilder third;
          third = std::move(other);
          *builder = third;
          break;
        }
        case 3: ++n.n[kSelfAssign]; *builder = static_cast<SwervePathBuilder&>(*builder); break;
        case 4: if (wpts()) {
          ++n.n[kGuessAct];
          try {
            auto g = builder->CalculateInitialGuess();
            Observe(out, g);
            ++n.n[kGuessTrajectory];
            Observe(out, HolonomicTrajectory{g});
          } catch (const std::out_of_range&) { out.push_back(-1); }
          break;
        } break;
        case 5: ++n.n[kCallbackAct]; builder->AddIntermediateCallback([shared](SwerveSolution& sol, int64_t h) { shared->push_back(static_cast<double>(h)); Observe(*shared, sol); sol.x.clear(); });
          // The path's own callbacks and drivetrain may be given back to it.
          for (int k = r.chance(0.4) ? static_cast<int>(r.range(1, 4)) : 0; k > 0; --k) builder->AddIntermediateCallback(r.pick(builder->GetPath().callbacks));
          if (r.chance(0.3)) builder->SetDrivetrain(builder->GetPath().drivetrain);
          break;
        case 6: {
          ++n.n[kObstacles];
          builder->AddBumpers(AnyObstacle(r));
          if (wpts()) builder->WptObstacle(static_cast<size_t>(r.range(0, wpts() - 1)), AnyObstacle(r));
          if (wpts() > 1) builder->SgmtObstacle(0, static_cast<size_t>(r.range(1, wpts() - 1)), AnyObstacle(r));
          break;
        }
        case 7: {
          ++n.n[kConstraints];
          if (wpts()) builder->WptConstraint(static_cast<size_t>(r.range(0, wpts() - 1)), AnyConstraint(r));
          if (wpts() > 1) builder->SgmtConstraint(0, static_cast<size_t>(r.range(1, wpts() - 1)), AnyConstraint(r));
          break;
        }
        case 8: {
          if (wpts() < 2) break;
          auto& w = builder->GetPath().waypoints;
          size_t from = static_cast<size_t>(r.range(0, wpts() - 2)), to = static_cast<size_t>(r.range(static_cast<int64_t>(from) + 1, wpts() - 1));
          if (w[from].waypointConstraints.empty()) w[from].waypointConstraints.push_back(AnyConstraint(r));
          ++n.n[kAliased];
          builder->SgmtConstraint(from, to, r.pick(w[from].waypointConstraints));
          builder->WptConstraint(to, w[from].waypointConstraints.back());
          for (int k = static_cast<int>(r.range(0, 6)); k > 0; --k) builder->WptConstraint(from, r.pick(w[from].waypointConstraints));
          break;
        }
        case 9: {
          ++n.n[kPathEdit];
          auto& p = builder->GetPath();
          p.drivetrain.mass *= 1.5;
          for (auto& w : p.waypoints) if (r.chance(0.3)) w.waypointConstraints.push_back(AnyConstraint(r));
          break;
        }
        case 10: ++n.n[kTypesAct]; Geometry(r, out); break;
      }
    });
  }
  std::unique_ptr<SwerveTrajectoryGenerator> gen;
  std::optional<expected<SwerveSolution, std::string>> res;
  bool throwing = r.chance(0.1), nested = r.chance(0.1), cancel = r.chance(0.1);
  int64_t handle = r.range(-9, 9);
  if (throwing) attempt([&] { builder->AddIntermediateCallback([](SwerveSolution&, int64_t) { throw CallbackError{}; }); });
  auto generate = [&](SwerveTrajectoryGenerator& g) {
    Plan plan{.seed = r.next(), .iterations = static_cast<int>(r.range(0, 3)), .exit = r.pick(Exits())};
    bool used = false;
    plan.before = [&, nested, cancel](int) {
      gSteadyNs += 20'000'000;
      if (cancel) { ++n.n[kCancelled]; GetCancellationFlag() = 1; }
      if (nested && !used) {
        used = true;
        ++n.n[kNested];
        Scripted inner{Plan{.seed = 5}};
        SwerveTrajectoryGenerator in{*builder, 3};
        auto x = in.Generate();
        if (x) Observe(out, *x);
      }
    };
    plan.honourStop = r.chance(0.5);
    Scripted sc{plan};
    ++n.n[kGenerateAct];
    try { res.emplace(g.Generate(r.chance(0.5))); } catch (const CallbackError&) { ++n.n[kThrowing]; out.push_back(-2); }
    Observe(out, sc.trace.print);
    if (res && res->has_value()) Observe(out, **res);
    if (res && !res->has_value()) out.push_back(static_cast<double>(res->error().size()));
  };
  attempt([&] { gen = std::make_unique<SwerveTrajectoryGenerator>(*builder, handle); });
  if (gen && r.chance(0.3) && !nested) { ++n.n[kDropBuilder]; builder.reset(); }
  if (gen && r.chance(0.2)) attempt([&] { ++n.n[kCopyGenerator]; auto copy = std::make_unique<SwerveTrajectoryGenerator>(*gen); if (r.chance(0.5)) std::swap(copy, gen); });
  if (gen && r.chance(0.2)) attempt([&] { ++n.n[kMoveGenerator]; gen = std::make_unique<SwerveTrajectoryGenerator>(std::move(*gen)); });
  if (gen) attempt([&] { generate(*gen); });
  if (gen && r.chance(0.3)) attempt([&] { ++n.n[kAgain]; generate(*gen); });
  if (res) attempt([&] {
    ++n.n[kResults];
#ifdef FAULTS
    auto copy = std::move(*res);  // a failing copy construction ends the program (known finding of C25)
#else
    auto copy = *res;
#endif
    expected<SwerveSolution, std::string> other{unexpect, "none"};
    other.swap(copy);
    copy = other;
    other = std::move(copy);
    copy = unexpected{std::string{"a long enough message to be on the heap"}};
    copy = other;
    auto sized = copy.transform([](auto& v) { return v.x.size(); });
    out.push_back(sized ? static_cast<double>(*sized) : -3.0);
    gen.reset();  // a solution does not depend on the generator
    if (copy.has_value()) {
      ++n.n[kTrajectories];
      HolonomicTrajectory t{*copy};
      auto u = t;
      t = std::move(u);
      t.samples.erase(t.samples.begin());
      Observe(out, t);
    }
  });
  out.insert(out.end(), shared->begin(), shared->end());
  if (r.chance(0.5)) attempt([&] { ++n.n[kFfiAct]; FfiHistory(r, out); });
}

static void FfiCallback(ffi::HolonomicTrajectory t, int64_t) { (void)t; }
static void Observe(std::vector<double>& out, const ffi::HolonomicTrajectory& t) {
  for (auto& s : t.samples) {
    for (double d : {s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity}) out.push_back(d);
    out.insert(out.end(), s.module_forces_x.begin(), s.module_forces_x.end());
    out.insert(out.end(), s.module_forces_y.begin(), s.module_forces_y.end());
  }
}
template <typename T>
static rust::Vec<T> List(const std::vector<double>& x) { rust::Vec<T> v; for (double d : x) v.push_back(static_cast<T>(d)); return v; }
static void FfiHistory(Rng& r, std::vector<double>& out) {
  auto b = ffi::swerve_path_builder_new();
  ffi::SwerveDrivetrain d{};
  d.mass = 10; d.moi = 2;
  for (int k = static_cast<int>(r.range(1, 4)); k > 0; --k) { ffi::SwerveModule m{}; m.x = r.uni(-1, 1); m.y = r.uni(-1, 1); m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 50; m.wheel_max_torque = 2; d.modules.push_back(m); }
  b->set_drivetrain(d);
  b->set_bumpers(1, 0.5);
  size_t w = static_cast<size_t>(r.range(0, 3));
  b->pose_wpt(w, 1, 2, 3);
  if (w) {
    b->sgmt_polygon_obstacle(0, w, List<double>({0, 1, 2}), List<double>({0, 1, 0}), 0.1);
    b->sgmt_circle_obstacle(0, w, 3, 3, 0.5);
    rust::Vec<ffi::Pose2d> g;
    ffi::Pose2d p{};
    g.push_back(p);
    g.push_back(p);
    b->sgmt_initial_guess_points(w - 1, g);
    std::vector<double> counts;
    for (size_t k = 0; k < w; ++k) counts.push_back(static_cast<double>(r.range(1, 3)));
    b->set_control_interval_counts(List<size_t>(counts));
  }
  b->add_progress_callback(&FfiCallback);
  Plan plan{.seed = r.next(), .iterations = 1, .exit = r.pick(Exits())};
  plan.before = [](int) { gSteadyNs += 20'000'000; };
  Scripted sc{plan};
  try { Observe(out, b->generate(r.chance(0.5), 7)); } catch (const std::runtime_error& e) { out.push_back(static_cast<double>(std::string_view{e.what()}.size())); }
}

static void Report(Ctx& c, const Counts& n) {
  for (int k = 0; k < kActs; ++k) if (n.n[k]) c.Stat(kActName[k], n.n[k]);
}
static bool Same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}

static void C31(Ctx& c) {
  c.rule = "a case is one random history of valid calls: builder calls, copies, moves and assignments, self-referencing constraints, generators copied, moved and destroyed in any order, generations with every solver outcome, throwing, "
           "nested and cancelling callbacks, results, trajectories, foreign-function calls; watched by ASan, UBSan, LSan, libstdc++ assertions or valgrind, and, with the replaced allocator, for balanced allocations, for "
           "independence from what memory held before, and with every sampled allocation failing; distinct by call sequence and seed";
#ifndef FAULTS
  c.Cases("histories", c.N(1500, 30000), [&](Rng& r) {
    auto s = Random(r, 4, 6);
    uint64_t seed = r.next();
    c.Distinct(s.Show() + std::to_string(seed));
    c.Sample(s.Show());
    c.Note(s.Show());
    std::vector<double> out;
    Counts n;
    History(s, seed, out, n);
    c.Check(!out.empty(), "nothing-observed", [&] { return s.Show(); });
    c.Stat("numbers read back", static_cast<int64_t>(out.size()));
    Report(c, n);
  });
  // As large as a season's longest path and beyond: indices and sizes past
  // every small-integer width, deep expression graphs being torn down.
  c.Cases("large", c.thorough ? 8 : 1, [&](Rng& r) {
    SwervePathBuilder b;
    b.SetDrivetrain(paths::Drivetrain(r, 4));
    const size_t W = static_cast<size_t>(r.range(50, 70));
    for (size_t w = 0; w < W; ++w) {
      if (w % 3 == 0) b.PoseWpt(w, static_cast<double>(w), 1, 0.1 * static_cast<double>(w));
      else b.TranslationWpt(w, static_cast<double>(w), r.uni(-1, 1));
    }
    b.AddBumpers({0.0, {{0.5, 0.5}, {0.5, -0.5}, {-0.5, -0.5}, {-0.5, 0.5}}});
    b.SgmtConstraint(0, W - 1, AnyConstraint(r));
    b.SgmtObstacle(r.chance(0.5) ? 0 : W / 2, W - 1, {0.3, {{5, 5}}});
    for (size_t w = 0; w < W; ++w) b.WptConstraint(w, AnyConstraint(r));
    c.Note((Desc{} << W << " waypoints of default counts").str());
    std::vector<double> out;
    Plan plan{.seed = r.next(), .iterations = 1};
    Scripted sc{plan};
    SwerveTrajectoryGenerator g{b, 7};
    auto res = g.Generate();
    c.Check(res.has_value() && res->x.size() == 1 + 40 * (W - 1), "large-path-lost", "a path of default interval counts did not return all its samples");
    if (!res) return;
    HolonomicTrajectory t{*res};
    c.Check(t.samples.size() == res->x.size(), "large-path-lost", "the trajectory has another number of samples than the solution");
    Observe(out, t);
    c.Distinct(r.s);
    c.Stat("samples of large paths", static_cast<int64_t>(t.samples.size()));
  });
#else
  c.Cases("balance", c.N(400, 8000), [&](Rng& r) {
    auto s = Random(r, 3, 4);
    uint64_t seed = r.next();
    c.Distinct(s.Show() + std::to_string(seed));
    c.Note(s.Show());
    std::vector<double> a, b;
    a.reserve(1 << 16);
    b.reserve(1 << 16);
    Counts n;
    gFill = 0;
    History(s, seed, a, n);  // settles one-time allocations
    a.clear();
    gFill = 0x5B;
    int64_t live = gLive;
    History(s, seed, a, n);
    int64_t now = gLive;
    gFill = 0xC6;
    History(s, seed, b, n);
    c.Check(a.capacity() != (1 << 16) || now == live, "allocations-not-released", [&] { return (Desc{} << now - live << " allocations remain after " << s.Show()).str(); });
    c.Check(Same(a, b), "depends-on-uninitialized-memory", [&] { return "the same history observed different values when fresh memory held different bytes: " + s.Show(); });
    Report(c, n);
  });
  c.Cases("allocation-failures", c.N(30, 400), [&](Rng& r) {
    auto s = Random(r, 2, 2);
    uint64_t seed = r.next();
    c.Distinct(s.Show() + std::to_string(seed));
    std::vector<double> out;
    Counts n;
    History(s, seed, out, n);
    int64_t start = gAllocs;
    out.clear();
    History(s, seed, out, n);
    int64_t total = gAllocs - start;
    int64_t points = std::min<int64_t>(total, c.thorough ? 400 : 120);
    for (int64_t k = 0; k < points && (k < 12 || !c.Late()); ++k) {
      // Early points densely, later ones at random: later allocations are mostly expression nodes.
      int64_t at = k < points / 2 ? k : r.range(0, total - 1);
      bool go = r.chance(0.5);
      c.Note((Desc{} << "allocation " << at << (go ? " (going on) " : " ") << s.Show()).str());
      out.clear();
      out.shrink_to_fit();
      bool raised = false, other = false;
      std::string what;
      int64_t failed = gFailed, live = 0, now = 0;
      {
        std::vector<double> o;
        live = gLive;
        gFailAt = gAllocs + at;
        try { History(s, seed, o, n, go); } catch (const std::bad_alloc&) { raised = true; } catch (const std::exception&) { other = true; }
        gFailAt = -1;
        std::vector<double>{}.swap(o);
        now = gLive;
      }
      c.Check(!(other && !go), "other-exception", [&] { return (Desc{} << "allocation " << at << " failing raised something else than bad_alloc in " << s.Show()).str(); });
      c.Check(now == live, "leak-on-failure", [&] { return (Desc{} << now - live << " allocations remain after allocation " << at << " failed in " << s.Show()).str(); });
      c.Check(gFailed > failed, "not-injected", [&] { return s.Show(); });
      c.Stat(raised ? "failures that surfaced as bad_alloc" : "failures after which the history went on");
    }
  });
#endif
}

// ---- malformed requests -------------------------------------------------------
struct Hostile {
  Rng& r;
  double Num() {
    static const std::vector<double> odd{0.0, -0.0, 1e-320, -1e-300, 1e300, -1e308, INFINITY, -INFINITY, NAN, -1.0, 1e16, 3.141592653589793};
    return r.chance(0.4) ? r.pick(odd) : r.uni(-5, 5);
  }
  bool huge = false;
  size_t Index() {
    if (r.chance(0.12)) huge = true;
    else return static_cast<size_t>(r.range(0, 6));
    return r.chance(0.5) ? SIZE_MAX - static_cast<size_t>(r.range(0, 1)) : (size_t{1} << 63) + static_cast<size_t>(r.range(0, 2));
  }
  Translation2d Point() { return {Num(), Num()}; }
  std::vector<Translation2d> Points() { std::vector<Translation2d> p; for (int k = static_cast<int>(r.range(0, 4)); k > 0; --k) p.push_back(Point()); return p; }
  std::vector<size_t> CountList() { std::vector<size_t> n; for (int k = static_cast<int>(r.range(0, 8)); k > 0; --k) n.push_back(static_cast<size_t>(r.range(0, 4))); return n; }
  Constraint Any() {
    switch (r.range(0, 9)) {
      case 0: return AngularVelocityMaxMagnitudeConstraint{Num()};
      case 1: return LinePointConstraint{Point(), Point(), Point(), Num()};
      case 2: return LinearAccelerationMaxMagnitudeConstraint{Num()};
      case 3: return LinearVelocityDirectionConstraint{Num()};
      case 4: return LinearVelocityMaxMagnitudeConstraint{Num()};
      case 5: return PointAtConstraint{Point(), Num()};
      case 6: return PointLineConstraint{Point(), Point(), Point(), Num()};
      case 7: return PointPointConstraint{Point(), Point(), Num()};
      case 8: return PoseEqualityConstraint{Num(), Num(), Num()};
      default: return TranslationEqualityConstraint{Num(), Num()};
    }
  }
  SwerveDrivetrain Drivetrain() {
    SwerveDrivetrain d{Num(), Num(), {}};
    for (int k = static_cast<int>(r.range(0, 5)); k > 0; --k) d.modules.push_back({Point(), Num(), Num(), Num()});
    return d;
  }
};

/// One malformed request on a native builder.
static const char* Abuse(Hostile& h, SwervePathBuilder& b) {
  h.huge = false;
  size_t i = h.Index(), j = h.Index();
  if (h.huge) gLeft = 300;
  switch (h.r.range(0, 15)) {
    case 0: b.PoseWpt(i, h.Num(), h.Num(), h.Num()); return "PoseWpt";
    case 1: b.TranslationWpt(i, h.Num(), h.Num(), h.Num()); return "TranslationWpt";
    case 2: b.WptInitialGuessPoint(i, {h.Num(), h.Num(), Rotation2d{h.Num()}}); return "WptInitialGuessPoint";
    case 3: {
      std::vector<Pose2d> g;
      for (int k = static_cast<int>(h.r.range(0, 6)); k > 0; --k) g.push_back({h.Num(), h.Num(), Rotation2d{h.Num(), h.Num()}});
      b.SgmtInitialGuessPoints(i, g);
      return "SgmtInitialGuessPoints";
    }
    case 4: b.AddBumpers({h.Num(), h.Points()}); return "AddBumpers";
    case 5: case 6: b.WptObstacle(i, {h.Num(), h.Points()}); return "WptObstacle";
    case 7: case 8: b.SgmtObstacle(i, j, {h.Num(), h.Points()}); return "SgmtObstacle";
    case 9: b.WptConstraint(i, h.Any()); return "WptConstraint";
    case 10: case 11: b.SgmtConstraint(i, j, h.Any()); return "SgmtConstraint";
    case 12: case 13: b.ControlIntervalCounts(h.CountList()); return "ControlIntervalCounts";
    case 14: b.SetDrivetrain(h.Drivetrain()); return "SetDrivetrain";
    default: (void)b.CalculateInitialGuess(); return "CalculateInitialGuess";
  }
}
static void AbuseFfi(Hostile& h, ffi::SwervePathBuilder& b) {
  h.huge = false;
  size_t i = h.Index(), j = h.Index();
  if (h.huge) gLeft = 300;
  auto nums = [&] { rust::Vec<double> v; for (int k = static_cast<int>(h.r.range(0, 4)); k > 0; --k) v.push_back(h.Num()); return v; };
  switch (h.r.range(0, 18)) {
    case 0: {
      ffi::SwerveDrivetrain d{};
      d.mass = h.Num(); d.moi = h.Num();
      for (int k = static_cast<int>(h.r.range(0, 4)); k > 0; --k) { ffi::SwerveModule m{}; m.x = h.Num(); m.y = h.Num(); m.wheel_radius = h.Num(); m.wheel_max_angular_velocity = h.Num(); m.wheel_max_torque = h.Num(); d.modules.push_back(m); }
      b.set_drivetrain(d);
      break;
    }
    case 1: b.set_bumpers(h.Num(), h.Num()); break;
    case 2: { rust::Vec<size_t> n; for (auto x : h.CountList()) n.push_back(x); b.set_control_interval_counts(n); break; }
    case 3: b.pose_wpt(i, h.Num(), h.Num(), h.Num()); break;
    case 4: b.translation_wpt(i, h.Num(), h.Num(), h.Num()); break;
    case 5: b.empty_wpt(i, h.Num(), h.Num(), h.Num()); break;
    case 6: { rust::Vec<ffi::Pose2d> g; for (int k = static_cast<int>(h.r.range(0, 4)); k > 0; --k) { ffi::Pose2d p{}; p.x = h.Num(); p.y = h.Num(); p.heading = h.Num(); g.push_back(p); } b.sgmt_initial_guess_points(i, g); break; }
    case 7: b.wpt_linear_velocity_direction(i, h.Num()); break;
    case 8: b.wpt_linear_velocity_max_magnitude(i, h.Num()); break;
    case 9: b.wpt_angular_velocity_max_magnitude(i, h.Num()); break;
    case 10: b.wpt_linear_acceleration_max_magnitude(i, h.Num()); break;
    case 11: b.wpt_point_at(i, h.Num(), h.Num(), h.Num()); break;
    case 12: b.sgmt_linear_velocity_direction(i, j, h.Num()); break;
    case 13: b.sgmt_linear_velocity_max_magnitude(i, j, h.Num()); break;
    case 14: b.sgmt_angular_velocity_max_magnitude(i, j, h.Num()); break;
    case 15: b.sgmt_linear_acceleration_max_magnitude(i, j, h.Num()); break;
    case 16: b.sgmt_point_at(i, j, h.Num(), h.Num(), h.Num()); break;
    case 17: b.sgmt_circle_obstacle(i, j, h.Num(), h.Num(), h.Num()); break;
    default: b.sgmt_polygon_obstacle(i, j, nums(), nums(), h.Num()); break;
  }
}
static SwerveDrivetrain Fine() { return {20, 3, {{{0.3, 0.3}, 0.05, 70, 2}, {{-0.3, -0.3}, 0.05, 70, 2}}}; }

static void C32(Ctx& c) {
  c.rule = "a case is a storm of malformed requests (indices past every end, reversed and empty ranges, missing modules, surplus, missing and zero counts, empty outlines, negative, huge and non-finite numbers) on a builder and its "
           "generations in a release configuration under ASan/UBSan; every request must return or raise a std::exception, and afterwards a repaired request must be served; distinct by seed";
  c.assumptions.push_back("a request for an astronomical index (2^63 and up) may raise bad_alloc, and then its builder is given up");
  c.assumptions.push_back("indices that would merely need more memory than there is (2^20 to 2^62) and such interval counts are not tried");
  bool exhausted = false;  // a request for an astronomical index ran out of memory
  auto guarded = [&](auto&& f) {
    try { f(); gLeft = -1; c.Stat("requests processed"); return true; } catch (const std::bad_alloc&) { gLeft = -1; exhausted = true; c.Stat("requests that ran out of memory"); return false; } catch (const std::exception&) { gLeft = -1; c.Stat("requests that raised"); return false; } catch (...) { gLeft = -1; c.Viol("raised-something-else", "a request raised something that is no std::exception"); return false; }
  };
  c.Cases("storm", c.N(800, 12000), [&](Rng& r) {
    Hostile h{r};
    auto b = std::make_unique<SwervePathBuilder>();
    if (r.chance(0.9)) b->SetDrivetrain(r.chance(0.5) ? Fine() : h.Drivetrain());
    for (int k = static_cast<int>(r.range(1, 12)); k > 0; --k) {
      exhausted = false;
      guarded([&] { Abuse(h, *b); });
      if (exhausted) return;
      if (r.chance(0.15)) guarded([&] {
        Plan plan{.seed = r.next(), .iterations = 1, .exit = r.pick(Exits())};
        Scripted sc{plan};
        SwerveTrajectoryGenerator g{*b, 1};
        auto res = g.Generate();
        if (res) (void)HolonomicTrajectory{*res};
      });
      if (r.chance(0.1)) guarded([&] { *b = SwervePathBuilder{*b}; });
    }
    c.Distinct(r.s);
    // Repaired, the builder serves.
    b->SetDrivetrain(Fine());
    size_t n = b->GetPath().waypoints.size();
    if (!n) { b->PoseWpt(0, 1, 2, 3); n = 1; }
    b->ControlIntervalCounts(std::vector<size_t>(n - 1, 2));
    Plan plan{.seed = r.next(), .iterations = 1};
    Scripted sc{plan};
    try {
      SwerveTrajectoryGenerator g{*b, 1};
      auto res = g.Generate();
      c.Check(res.has_value() && res->x.size() == 1 + 2 * (n - 1), "unusable", [&] { return (Desc{} << n << " waypoints").str(); });
      HolonomicTrajectory t{*res};
      c.Check(t.samples.size() == 1 + 2 * (n - 1), "unusable-trajectory", "the trajectory of a repaired request has the wrong number of samples");
    } catch (const std::exception& e) {
      c.Viol("unusable-after-raise", e.what());
    }
  });
  c.Cases("ffi", c.N(600, 9000), [&](Rng& r) {
    Hostile h{r};
    auto b = ffi::swerve_path_builder_new();
    for (int k = static_cast<int>(r.range(1, 12)); k > 0; --k) {
      exhausted = false;
      guarded([&] { AbuseFfi(h, *b); });
      if (exhausted) return;
      if (r.chance(0.15)) guarded([&] { Scripted sc{Plan{.seed = r.next(), .exit = r.pick(Exits())}}; (void)b->generate(true, 5); });
    }
    c.Distinct(r.s);
    ffi::SwerveDrivetrain d{};
    d.mass = 10; d.moi = 1;
    ffi::SwerveModule m{};
    m.x = 0.1; m.wheel_radius = 0.05; m.wheel_max_angular_velocity = 50; m.wheel_max_torque = 1;
    d.modules.push_back(m);
    // The number of waypoints is not visible here: one of these counts fits, whatever it is.
    b->set_drivetrain(d);
    b->pose_wpt(0, 1, 2, 3);
    b->set_control_interval_counts(rust::Vec<size_t>{});
    Scripted sc{Plan{.seed = 9}};
    try {
      auto t = b->generate(false, 1);
      c.Check(t.samples.size() == 1, "unusable", [&] { return (Desc{} << t.samples.size() << " samples").str(); });
    } catch (const std::exception& e) {
      c.Viol("unusable-after-raise", e.what());
    }
  });
  // Solutions whose lists disagree in length.
  c.Cases("solutions", c.N(1500, 30000), [&](Rng& r) {
    SwerveSolution s;
    size_t n = static_cast<size_t>(r.range(0, 4));
    auto len = [&] { return r.chance(0.7) ? n : static_cast<size_t>(r.range(0, 5)); };
    for (auto* v : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) v->assign(len(), r.uni(-1, 1));
    if (r.chance(0.5) && s.dt.size() == n && n) s.dt.pop_back();
    s.moduleFX.assign(len(), std::vector<double>(2, 1.0));
    s.moduleFY.assign(len(), std::vector<double>(static_cast<size_t>(r.range(0, 2)), 1.0));
    bool whole = s.dt.size() + 1 >= s.x.size();
    for (size_t k : {s.y.size(), s.thetacos.size(), s.thetasin.size(), s.vx.size(), s.vy.size(), s.omega.size(), s.moduleFX.size(), s.moduleFY.size()}) whole = whole && k >= s.x.size();
    c.Distinct(r.s);
    size_t got = SIZE_MAX;
    bool ok = guarded([&] { got = HolonomicTrajectory{s}.samples.size(); });
    c.Check(!whole || (ok && got == s.x.size()), "whole-solution-refused", "a solution with enough entries did not become a trajectory of as many samples");
    c.Check(!ok || got == s.x.size(), "samples-lost", "a trajectory has another number of samples than the solution");
  });
  // A drivetrain that was never set: the outcome does not depend on what memory held.
  c.Cases("no-drivetrain", c.N(200, 2000), [&](Rng& r) {
    auto s = Random(r, 2, 2);
    Print p[2];
    std::string raised[2];
    for (int k = 0; k < 2; ++k) {
      std::unique_ptr<unsigned char[]> mem{new unsigned char[sizeof(SwervePathBuilder) + alignof(SwervePathBuilder)]};
      memset(mem.get(), k ? 0x3F : 0x40, sizeof(SwervePathBuilder) + alignof(SwervePathBuilder));
      void* at = mem.get();
      size_t space = sizeof(SwervePathBuilder) + alignof(SwervePathBuilder);
      std::align(alignof(SwervePathBuilder), sizeof(SwervePathBuilder), at, space);
      auto* b = new (at) SwervePathBuilder;
      try {
        for (auto& o : s.ops) if (o.kind != kDrivetrain) Native(*b, o);
        Scripted sc{Plan{.seed = 77}};
        SwerveTrajectoryGenerator g{*b, 1};
        (void)g.Generate();
        p[k] = sc.trace.print;
      } catch (const std::exception& e) { raised[k] = e.what(); }
      b->~SwervePathBuilder();
    }
    c.Distinct(s.Show());
    std::string d = raised[0] == raised[1] ? (raised[0].empty() ? p[0].Diff(p[1]) : "") : "one raised: " + raised[0] + raised[1];
    c.Check(d.empty(), "indeterminate-drivetrain", [&] { return "without SetDrivetrain, what is posed depends on what memory held: " + d + " " + s.Show(); });
  });
  // Helpers and geometry.
  c.Cases("helpers", c.N(1500, 30000), [&](Rng& r) {
    Hostile h{r};
    auto counts = h.CountList();
    double out = 0;
    guarded([&] { out += static_cast<double>(GetIndex(counts, static_cast<size_t>(r.range(0, 12)), static_cast<size_t>(r.range(0, 9)))); });
    guarded([&] { auto v = Linspace(h.Num(), h.Num(), static_cast<size_t>(r.range(0, 5))); out += static_cast<double>(v.size()); });
    guarded([&] { auto v = AngleLinspace(h.Num(), h.Num(), static_cast<size_t>(r.range(0, 5))); out += static_cast<double>(v.size()); });
    guarded([&] {
      std::vector<std::vector<Pose2d>> g;
      for (int k = static_cast<int>(r.range(0, 5)); k > 0; --k) g.push_back(std::vector<Pose2d>(static_cast<size_t>(r.range(1, 4)), Pose2d{h.Num(), h.Num(), Rotation2d{h.Num()}}));
      auto s = GenerateLinearInitialGuess<SwerveSolution>(g, counts);
      out += static_cast<double>(s.x.size() + s.thetacos.size());
    });
    guarded([&] {
      Pose2d a{h.Num(), h.Num(), Rotation2d{h.Num(), h.Num()}};
      auto t = a.Translation().RotateBy(a.Rotation()) / h.Num() * h.Num() - h.Point();
      out += t.Norm() + t.Angle().Radians() + (-a.Rotation()).Degrees() + t.Cross(h.Point());
    });
    c.Distinct(r.s);
    volatile double sink = out;
    (void)sink;
    c.evals += 5;
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C31", C31}, {"C32", C32}}); }

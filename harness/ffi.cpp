// C28: problems posed through the foreign-function builder. C29: what comes
// back through it. Both against the native builder in lockstep.
#include "clock.hpp"
#include "ffi_apply.hpp"
#include <trajopt/util/Cancellation.hpp>

#include <thread>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace twin;

/// Reports of the plain-function callbacks.
struct Report { int callback; int64_t handle; Flat traj; };
static thread_local std::vector<Report>* gReports;
template <int K>
static void Callback(ffi::HolonomicTrajectory t, int64_t h) { if (gReports) gReports->push_back({K, h, FromFfi(t)}); }

static void C28(Ctx& c) {
  c.rule = "a case replays one random call sequence (19 kinds of call) on the foreign-function and the native builder and compares the posed problems: variables, starting values, cost and the multiset of constraint "
           "values at two random assignments, after a prefix and at the end; distinct by call sequence";
  c.assumptions.push_back("the cxx types are stand-ins over standard containers; the header cxx generates is regenerated from the bridge module by tools/cxxgen.py");
  c.Cases("problems", c.N(1200, 25000), [&](Rng& r) {
    auto s = Random(r);
    auto fb = r.chance(0.5) ? ffi::swerve_path_builder_new() : std::make_unique<ffi::SwervePathBuilder>();
    trajopt::SwervePathBuilder nb;
    c.Distinct(s.Show());
    c.Sample(s.Show());
    for (auto& o : s.ops) {
      c.Note(o.Show());
      Apply(*fb, o);
      Native(nb, o);
      c.Stat(std::string{"calls of "} + Name(o.kind));
    }
    bool diag = r.chance(0.5);
    Plan plan{.seed = r.next(), .iterations = 0};
    Print want, got;
    { Scripted sc{plan}; trajopt::SwerveTrajectoryGenerator g{nb, 0}; (void)g.Generate(diag); want = sc.trace.print; }
    { Scripted sc{plan}; (void)fb->generate(diag, 0); got = sc.trace.print; c.Check(sc.trace.runs == 1, "solver-runs", "generate() did not run the solver exactly once"); }
    std::string diff = want.Diff(got);
    c.Check(diff.empty(), "problem-differs", [&] { return diff + " after " + s.Show(); });
    c.Check(got.diagnostics == diag, "diagnostics-flag", "the diagnostics flag is not what was asked for");
    c.Stat("constraints compared", static_cast<int64_t>(want.eq.empty() ? 0 : want.eq[0].size() + want.ineq[0].size()));
    // The builder stays usable: more calls after a generation.
    if (r.chance(0.3)) {
      Op o{.kind = kWptVelocity};
      o.v[0] = r.uni(0, 5);
      Apply(*fb, o);
      Native(nb, o);
      { Scripted sc{plan}; trajopt::SwerveTrajectoryGenerator g{nb, 0}; (void)g.Generate(); want = sc.trace.print; }
      { Scripted sc{plan}; (void)fb->generate(); got = sc.trace.print; }
      std::string d2 = want.Diff(got);
      c.Check(d2.empty(), "second-problem-differs", [&] { return d2 + " after " + s.Show() + o.Show(); });
      c.Check(!got.diagnostics, "default-diagnostics", "diagnostics are on by default");
    }
  });
  // Each call alone, so that nothing hides it.
  c.Cases("single-calls", c.N(20, 400), [&](Rng& r) {
    for (int kind = 0; kind < kKinds; ++kind) {
      Script s;
      for (int tries = 0; tries < 500; ++tries) {
        s = Random(r, 2, 3);
        if (std::any_of(s.ops.begin(), s.ops.end(), [&](auto& o) { return o.kind == kind; })) break;
      }
      Script t;
      for (auto& o : s.ops)
        if (o.kind == kind || o.kind == kDrivetrain || o.kind == kCounts || (o.kind >= kPose && o.kind <= kGuess) || (kind >= kCircle && o.kind == kBumpers)) t.ops.push_back(o);
      if (kind >= kCircle) { Op o{.kind = kBumpers}; o.v[0] = r.uni(0.3, 1); o.v[1] = r.uni(1.1, 2); t.ops.insert(t.ops.begin(), o); }
      ffi::SwervePathBuilder fb;
      trajopt::SwervePathBuilder nb;
      for (auto& o : t.ops) { Apply(fb, o); Native(nb, o); }
      Plan plan{.seed = r.next(), .iterations = 0};
      Print want, got;
      { Scripted sc{plan}; trajopt::SwerveTrajectoryGenerator g{nb, 0}; (void)g.Generate(); want = sc.trace.print; }
      { Scripted sc{plan}; (void)fb.generate(false, 0); got = sc.trace.print; }
      std::string diff = want.Diff(got);
      c.Check(diff.empty(), std::string{"call-differs:"} + Name(kind), [&] { return diff + " after " + t.Show(); });
      c.Distinct(t.Show());
    }
  });
}

static void C29(Ctx& c) {
  c.rule = "a case generates once through the foreign-function and once through the native interface with the same scripted solver values and exit condition, and compares the returned and reported trajectories, handles "
           "and error messages; distinct by call sequence, exit condition and handle";
  c.Cases("results", c.N(1500, 30000), [&](Rng& r) {
    auto s = Random(r);
    ffi::SwervePathBuilder fb;
    trajopt::SwervePathBuilder nb;
    for (auto& o : s.ops) { Apply(fb, o); Native(nb, o); }
    int callbacks = static_cast<int>(r.range(0, 3));
    std::vector<Report> want, got;
    for (int k = 0; k < callbacks; ++k) {
      int which = static_cast<int>(r.range(0, 1));
      nb.AddIntermediateCallback([&want, which](trajopt::SwerveSolution& sol, int64_t h) { want.push_back({which, h, FromSolution(sol)}); });
      if (which == 0) fb.add_progress_callback(&Callback<0>); else fb.add_progress_callback(&Callback<1>);
    }
    int64_t handle = r.chance(0.2) ? (r.chance(0.5) ? INT64_MAX : INT64_MIN) : r.chance(0.5) ? static_cast<int64_t>(r.next()) : r.range(-3, 3);
    auto exit = r.chance(0.4) ? SolverExitCondition::kSuccess : r.pick(Exits());
    Plan plan{.seed = r.next(), .iterations = 1, .exit = exit};
    plan.before = [](int) { gSteadyNs += 20'000'000; };
    std::string ctx = (Desc{} << "exit condition " << sleipnir::ToMessage(exit) << ", handle " << handle << ", " << callbacks << " callbacks, " << s.Show()).str();
    c.Distinct(ctx);
    c.Sample(ctx);
    std::optional<Flat> wantT, gotT;
    std::string wantE, gotE;
    {
      Scripted sc{plan};
      trajopt::SwerveTrajectoryGenerator g{nb, handle};
      if (auto res = g.Generate(); res.has_value()) wantT = FromSolution(*res); else wantE = res.error();
    }
    gReports = &got;
    try {
      Scripted sc{plan};
      const auto& cb = fb;
      gotT = FromFfi(cb.generate(false, handle));
    } catch (const std::exception& e) {
      gotE = e.what();
    } catch (...) {
      c.Viol("foreign-exception", "generate() threw something that is not a standard exception");
    }
    gReports = nullptr;
    bool good = Good(exit);
    c.Stat(good ? "generations that succeeded" : "generations that failed");
    c.Check(wantT.has_value() == good, "native-outcome", [&] { return ctx; });
    c.Check(gotT.has_value() == good, "outcome", [&] { return (gotT ? "a trajectory was returned for " : "an exception '" + gotE + "' was thrown for ") + ctx; });
    if (!good) c.Check(gotE == std::string{sleipnir::ToMessage(exit)} && gotE == wantE, "message", [&] { return "message '" + gotE + "' for " + ctx; });
    if (wantT && gotT) {
      std::string d = wantT->Diff(*gotT);
      c.Check(d.empty(), "trajectory-differs", [&] { return d + ": " + ctx; });
    }
    c.Stat("reports compared", static_cast<int64_t>(got.size()));
    c.Check(want.size() == got.size() && static_cast<int>(want.size()) == callbacks, "report-count", [&] { return (Desc{} << got.size() << " reports instead of " << want.size() << ": " << ctx).str(); });
    for (size_t k = 0; k < std::min(want.size(), got.size()); ++k) {
      c.Check(want[k].callback == got[k].callback, "report-order", [&] { return ctx; });
      c.Check(got[k].handle == handle, "report-handle", [&] { return (Desc{} << "handle " << got[k].handle << ": " << ctx).str(); });
      std::string d = want[k].traj.Diff(got[k].traj);
      c.Check(d.empty(), "report-differs", [&] { return d + ": " + ctx; });
    }
  });
  // Later reports carry later values.
  c.Cases("later-reports", c.N(40, 400), [&](Rng& r) {
    auto s = Random(r, 2, 3);
    ffi::SwervePathBuilder fb;
    for (auto& o : s.ops) Apply(fb, o);
    fb.add_progress_callback(&Callback<0>);
    std::vector<Report> got;
    gReports = &got;
    Plan plan{.seed = r.next(), .iterations = 4};
    plan.before = [](int) { gSteadyNs += 20'000'000; };
    { Scripted sc{plan}; fb.generate(false, 5); }
    gReports = nullptr;
    std::set<std::string> distinct;
    for (auto& g : got) { Desc d; for (auto& v : g.traj.samples) d << v; distinct.insert(d.str()); }
    c.Check(got.size() == 4 && distinct.size() == 4, "later-reports", [&] { return (Desc{} << got.size() << " reports, " << distinct.size() << " distinct, of 4 iterations 20 ms apart").str(); });
    c.Distinct(s.Show());
  });
}

/// Cancellation through the foreign-function interface.
static void C21(Ctx& c) {
  c.rule = "a case requests cancellation through cancel_all() before, during or never in a foreign-function generation; distinct by position of the request, path and thread";
  c.Cases("ffi-cancel", c.N(400, 8000), [&](Rng& r) {
    auto s = Random(r, 2, 3);
    ffi::SwervePathBuilder fb;
    for (auto& o : s.ops) Apply(fb, o);
    int n = static_cast<int>(r.range(1, 6)), at = static_cast<int>(r.range(-2, n - 1));  // -2 never, -1 before
    bool thread = r.chance(0.5);
    const int times = static_cast<int>(r.range(1, r.chance(0.4) ? 4 : 1));
    const bool other = r.chance(0.3);
    if (at == -1) ffi::cancel_all();
    Plan plan{.seed = r.next(), .iterations = n, .honourStop = true};
    int seen = -1;
    plan.before = [&](int k) {
      seen = k;
      if (k == at) {
        for (int q = 0; q < times; ++q) { if (thread) std::thread{[] { ffi::cancel_all(); }}.join(); else ffi::cancel_all(); }
        // Other builders may be made and filled before the next iteration.
        if (other) { auto o = ffi::swerve_path_builder_new(); for (auto& op : s.ops) Apply(*o, op); }
      }
    };
    std::string err;
    bool ok = false;
    try { Scripted sc{plan}; fb.generate(); ok = true; } catch (const std::exception& e) { err = e.what(); }
    auto ctx = [&] { return (Desc{} << "request at iteration " << at << " of " << n << ": last iteration " << seen << ", " << (ok ? "succeeded" : err)).str(); };
    c.Distinct((Desc{} << at << "/" << n << "/" << thread << "/" << s.Show()).str());
    if (at < 0) c.Check(ok && seen == n - 1, "ffi-stopped-without-request", ctx);
    else c.Check(!ok && seen == at && err == std::string{sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop)}, "ffi-not-stopped", ctx);
    trajopt::GetCancellationFlag() = 0;
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C28", C28}, {"C29", C29}, {"C21", C21}}); }

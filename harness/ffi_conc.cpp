// C22 through the foreign-function interface: threads which each own a foreign
// builder, watched by ThreadSanitizer and compared with the same job run alone.
#include <barrier>
#include <thread>

#include "ffi_apply.hpp"

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace twin;

struct Report { int callback; int64_t handle; Flat traj; };
static thread_local std::vector<Report>* gReports;
template <int K>
static void Callback(ffi::HolonomicTrajectory t, int64_t h) { if (gReports) gReports->push_back({K, h, FromFfi(t)}); }

struct Job {
  Script script;
  uint64_t solve = 0;
  int64_t handle = 0;
  int callbacks = 0, generations = 1;
  SolverExitCondition exit = SolverExitCondition::kSuccess;
  const ffi::SwervePathBuilder* shared = nullptr;
};
struct Outcome {
  Print print;
  Flat result;
  std::string error;
  std::vector<Report> reports;
};
static void Perturb(Rng& r) {
  if (r.chance(0.2)) std::this_thread::yield();
  else if (r.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 200)));
}
static Outcome Run(const Job& j, Rng& r) {
  Outcome out;
  gReports = &out.reports;
  std::unique_ptr<ffi::SwervePathBuilder> own;
  if (!j.shared) {
    own = ffi::swerve_path_builder_new();
    for (auto& o : j.script.ops) { Perturb(r); Apply(*own, o); }
    for (int k = 0; k < j.callbacks; ++k)
      if (k % 2) own->add_progress_callback(&Callback<1>); else own->add_progress_callback(&Callback<0>);
  }
  const ffi::SwervePathBuilder& b = j.shared ? *j.shared : *own;
  Plan plan{.seed = j.solve, .iterations = 2, .exit = j.exit};
  plan.before = [&](int k) {
    Perturb(r);
    if (k == 0) std::this_thread::sleep_for(std::chrono::milliseconds(18));
  };
  for (int g = 0; g < j.generations; ++g) {
    out.error.clear();
    out.reports.clear();
    out.result = {};
    Scripted sc{plan};
    try {
      out.result = FromFfi(b.generate(false, j.handle));
    } catch (const std::exception& e) {
      out.error = e.what();
    }
    out.print = sc.trace.print;
  }
  gReports = nullptr;
  return out;
}

static void C22(Ctx& c) {
  c.Cases("foreign-threads", c.N(120, 3000), [&](Rng& r) {
    int n = static_cast<int>(r.range(2, 6));
    bool share = r.chance(0.2);
    auto script = [&] {
      auto s = Random(r, 2, 3);
      for (int k = static_cast<int>(r.range(0, 3)); k > 0 && !s.ops.empty(); --k) {  // more polygons, which are converted
        Op o{.kind = kPolygon};
        o.i = 0;
        o.j = 1;
        o.v[0] = r.uni(0, 1);
        for (int p = static_cast<int>(r.range(1, 6)); p > 0; --p) { o.xs.push_back(r.uni(-6, 6)); o.ys.push_back(r.uni(-6, 6)); }
        bool longEnough = std::any_of(s.ops.begin(), s.ops.end(), [](auto& q) { return q.kind == kCounts && !q.xs.empty(); });
        if (longEnough) s.ops.push_back(o);
      }
      return s;
    };
    ffi::SwervePathBuilder sharedBuilder;
    auto sharedScript = script();
    for (auto& o : sharedScript.ops) Apply(sharedBuilder, o);
    std::vector<Job> jobs;
    for (int i = 0; i < n; ++i) {
      Job j;
      j.script = share ? sharedScript : script();
      j.solve = r.next();
      j.handle = static_cast<int64_t>(r.next());
      j.callbacks = static_cast<int>(r.range(0, 3));
      j.generations = r.chance(0.2) ? 2 : 1;
      j.exit = r.chance(0.75) ? SolverExitCondition::kSuccess : r.pick(Exits());
      if (share) j.shared = &sharedBuilder;
      jobs.push_back(j);
    }
    std::vector<Outcome> got(n), want(n);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    auto alone = [&] { for (int i = 0; i < n; ++i) { Rng p{seeds[i]}; want[i] = Run(jobs[i], p); } };
    bool concurrentFirst = r.chance(0.7);
    if (!concurrentFirst) alone();
    std::barrier go{n};
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        Rng p{seeds[i]};
        go.arrive_and_wait();
        got[i] = Run(jobs[i], p);
      });
    for (auto& t : ts) t.join();
    if (concurrentFirst) alone();
    uint64_t h = share;
    for (int i = 0; i < n; ++i) {
      h = mon::Mix(h, jobs[i].solve);
      auto where = [&] { return (Desc{} << "foreign thread " << i << " of " << n << (share ? ", shared builder: " : ": ") << jobs[i].script.Show()).str(); };
      std::string d = want[i].print.Diff(got[i].print);
      c.Check(d.empty(), "foreign-problem-differs", [&] { return d + ": " + where(); });
      c.Check(want[i].error == got[i].error, "foreign-outcome-differs", [&] { return "'" + got[i].error + "' instead of '" + want[i].error + "': " + where(); });
      d = want[i].result.Diff(got[i].result);
      c.Check(d.empty(), "foreign-result-differs", [&] { return d + ": " + where(); });
      // How many reports there are depends on real time; the first iteration
      // past the limit is always reported.
      c.Check(jobs[i].shared || got[i].reports.size() % static_cast<size_t>(std::max(1, jobs[i].callbacks)) == 0, "foreign-report-count", where);
      for (auto& rep : got[i].reports) c.Check(rep.handle == jobs[i].handle, "foreign-report-handle", where);
      c.Stat("foreign reports", static_cast<int64_t>(got[i].reports.size()));
    }
    c.Stat("foreign threads", n);
    c.Distinct(h);
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C22", C22}}); }

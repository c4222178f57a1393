// C22: concurrent use, watched by ThreadSanitizer and compared with sequential
// results. Threads are released together and deliberately perturbed.
#include <barrier>
#include <thread>

#include "paths.hpp"
#include <trajopt/trajectory/HolonomicTrajectory.hpp>
#include <trajopt/util/Cancellation.hpp>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace rec;
using trajopt::SwervePathBuilder;
using trajopt::SwerveTrajectoryGenerator;

static void Perturb(Rng& r) {
  switch (r.range(0, 9)) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 300))); break;
    case 1: case 2: std::this_thread::yield(); break;
    default: break;
  }
}

struct Outcome {
  bool ok = false;
  std::string error;
  std::vector<double> values;
  int reports = 0;
  bool cancelled = false;  // any of its generations was
  uint64_t trace = 0;  // what the solver saw
};

static std::vector<double> Flat(const trajopt::SwerveSolution& s) {
  std::vector<double> f = s.dt;
  for (auto* v : SolFields(s)) f.insert(f.end(), v->begin(), v->end());
  for (auto& v : s.moduleFX) f.insert(f.end(), v.begin(), v.end());
  for (auto& v : s.moduleFY) f.insert(f.end(), v.begin(), v.end());
  return f;
}
static uint64_t HashV(uint64_t h, double v) { return mon::Mix(h, std::bit_cast<uint64_t>(v)); }

struct Job {
  uint64_t pathSeed = 0, solveSeed = 0;
  int iters = 5;
  SolverExitCondition exit = SolverExitCondition::kSuccess;
  bool callbacks = true, twice = false, convert = true;
  const SwervePathBuilder* shared = nullptr;  // construct from a builder several threads read
};

/// Builds, generates and converts; the same job always has the same outcome
/// unless it is cancelled.
static Outcome Run(const Job& job, Rng& perturb, std::atomic<int>* cancelAt = nullptr) {
  Outcome out;
  Rng pr{job.pathSeed};
  paths::Options o;
  o.maxSegs = 2;
  o.maxN = 4;
  SwervePathBuilder b = job.shared ? *job.shared : paths::Random(pr, o).builder;
  auto guess = b.CalculateInitialGuess();
  if (job.callbacks)
    b.AddIntermediateCallback([&](trajopt::SwerveSolution& s, int64_t h) {
      ++out.reports;
      if (h != static_cast<int64_t>(job.pathSeed & 0xffff) || s.x.empty()) out.error = "callback got a wrong handle or an empty solution";
    });
  SwerveTrajectoryGenerator gen{b, static_cast<int64_t>(job.pathSeed & 0xffff)};
  SolverScope scope{[&](OptimizationProblem& p, const SolverConfig&) {
    Rng r{job.solveSeed};
    uint64_t h = 1;
    for (auto& v : p.decisionVariables) h = HashV(h, v.Value());
    for (int k = 0; k < job.iters; ++k) {
      for (auto& v : p.decisionVariables) v.SetValue(r.uni(-2, 2));
      auto e = Evaluate(p);
      h = HashV(h, e.cost);
      for (double v : e.eq) h = HashV(h, v);
      for (double v : e.ineq) h = HashV(h, v);
      Perturb(perturb);
      if (cancelAt && cancelAt->load(std::memory_order_relaxed) == k) trajopt::GetCancellationFlag() = 1;
      if (p.Iterate(k)) return Status(SolverExitCondition::kCallbackRequestedStop);
      if (perturb.chance(0.15)) std::this_thread::sleep_for(std::chrono::milliseconds(18));  // so that progress is due
    }
    out.trace = h;
    return Status(job.exit);
  }};
  for (int k = job.twice ? 2 : 1; k > 0; --k) {
    auto res = gen.Generate();
    out.ok = res.has_value();
    if (res.has_value()) {
      out.values = Flat(*res);
      if (job.convert) {
        trajopt::HolonomicTrajectory t{*res};
        for (auto& s : t.samples) { out.values.push_back(s.heading); out.values.push_back(s.timestamp); }
      }
    } else {
      if (out.error.empty()) out.error = res.error();
      out.cancelled |= res.error() == sleipnir::ToMessage(SolverExitCondition::kCallbackRequestedStop);
      out.values.clear();
    }
  }
  out.values.insert(out.values.end(), guess.x.begin(), guess.x.end());
  return out;
}

static void C22(Ctx& c) {
  c.rule = "a case releases 2-8 threads at once, each building a path (or reading a shared builder), generating 1-2 times with progress callbacks and converting the result, while another thread may request cancellation; "
           "ThreadSanitizer watches every access; uncancelled outcomes are compared with the same job run alone; distinct by (jobs, cancellation) hash";
  static const std::vector<SolverExitCondition> exits{SolverExitCondition::kSuccess, SolverExitCondition::kSuccess, SolverExitCondition::kSolvedToAcceptableTolerance, SolverExitCondition::kLocallyInfeasible, SolverExitCondition::kTimeout};
  c.Cases("threads", c.N(110, 3000), [&](Rng& r) {
    trajopt::GetCancellationFlag() = 0;
    int n = static_cast<int>(r.range(2, 8));
    bool share = r.chance(0.35);
    int cancel = static_cast<int>(r.range(0, 3));  // 0: none, 1: another thread, 2: a solver thread, 3: several threads repeatedly
    if (r.chance(0.35)) cancel = 0;
    paths::Options o;
    o.maxSegs = 2;
    o.maxN = 4;
    Rng sr{r.next()};
    auto sharedPath = paths::Random(sr, o);
    std::vector<Job> jobs;
    for (int i = 0; i < n; ++i) {
      Job j;
      j.pathSeed = r.next();
      j.solveSeed = r.next();
      j.iters = static_cast<int>(r.range(1, 12));
      j.exit = r.pick(exits);
      j.callbacks = r.chance(0.8);
      j.twice = r.chance(0.2);
      if (share) j.shared = &sharedPath.builder;
      jobs.push_back(j);
    }
    std::vector<Outcome> got(n), want(n);
    std::vector<uint64_t> ps;
    for (int i = 0; i < n + 2; ++i) ps.push_back(r.next());
    bool concurrentFirst = r.chance(0.7);  // first use of anything lazily initialized happens concurrently
    auto alone = [&] {
      for (int i = 0; i < n; ++i) {
        Rng p{ps[i]};
        want[i] = Run(jobs[i], p);
      }
    };
    if (!concurrentFirst) alone();
    std::atomic<int> at{cancel == 2 ? static_cast<int>(r.range(0, 6)) : -1};
    std::atomic<bool> over{false};
    std::barrier go{n + (cancel == 1 || cancel == 3 ? 1 : 0)};
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        Rng p{ps[i]};
        go.arrive_and_wait();
        Perturb(p);
        got[i] = Run(jobs[i], p, i == 0 ? &at : nullptr);
      });
    if (cancel == 1 || cancel == 3)
      ts.emplace_back([&] {
        Rng p{ps[n]};
        go.arrive_and_wait();
        for (int k = 0; k < (cancel == 3 ? 6 : 1); ++k) {
          std::this_thread::sleep_for(std::chrono::microseconds(p.range(0, 4000)));
          trajopt::GetCancellationFlag() = 1;
        }
      });
    for (auto& t : ts) t.join();
    over = true;
    if (concurrentFirst) alone();
    uint64_t h = mon::Mix(static_cast<uint64_t>(cancel), share);
    for (int i = 0; i < n; ++i) {
      h = mon::Mix(h, jobs[i].pathSeed);
      std::string where = (Desc{} << "thread " << i << " of " << n << (share ? ", shared builder" : "") << ", cancellation " << cancel).str();
      bool cancelled = got[i].cancelled;
      c.Check(cancel != 0 || !cancelled, "cancelled-without-request", [&] { return where; });
      c.Stat(cancelled ? "cancelled" : "finished");
      c.Stat("reports", got[i].reports);
      if (cancelled) continue;
      c.Check(got[i].ok == want[i].ok && got[i].error == want[i].error, "outcome-differs", [&] { return where + ": '" + got[i].error + "' instead of '" + want[i].error + "'"; });
      c.Check(got[i].trace == want[i].trace, "problem-differs", [&] { return where + ": the solver saw a different problem than when run alone"; });
      bool same = got[i].values.size() == want[i].values.size();
      for (size_t k = 0; same && k < got[i].values.size(); ++k) same = mon::SameBits(got[i].values[k], want[i].values[k]);
      c.Check(same, "result-differs", [&] { return where; });
    }
    c.Distinct(h);
    c.Sample((Desc{} << n << " threads, shared builder " << share << ", cancellation mode " << cancel).str());
    c.Stat("threads", n);
  });
  trajopt::GetCancellationFlag() = 0;
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C22", C22}}); }

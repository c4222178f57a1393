// C30: the Rust crate (bridge module expanded by tools/cxxgen.py, everything
// else verbatim) against the native builder in lockstep.
#include "clock.hpp"
#include "twin.hpp"
#include "wire.hpp"
#include <trajopt/util/Cancellation.hpp>

using mon::Ctx;
using mon::Desc;
using mon::Rng;
using namespace twin;

extern "C" {
struct RsOp {
  int32_t kind;
  size_t i, j;
  double v[3];
  const double* xs;
  size_t nx;
  const double* ys;
  size_t ny;
};
using Sink = void (*)(void*, int32_t, int64_t, size_t, const double*, size_t);
void* rs_new(bool);
void rs_free(void*);
void rs_callback(void*, int32_t);
void rs_cancel_all();
int32_t rs_apply(void*, const RsOp*);
int32_t rs_generate(void*, bool, int64_t, Sink, void*, unsigned char*, size_t, size_t*);
int32_t rs_json(const double*, size_t, unsigned char*, size_t, size_t*);
// Buffers of the bridge stand-in.
void* cxxstandin_out_new() { return new wire::Out; }
const unsigned char* cxxstandin_out_data(void* o, size_t* n) { auto* x = static_cast<wire::Out*>(o); *n = x->b.size(); return x->b.data(); }
void cxxstandin_out_free(void* o) { delete static_cast<wire::Out*>(o); }
}

struct Report { int callback; int64_t handle; Flat traj; };
static void Collect(void* ctx, int32_t which, int64_t handle, size_t sample, const double* p, size_t n) {
  auto& v = *static_cast<std::vector<Report>*>(ctx);
  if (sample == SIZE_MAX) v.push_back({which, handle, {}});
  else v.back().traj.samples.emplace_back(p, p + n);
}

static void C30(Ctx& c) {
  c.rule = "a case replays one random call sequence through the Rust crate's public API and on the native builder, generates with the same scripted solver values and exit condition, and compares the posed problem, the "
           "outcome, the trajectory, the reports and handles; distinct by call sequence, exit condition and handle; JSON cases check names, values and round trip of all public data types";
  c.assumptions.push_back("the cxx crate is a stand-in (bridge expanded by tools/cxxgen.py from the bridge module); argument roles, types and order are those of the bridge module");
  c.Cases("calls", c.N(900, 20000), [&](Rng& r) {
    auto s = Random(r);
    void* rb = rs_new(r.chance(0.5));
    trajopt::SwervePathBuilder nb;
    for (auto& o : s.ops) {
      c.Note(o.Show());
      RsOp q{o.kind, o.i, o.j, {o.v[0], o.v[1], o.v[2]}, o.xs.data(), o.xs.size(), o.ys.data(), o.ys.size()};
      c.Check(rs_apply(rb, &q) == 0, std::string{"panic:"} + Name(o.kind), [&] { return "panicked in " + o.Show(); });
      Native(nb, o);
      c.Stat(std::string{"calls of "} + Name(o.kind));
    }
    std::vector<Report> want, got;
    int callbacks = static_cast<int>(r.range(0, 2));
    for (int k = 0; k < callbacks; ++k) {
      int which = static_cast<int>(r.range(0, 1));
      nb.AddIntermediateCallback([&want, which](trajopt::SwerveSolution& sol, int64_t h) { want.push_back({which, h, FromSolution(sol)}); });
      rs_callback(rb, which);
    }
    for (int round = r.chance(0.2) ? 2 : 1; round > 0; --round) {
      bool diag = r.chance(0.5);
      int64_t handle = r.chance(0.2) ? (r.chance(0.5) ? INT64_MAX : INT64_MIN) : static_cast<int64_t>(r.next());
      auto exit = r.chance(0.4) ? SolverExitCondition::kSuccess : r.pick(Exits());
      Plan plan{.seed = r.next(), .iterations = 1, .exit = exit};
      bool cancel = r.chance(0.1);
      plan.before = [cancel](int) { gSteadyNs += 20'000'000; if (cancel) rs_cancel_all(); };
      plan.honourStop = true;
      if (cancel) exit = SolverExitCondition::kCallbackRequestedStop;
      std::string ctx = (Desc{} << "exit condition " << sleipnir::ToMessage(exit) << ", handle " << handle << ", " << callbacks << " callbacks, " << s.Show()).str();
      c.Distinct(ctx);
      c.Sample(ctx);
      c.Note(ctx);
      want.clear();
      got.clear();
      Print wantP, gotP;
      std::optional<Flat> wantT;
      {
        Scripted sc{plan};
        trajopt::SwerveTrajectoryGenerator g{nb, handle};
        if (auto res = g.Generate(diag); res.has_value()) wantT = FromSolution(*res);
        wantP = sc.trace.print;
      }
      unsigned char msg[512];
      size_t len = 0;
      int rc;
      {
        Scripted sc{plan};
        rc = rs_generate(rb, diag, handle, &Collect, &got, msg, sizeof msg, &len);
        gotP = sc.trace.print;
        c.Check(sc.trace.runs == 1, "solver-runs", [&] { return (Desc{} << "the solver ran " << sc.trace.runs << " times: " << ctx).str(); });
      }
      std::string err{reinterpret_cast<char*>(msg), len};
      std::string diff = wantP.Diff(gotP);
      c.Check(diff.empty(), "problem-differs", [&] { return diff + ": " + ctx; });
      c.Check(gotP.diagnostics == diag, "diagnostics", [&] { return ctx; });
      c.Check(rc != 2, "unwound", [&] { return "generate panicked: " + ctx; });
      bool good = Good(exit);
      c.Stat(good ? "generations that succeeded" : "generations that failed");
      c.Check((rc == 0) == good && wantT.has_value() == good, "outcome", [&] { return (Desc{} << "result " << rc << " '" << err << "': " << ctx).str(); });
      if (rc == 1) c.Check(err == std::string{sleipnir::ToMessage(exit)}, "message", [&] { return "message '" + err + "': " + ctx; });
      if (rc == 0) {
        Report last = got.empty() ? Report{} : got.back();
        c.Check(!got.empty() && last.callback == -1, "no-trajectory", [&] { return ctx; });
        if (!got.empty()) got.pop_back();
        if (wantT) {
          std::string d = wantT->Diff(last.traj);
          c.Check(d.empty(), "trajectory-differs", [&] { return d + ": " + ctx; });
        }
      }
      c.Check(want.size() == got.size() && static_cast<int>(got.size()) == callbacks, "report-count", [&] { return (Desc{} << got.size() << " reports instead of " << callbacks << ": " << ctx).str(); });
      for (size_t k = 0; k < std::min(want.size(), got.size()); ++k) {
        c.Check(want[k].callback == got[k].callback && got[k].handle == handle, "report-identity", [&] { return ctx; });
        std::string d = want[k].traj.Diff(got[k].traj);
        c.Check(d.empty(), "report-differs", [&] { return d + ": " + ctx; });
      }
      c.Stat("reports compared", static_cast<int64_t>(got.size()));
    }
    rs_free(rb);
    trajopt::GetCancellationFlag() = 0;
  });
  c.Cases("json", c.N(400, 20000), [&](Rng& r) {
    std::vector<double> f;
    for (int k = 0; k < 50; ++k) f.push_back(r.chance(0.2) ? static_cast<double>(r.range(-5, 5)) : r.chance(0.2) ? r.signedMag(1, 10) * std::pow(10, r.uni(-30, 30)) : r.uni(-100, 100));
    unsigned char msg[2048];
    size_t len = 0;
    int rc = rs_json(f.data(), f.size(), msg, sizeof msg, &len);
    c.Check(rc == 0, "json", [&] { return rc == 2 ? std::string{"panicked"} : std::string{reinterpret_cast<char*>(msg), len}; });
    c.Distinct((Desc{} << f).str());
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C30", C30}}); }

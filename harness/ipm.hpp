// An interior-point solver for the problems recorded by the stand-in, so that
// whole generations can be run to convergence without Sleipnir. Derivatives
// come from the recorded expression graph.
#pragma once

#include <Eigen/SparseCholesky>
#include <Eigen/SparseCore>

#include "rec.hpp"

namespace ipm {

using sleipnir::OptimizationProblem;
using sleipnir::SolverConfig;
using sleipnir::SolverExitCondition;
using sleipnir::SolverStatus;
using sleipnir::standin::Node;
using sleipnir::standin::Op;
using Vec = Eigen::VectorXd;
using Sparse = Eigen::SparseMatrix<double>;
using Trip = Eigen::Triplet<double>;

/// One scalar function of the decision variables with its derivatives.
class Tape {
 public:
  explicit Tape(Node* root) {
    std::unordered_map<Node*, int> index;
    std::vector<std::pair<Node*, bool>> stack{{root, false}};
    while (!stack.empty()) {
      auto [n, done] = stack.back();
      stack.pop_back();
      if (index.count(n)) continue;
      if (!done) {
        stack.push_back({n, true});
        if (n->a) stack.push_back({n->a, false});
        if (n->b) stack.push_back({n->b, false});
        continue;
      }
      index[n] = static_cast<int>(steps.size());
      Step s{n->op, n->a ? index[n->a] : -1, n->b ? index[n->b] : -1, -1, n->value};
      if (n->op == Op::kVar) {
        s.local = static_cast<int>(vars.size());
        vars.push_back(static_cast<int>(n->varId));
      }
      steps.push_back(s);
    }
    v.resize(steps.size());
    bar.resize(steps.size());
    dot.resize(steps.size());
    bardot.resize(steps.size());
    d.resize(steps.size());
  }
  std::vector<int> vars;  // decision variables it depends on

  double Value(const Vec& x) {
    for (size_t i = 0; i < steps.size(); ++i) {
      auto& s = steps[i];
      if (s.op == Op::kConst) v[i] = s.constant;
      else if (s.op == Op::kVar) v[i] = x[vars[static_cast<size_t>(s.local)]];
      else v[i] = sleipnir::standin::Apply(s.op, v[s.a], s.b >= 0 ? v[s.b] : 0.0);
    }
    return v.back();
  }
  /// After Value(): the gradient with respect to `vars`.
  void Gradient(std::vector<double>& g) {
    for (size_t i = 0; i < steps.size(); ++i) Partials(i);
    std::fill(bar.begin(), bar.end(), 0.0);
    bar.back() = 1;
    g.assign(vars.size(), 0.0);
    for (size_t i = steps.size(); i-- > 0;) {
      auto& s = steps[i];
      if (s.local >= 0) g[static_cast<size_t>(s.local)] += bar[i];
      if (s.a >= 0) bar[s.a] += bar[i] * d[i].a;
      if (s.b >= 0) bar[s.b] += bar[i] * d[i].b;
    }
  }
  bool Linear() const {
    for (auto& s : steps)
      switch (s.op) {
        case Op::kConst: case Op::kVar: case Op::kAdd: case Op::kSub: case Op::kNeg: break;
        case Op::kMul: if (steps[s.a].op != Op::kConst && steps[s.b].op != Op::kConst) return false; break;
        case Op::kDiv: if (steps[s.b].op != Op::kConst) return false; break;
        default: return false;
      }
    return true;
  }
  /// After Gradient(): adds weight * second derivatives, lower triangle.
  void Hessian(double weight, std::vector<Trip>& out) {
    for (size_t j = 0; j < vars.size(); ++j) {
      for (size_t i = 0; i < steps.size(); ++i) {
        auto& s = steps[i];
        dot[i] = s.local >= 0 ? (static_cast<size_t>(s.local) == j ? 1.0 : 0.0) : (s.a >= 0 ? d[i].a * dot[s.a] : 0.0) + (s.b >= 0 ? d[i].b * dot[s.b] : 0.0);
      }
      std::fill(bardot.begin(), bardot.end(), 0.0);
      for (size_t i = steps.size(); i-- > 0;) {
        auto& s = steps[i];
        if (s.local >= 0) {
          int r = vars[static_cast<size_t>(s.local)], c = vars[j];
          if (r >= c && bardot[i] != 0) out.emplace_back(r, c, weight * bardot[i]);
        }
        double da = s.a >= 0 ? dot[s.a] : 0, db = s.b >= 0 ? dot[s.b] : 0;
        if (s.a >= 0) bardot[s.a] += bardot[i] * d[i].a + bar[i] * (d[i].aa * da + d[i].ab * db);
        if (s.b >= 0) bardot[s.b] += bardot[i] * d[i].b + bar[i] * (d[i].ab * da + d[i].bb * db);
      }
    }
  }

 private:
  struct Step { Op op; int a, b, local; double constant; };
  struct Partial { double a = 0, b = 0, aa = 0, ab = 0, bb = 0; };
  std::vector<Step> steps;
  std::vector<double> v, bar, dot, bardot;
  std::vector<Partial> d;

  void Partials(size_t i) {
    auto& s = steps[i];
    double x = s.a >= 0 ? v[s.a] : 0, y = s.b >= 0 ? v[s.b] : 0, f = v[i];
    Partial p;
    switch (s.op) {
      case Op::kConst: case Op::kVar: case Op::kSign: break;
      case Op::kAdd: p.a = p.b = 1; break;
      case Op::kSub: p.a = 1; p.b = -1; break;
      case Op::kMul: p.a = y; p.b = x; p.ab = 1; break;
      case Op::kDiv: p.a = 1 / y; p.b = -x / (y * y); p.ab = -1 / (y * y); p.bb = 2 * x / (y * y * y); break;
      case Op::kNeg: p.a = -1; break;
      case Op::kAbs: p.a = x > 0 ? 1 : x < 0 ? -1 : 0; break;
      case Op::kSin: p.a = std::cos(x); p.aa = -f; break;
      case Op::kCos: p.a = -std::sin(x); p.aa = -f; break;
      case Op::kTan: p.a = 1 + f * f; p.aa = 2 * f * (1 + f * f); break;
      case Op::kTanh: p.a = 1 - f * f; p.aa = -2 * f * (1 - f * f); break;
      case Op::kExp: p.a = p.aa = f; break;
      case Op::kLog: p.a = 1 / x; p.aa = -1 / (x * x); break;
      case Op::kSqrt: { double g = std::max(f, 1e-12); p.a = 0.5 / g; p.aa = -0.25 / (g * g * g); break; }
      case Op::kAtan: p.a = 1 / (1 + x * x); p.aa = -2 * x * p.a * p.a; break;
      case Op::kAcos: { double q = std::max(1 - x * x, 1e-12); p.a = -1 / std::sqrt(q); p.aa = -x / (q * std::sqrt(q)); break; }
      case Op::kAsin: { double q = std::max(1 - x * x, 1e-12); p.a = 1 / std::sqrt(q); p.aa = x / (q * std::sqrt(q)); break; }
      case Op::kAtan2: { double h = std::max(x * x + y * y, 1e-24); p.a = y / h; p.b = -x / h; p.aa = -2 * x * y / (h * h); p.bb = 2 * x * y / (h * h); p.ab = (x * x - y * y) / (h * h); break; }
      case Op::kHypot: { double h = std::max(f, 1e-12); p.a = x / h; p.b = y / h; p.aa = y * y / (h * h * h); p.bb = x * x / (h * h * h); p.ab = -x * y / (h * h * h); break; }
      case Op::kPow: p.a = y == 0 ? 0 : y * std::pow(x, y - 1); p.aa = y == 0 || y == 1 ? 0 : y * (y - 1) * std::pow(x, y - 2); break;
      default: throw std::runtime_error{"the solver has no derivative for an operation"};
    }
    d[i] = p;
  }
};

struct Options {
  double tolerance = 1e-6;
  int maxIterations = 150;
  bool verbose = false;
};
struct Result {
  bool solved = false, stopped = false;
  int iterations = 0;
  double error = INFINITY;
};

/// The problem's functions.
struct Functions {
  std::vector<Tape> eq, in;
  sleipnir::Variable zero{0.0};
  Tape cost;
  explicit Functions(OptimizationProblem& p) : cost{(p.f ? *p.f : zero).expr.get()} {
    for (auto& e : p.equalityConstraints) eq.emplace_back(e.expr.get());
    for (auto& e : p.inequalityConstraints) in.emplace_back(e.expr.get());
  }
};

/// Minimizes weight * cost + nearness/2 * |x - start|^2 from x.
inline Result Descend(OptimizationProblem& p, Functions& fn_, Vec& x, double weight, double nearness, int budget, const Options& o) {
  const int n = static_cast<int>(p.decisionVariables.size());
  auto &eq = fn_.eq, &in = fn_.in;
  auto& cost = fn_.cost;
  const int me = static_cast<int>(eq.size()), mi = static_cast<int>(in.size());
  const Vec start = x;
  auto objective = [&](const Vec& at) { return weight * cost.Value(at) + 0.5 * nearness * (at - start).squaredNorm(); };
  std::vector<double> g;
  auto values = [&](std::vector<Tape>& t, const Vec& at) {
    Vec r(static_cast<Eigen::Index>(t.size()));
    for (size_t i = 0; i < t.size(); ++i) r[static_cast<Eigen::Index>(i)] = t[i].Value(at);
    return r;
  };
  Vec ce = values(eq, x), ci = values(in, x);
  // Rows are scaled by their gradient at the start.
  Vec se = Vec::Ones(me), si = Vec::Ones(mi);
  auto scale = [&](std::vector<Tape>& t, Vec& s, bool byValue) {
    for (size_t i = 0; i < t.size(); ++i) {
      double v = t[i].Value(x), m = 0;
      t[i].Gradient(g);
      for (double d : g) m = std::max(m, std::abs(d));
      s[static_cast<Eigen::Index>(i)] = 1 / std::max({1.0, m, byValue ? std::abs(v) : 0.0});
    }
  };
  scale(eq, se, false);
  scale(in, si, true);
  ce = ce.cwiseProduct(se);
  ci = ci.cwiseProduct(si);
  double mu = 0.1, delta = 0;
  Vec s = ci.cwiseMax(1e-1), z = mu * s.cwiseInverse(), y = Vec::Zero(me);
  Result r;
  std::vector<std::pair<double, double>> filter;
  auto theta = [&](const Vec& a, const Vec& b, const Vec& sl) { return a.lpNorm<1>() + (b - sl).lpNorm<1>(); };
  auto phi = [&](double f, const Vec& sl) {
    double q = f;
    for (int i = 0; i < mi; ++i) q -= mu * std::log(sl[i]);
    return q;
  };
  double thetaMax = 1e4 * std::max(1.0, theta(ce, ci, s));
  Eigen::SimplicialLDLT<Sparse, Eigen::Lower, Eigen::AMDOrdering<int>> ldlt;
  bool analyzed = false;
  size_t lastNonzeros = 0;
  int rejected = 0;
  double lastA = 0, lastZ = 0, lastM = 0;
  for (;; ++r.iterations) {
    for (int i = 0; i < n; ++i) p.decisionVariables[static_cast<size_t>(i)].SetValue(x[i]);
    if (p.Iterate(r.iterations)) { r.stopped = true; return r; }
    // Derivatives
    double f = objective(x);
    cost.Gradient(g);
    Vec gf = nearness * (x - start);
    for (size_t k = 0; k < g.size(); ++k) gf[cost.vars[k]] += weight * g[k];
    std::vector<Trip> te, ti, H;
    for (int k = 0; k < n; ++k) H.emplace_back(k, k, nearness);
    if (!cost.Linear()) cost.Hessian(weight, H);
    for (int i = 0; i < me; ++i) {
      auto& t = eq[static_cast<size_t>(i)];
      t.Value(x);
      t.Gradient(g);
      for (size_t k = 0; k < g.size(); ++k) te.emplace_back(i, t.vars[k], se[i] * g[k]);
      t.Hessian(-y[i] * se[i], H);
    }
    for (int i = 0; i < mi; ++i) {
      auto& t = in[static_cast<size_t>(i)];
      t.Value(x);
      t.Gradient(g);
      for (size_t k = 0; k < g.size(); ++k) ti.emplace_back(i, t.vars[k], si[i] * g[k]);
      t.Hessian(-z[i] * si[i], H);
    }
    Sparse Ae(me, n), Ai(mi, n);
    Ae.setFromTriplets(te.begin(), te.end());
    Ai.setFromTriplets(ti.begin(), ti.end());
    if (me && y.lpNorm<Eigen::Infinity>() > 1e3 && ce.lpNorm<Eigen::Infinity>() < 1e-2) {
      // Dependent rows let multipliers drift; the smallest ones serve as well.
      Sparse B = Ae * Sparse(Ae.transpose());
      for (int k = 0; k < me; ++k) B.coeffRef(k, k) += 1e-8;
      Eigen::SimplicialLDLT<Sparse> ls{B};
      if (ls.info() == Eigen::Success) {
        Vec yn = ls.solve(Vec(Ae * (gf - Ai.transpose() * z)));
        if (yn.allFinite() && yn.lpNorm<Eigen::Infinity>() < y.lpNorm<Eigen::Infinity>()) y = yn;
      }
    }
    Vec rd = gf - Ae.transpose() * y - Ai.transpose() * z;
    auto errorFor = [&](double m) {
      double sd = std::clamp((y.lpNorm<1>() + z.lpNorm<1>()) / std::max(1, me + mi) / 100, 1.0, 10.0);
      double comp = 0;
      for (int i = 0; i < mi; ++i) comp = std::max(comp, std::abs(s[i] * z[i] - m));
      return std::max({rd.lpNorm<Eigen::Infinity>() / sd, me ? ce.lpNorm<Eigen::Infinity>() : 0.0, mi ? (ci - s).lpNorm<Eigen::Infinity>() : 0.0, comp / sd});
    };
    r.error = errorFor(0);
    if (o.verbose) printf("%3d f=%.6f E=%.2e theta=%.2e mu=%.1e delta=%.1e |y|=%.1e a=%.1e/%.1e aM=%.1e\n", r.iterations, f, r.error, theta(ce, ci, s), mu, delta, me ? y.lpNorm<Eigen::Infinity>() : 0.0, lastA, lastZ, lastM);
    if (r.error < o.tolerance) { r.solved = true; return r; }
    if (r.iterations >= budget || !std::isfinite(r.error) || x.lpNorm<Eigen::Infinity>() > 1e10) return r;
    bool newMu = false;
    while (mu > o.tolerance / 10 && errorFor(mu) < 10 * mu) {
      mu = std::max(o.tolerance / 10, std::min(0.2 * mu, std::pow(mu, 1.5)));
      newMu = true;
    }
    if (newMu) filter.clear();
    // Newton step
    Vec sigma = z.cwiseQuotient(s);
    Vec muS(mi);
    for (int i = 0; i < mi; ++i) muS[i] = mu / s[i];
    Vec rhs(n + me);
    rhs.head(n) = -rd + Ai.transpose() * (muS - z - sigma.cwiseProduct(ci - s));
    rhs.tail(me) = -ce;
    Sparse SA = (sigma.asDiagonal() * Ai).eval();
    Sparse N = Sparse(Ai.transpose()) * SA;
    for (int k = 0; k < N.outerSize(); ++k)
      for (Sparse::InnerIterator it(N, k); it; ++it)
        if (it.row() >= it.col()) H.emplace_back(static_cast<int>(it.row()), static_cast<int>(it.col()), it.value());
    for (auto& t : te) H.emplace_back(n + t.row(), t.col(), t.value());
    for (int i = 0; i < me; ++i) H.emplace_back(n + i, n + i, 0.0);
    Sparse K(n + me, n + me);
    K.setFromTriplets(H.begin(), H.end());
    double gamma = 1e-9;
    Vec step;
    double tryDelta = 0;
    for (int attempt = 0;; ++attempt) {
      Sparse R = K;
      for (int k = 0; k < n; ++k) R.coeffRef(k, k) += tryDelta + 1e-10;
      for (int k = 0; k < me; ++k) R.coeffRef(n + k, n + k) -= gamma;
      if (!analyzed || lastNonzeros != static_cast<size_t>(R.nonZeros())) { ldlt.analyzePattern(R); analyzed = true; lastNonzeros = static_cast<size_t>(R.nonZeros()); }
      ldlt.factorize(R);
      bool good = ldlt.info() == Eigen::Success;
      if (good) {
        int pos = 0, neg = 0;
        const Vec D = ldlt.vectorD();
        for (int k = 0; k < D.size(); ++k) (D[k] > 0 ? pos : neg)++;
        good = pos == n && neg == me;
      }
      if (good) {
        step = ldlt.solve(rhs);
        for (int k = 0; k < 2; ++k) {  // refinement
          Vec res = rhs - Vec(K.selfadjointView<Eigen::Lower>() * step);
          res.head(n) -= tryDelta * step.head(n);
          Vec cor = ldlt.solve(res);
          if (!cor.allFinite()) break;
          step += cor;
        }
        if (step.allFinite()) break;
      }
      if (attempt > 40) return r;
      tryDelta = attempt == 0 ? (delta == 0 ? 1e-4 : std::max(1e-16, delta / 3)) : tryDelta * (attempt < 3 && delta == 0 ? 100 : 8);
      if (tryDelta > 1e20) return r;
    }
    if (tryDelta > 0) delta = tryDelta;
    Vec dx = step.head(n), dy = -step.tail(me);
    Vec ds = Ai * dx + (ci - s);
    Vec dz = muS - z - sigma.cwiseProduct(ds);
    double tau = std::max(0.99, 1 - mu), aMax = 1, aZ = 1;
    for (int i = 0; i < mi; ++i) {
      if (ds[i] < 0) aMax = std::min(aMax, -tau * s[i] / ds[i]);
      if (dz[i] < 0) aZ = std::min(aZ, -tau * z[i] / dz[i]);
    }
    // Filter line search
    double th = theta(ce, ci, s), ph = phi(f, s), slope = gf.dot(dx);
    for (int i = 0; i < mi; ++i) slope -= mu * ds[i] / s[i];
    bool accepted = false;
    double a = aMax;
    for (int k = 0; k < 25; ++k, a *= 0.5) {
      Vec xn = x + a * dx, sn = s + a * ds, cen = values(eq, xn).cwiseProduct(se), cin = values(in, xn).cwiseProduct(si);
      double fn = objective(xn), tn = theta(cen, cin, sn), pn = phi(fn, sn);
      if (std::isfinite(tn) && std::isfinite(pn)) {
        bool ok = tn < thetaMax;
        for (auto& [ft, fp] : filter) if (tn >= (1 - 1e-5) * ft && pn >= fp - 1e-5 * ft) ok = false;
        bool armijo = slope < 0 && a * std::pow(-slope, 2.3) > std::pow(th, 1.1);
        if (ok && th < 1e-4 && armijo) ok = pn <= ph + 1e-4 * a * slope + 1e-12 * std::abs(ph);
        else ok = ok && (tn <= (1 - 1e-5) * th || pn <= ph - 1e-5 * th || (th < 1e-9 && tn < 1e-8));
        if (ok) {
          if (!(th < 1e-4 && armijo)) filter.push_back({th, ph});
          x = xn; s = sn; ce = cen; ci = cin;
          accepted = true;
          break;
        }
        // Second-order correction on the first trial.
        if (k == 0 && tn >= th && me) {
          Vec rhs2 = rhs;
          Vec cs = a * (ci - s) + (cin - sn);
          rhs2.tail(me) = -(a * ce + cen);
          rhs2.head(n) = -rd + Ai.transpose() * (muS - z - sigma.cwiseProduct(cs));
          Vec st2 = ldlt.solve(rhs2);
          Vec dx2 = st2.head(n), ds2 = Ai * dx2 + cs;
          double a2 = 1;
          for (int i = 0; i < mi; ++i) if (ds2[i] < 0) a2 = std::min(a2, -tau * s[i] / ds2[i]);
          Vec x2 = x + a2 * dx2, s2 = s + a2 * ds2, ce2 = values(eq, x2).cwiseProduct(se), ci2 = values(in, x2).cwiseProduct(si);
          double f2 = objective(x2), t2 = theta(ce2, ci2, s2), p2 = phi(f2, s2);
          bool ok2 = std::isfinite(t2) && std::isfinite(p2) && t2 < thetaMax && (t2 <= (1 - 1e-5) * th || p2 <= ph - 1e-5 * th);
          for (auto& [ft, fp] : filter) if (t2 >= (1 - 1e-5) * ft && p2 >= fp - 1e-5 * ft) ok2 = false;
          if (ok2) {
            filter.push_back({th, ph});
            x = x2; s = s2; ce = ce2; ci = ci2;
            accepted = true;
            break;
          }
        }
      }
    }
    lastA = a; lastZ = aZ; lastM = aMax;
    if (!accepted) {
      // A short step regardless, with an empty filter.
      filter.clear();
      double q = std::min(aMax, ++rejected % 2 ? 0.05 : 0.3);
      if (rejected > 30) return r;
      x += q * dx; s += q * ds;
      ce = values(eq, x).cwiseProduct(se); ci = values(in, x).cwiseProduct(si);
      y += q * dy; z += std::min(aZ, q) * dz;
    } else {
      y += a * dy;
      z += aZ * dz;
    }
    for (int i = 0; i < mi; ++i) {
      if (ci[i] > 0 && s[i] < ci[i] * 0.1 ) s[i] = std::max(s[i], std::min(ci[i], 1e-2));
      z[i] = std::clamp(z[i], mu / s[i] / 1e10, 1e10 * mu / s[i]);
    }
  }
}

inline Result Solve(OptimizationProblem& p, const Options& o = {}) {
  Functions fn{p};
  const int n = static_cast<int>(p.decisionVariables.size());
  Vec x0(n);
  for (int i = 0; i < n; ++i) x0[i] = p.decisionVariables[static_cast<size_t>(i)].Value();
  Result r;
  int used = 0;
  for (int attempt = 0; attempt < 4; ++attempt) {
    Vec x = x0;
    if (attempt > 0) {
      // A feasible point first.
      auto q = Descend(p, fn, x, 0.0, attempt == 1 ? 1e-2 : attempt == 2 ? 1 : 1e-4, 120, {.tolerance = 1e-3, .maxIterations = 0, .verbose = o.verbose});
      used += q.iterations;
      if (q.stopped) { q.iterations = used; return q; }
      if (!q.solved) continue;
    }
    r = Descend(p, fn, x, 1.0, 0.0, o.maxIterations, o);
    used += r.iterations;
    if (r.solved || r.stopped) break;
  }
  r.iterations = used;
  return r;
}

/// As the thread's solver.
inline sleipnir::standin::Solver AsSolver(const Options& o, Result* out = nullptr) {
  return [o, out](OptimizationProblem& p, const SolverConfig&) {
    auto r = Solve(p, o);
    if (out) *out = r;
    return rec::Status(r.stopped ? SolverExitCondition::kCallbackRequestedStop : r.solved ? SolverExitCondition::kSuccess : SolverExitCondition::kMaxIterationsExceeded);
  };
}

}  // namespace ipm

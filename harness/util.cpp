// C01 sample layout, C02 linear spacing, C03 angle spacing.
#include <cfloat>
#include <stdexcept>

#include "mon.hpp"
#include <trajopt/util/TrajoptUtil.hpp>

using mon::Ctx;
using mon::Desc;
using mon::Rng;

static constexpr double kPi = 3.14159265358979323846264338327950288;

static void C01(Ctx& c) {
  c.rule = "a case is a random vector of per-segment sample counts (zeros included); every (waypoint, sample) pair up to "
           "two samples past each segment is compared with a counting reference; non-trivial: at least one segment; distinct by counts";
  // One list edited in place between the cases' queries as well as new ones.
  std::vector<size_t> edited;
  c.Cases("layout", c.N(16000, 320000), [&](Rng& r) {
    std::vector<size_t> fresh;
    bool inPlace = r.chance(0.5) && !edited.empty();
    std::vector<size_t>& N = inPlace || r.chance(0.1) ? edited : fresh;
    int segs = static_cast<int>(r.chance(0.1) ? r.range(0, 40) : r.range(0, 7));
    int hi = r.chance(0.2) ? 200 : 6;
    if (inPlace) {
      segs = 0;
      c.Stat("lists edited in place");
      switch (r.range(0, 4)) {
        case 0: r.shuffle(N); break;  // same total
        case 1: { auto& a = N[static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 1))]; auto& b = N[static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 1))]; if (a > 0) { --a; ++b; } break; }
        case 2: N[static_cast<size_t>(r.range(0, static_cast<int64_t>(N.size()) - 1))] += static_cast<size_t>(r.range(1, 4)); break;
        case 3: N.pop_back(); break;
        default: N.push_back(static_cast<size_t>(r.range(0, hi)));
      }
      if (N.size() > 60) N.resize(3);
    } else if (&N == &edited) {
      N.clear();
    }
    for (int i = 0; i < segs; ++i) N.push_back(static_cast<size_t>(r.chance(0.15) ? 0 : r.range(0, hi)));
    const auto copy = N;
    // The last sample first: the queries' order must not matter.
    if (!N.empty() && r.chance(0.5)) {
      size_t w = static_cast<size_t>(r.range(1, static_cast<int64_t>(N.size()))), want = 1;
      for (size_t k = 0; k + 1 < w; ++k) want += N[k];
      size_t got = trajopt::GetIndex(N, w, 0);
      c.Check(got == want, "dense-order", [&] { return (Desc{} << "GetIndex(N," << w << ",0)=" << got << " expected " << want << " N=" << N).str(); });
    }
    if (!N.empty()) c.Distinct((Desc{} << N).str());
    c.Sample((Desc{} << "N=" << N).str());
    size_t total = 1;
    for (auto n : N) total += n;
    auto at = [&](size_t w, size_t s, bool defaultArg = false) -> std::string {
      try {
        return std::to_string(defaultArg ? trajopt::GetIndex(N, w) : trajopt::GetIndex(N, w, s));
      } catch (const std::out_of_range&) {
        return "out_of_range";
      }
    };
    // Walk the samples in order: wpt 0 / sample 0, then each segment's samples.
    size_t expected = 0;
    c.Check(at(0, 0) == "0", "first-sample", [&] { return (Desc{} << "GetIndex(N,0,0)=" << at(0, 0) << " N=" << N).str(); });
    expected = 1;
    for (size_t w = 1; w <= N.size(); ++w) {
      for (size_t s = 0; s < N[w - 1]; ++s, ++expected) {
        auto got = at(w, s);
        c.Check(got == std::to_string(expected), "dense-order",
                [&] { return (Desc{} << "GetIndex(N," << w << "," << s << ")=" << got << " expected " << expected << " N=" << N).str(); });
      }
      auto got = at(w, 0, true);
      c.Check(got == std::to_string(expected - N[w - 1]), "default-sample",
              [&] { return (Desc{} << "GetIndex(N," << w << ")=" << got << " N=" << N).str(); });
    }
    auto tot = at(N.size() + 1, 0);
    c.Check(tot == std::to_string(total), "total", [&] { return (Desc{} << "GetIndex(N,wptCnt,0)=" << tot << " expected " << total << " N=" << N).str(); });
    for (size_t extra = 2; extra < 5; ++extra) {
      auto got = at(N.size() + extra, 0);
      c.Check(got == "out_of_range", "past-end", [&] { return (Desc{} << "GetIndex(N," << N.size() + extra << ",0)=" << got << " N=" << N).str(); });
    }
    c.Check(N == copy, "argument-changed", "counts changed");
    c.Stat("samples_indexed", static_cast<int64_t>(total));
  });
  // Beyond every small-integer width, at sampled places.
  c.Cases("large", c.N(1000, 15000), [&](Rng& r) {
    std::vector<size_t> N(static_cast<size_t>(r.chance(0.04) ? r.range(60000, 80000) : r.chance(0.3) ? r.range(200, 3000) : r.range(1, 30)));
    int bits = static_cast<int>(r.range(1, 44));
    for (auto& n : N) n = r.chance(0.1) ? 0 : static_cast<size_t>(r.range(0, (int64_t{1} << bits)));
    std::vector<size_t> first{0};  // of waypoint w: the samples before it
    size_t sum = 1;
    for (auto n : N) { first.push_back(sum); sum += n; }
    first.push_back(sum);
    for (int q = 0; q < 12; ++q) {
      size_t w = q == 0 ? N.size() + 1 : q == 1 ? N.size() : static_cast<size_t>(r.range(1, static_cast<int64_t>(N.size())));
      size_t n = w <= N.size() ? N[w - 1] : 0;
      size_t s = n == 0 || r.chance(0.3) ? 0 : r.chance(0.3) ? n - 1 : static_cast<size_t>(r.range(0, static_cast<int64_t>(n) - 1));
      size_t got = trajopt::GetIndex(N, w, s);
      c.Check(got == first[w] + s, "dense-order", [&] { return (Desc{} << "GetIndex(N," << w << "," << s << ")=" << got << " expected " << first[w] + s << " with " << N.size() << " segments, " << sum << " samples").str(); });
    }
    bool raised = false;
    try { (void)trajopt::GetIndex(N, N.size() + 2, 0); } catch (const std::out_of_range&) { raised = true; }
    c.Check(raised, "past-end", [&] { return (Desc{} << N.size() << " segments").str(); });
    c.Distinct(r.s);
    c.Stat("large_layouts");
  });
}

// A double from a mix of scales.
static double Any(Rng& r) {
  switch (r.range(0, 7)) {
    case 0: return 0.0;
    case 1: return static_cast<double>(r.range(-5, 5));
    case 2: return r.signedMag(1e-12, 1e-6);
    case 3: return r.signedMag(1e3, 1e9);
    case 4: return std::ldexp(r.signedMag(0.5, 1), static_cast<int>(r.range(-300, 300)));
    default: return r.signedMag(0, 20);
  }
}

static void C02(Ctx& c) {
  c.rule = "a case is (start, end, n) with mixed magnitudes and n from 0 to thousands; each element is compared with a long "
           "double reference; non-trivial: n >= 1; distinct by (start, end, n)";
  double lastA = 1, lastB = 2;
  c.Cases("linspace", c.N(120000, 2000000), [&](Rng& r) {
    double a = Any(r), b = r.chance(0.1) ? a : Any(r);
    if (r.chance(0.15)) { a = lastA; if (r.chance(0.5)) b = lastB; }  // part of the previous query
    lastA = a; lastB = b;
    size_t n = static_cast<size_t>(r.chance(0.02) ? r.range(1000, 5000) : r.range(0, 40));
    auto v = trajopt::Linspace(a, b, n);
    auto what = [&](size_t k, double got) { return (Desc{} << "Linspace(" << a << "," << b << "," << n << ")[" << k << "]=" << got).str(); };
    if (n) c.Distinct((Desc{} << a << "," << b << "," << n).str());
    c.Sample((Desc{} << "Linspace(" << a << "," << b << "," << n << ")").str());
    if (!c.Check(v.size() == n, "length", [&] { return what(v.size(), NAN); })) return;
    long double mag = std::max(std::abs((long double)a), std::abs((long double)b));
    for (size_t k = 1; k <= n; ++k) {
      long double ref = (long double)a + ((long double)b - a) * k / n;
      long double tol = mag * DBL_EPSILON * 16 + DBL_MIN;
      c.Check(std::abs((long double)v[k - 1] - ref) <= tol, k == n ? "end" : "spacing", [&] { return what(k - 1, v[k - 1]); });
    }
    c.Stat("values_checked", static_cast<int64_t>(n));
  });
}

static void C03(Ctx& c) {
  c.rule = "a case is (start, end, n); angles include exact and near multiples of pi apart, many turns, and random ones; "
           "non-trivial: n >= 1 and start != end; distinct by (start, end, n)";
  c.Cases("anglelinspace", c.N(120000, 2000000), [&](Rng& r) {
    auto angle = [&]() -> double {
      switch (r.range(0, 6)) {
        case 0: return static_cast<double>(r.range(-8, 8)) * kPi;
        case 1: return static_cast<double>(r.range(-8, 8)) * kPi / 2;
        case 2: return static_cast<double>(r.range(-3, 3)) * kPi + r.signedMag(1e-12, 1e-3);
        case 3: return r.uni(-1000, 1000);
        default: return r.uni(-2 * kPi, 2 * kPi);
      }
    };
    double a = angle(), b = angle();
    if (r.chance(0.2)) b = a + static_cast<double>(r.range(-7, 7)) * kPi + (r.chance(0.5) ? r.signedMag(1e-9, 1e-2) : 0.0);
    size_t n = static_cast<size_t>(r.range(0, 30));
    auto v = trajopt::AngleLinspace(a, b, n);
    auto what = [&] { return (Desc{} << "AngleLinspace(" << a << "," << b << "," << n << ")=" << v).str(); };
    if (n && a != b) c.Distinct((Desc{} << a << "," << b << "," << n).str());
    c.Sample((Desc{} << "AngleLinspace(" << a << "," << b << "," << n << ")").str());
    if (!c.Check(v.size() == n, "length", what) || n == 0) return;
    double tol = 1e-12 * (1 + std::abs(a) + std::abs(b));
    double total = v.back() - a;
    c.Check(std::abs(total) <= kPi + tol, "sweep-more-than-half-turn", what);
    double off = std::remainder(v.back() - b, 2 * kPi);
    c.Check(std::abs(off) <= tol, "wrong-final-heading", what);
    for (size_t k = 0; k < n; ++k)
      c.Check(mon::Near(v[k], a + total * static_cast<double>(k + 1) / static_cast<double>(n), tol), "uneven", what);
    c.Stat("values_checked", static_cast<int64_t>(n));
    int turns = static_cast<int>(std::abs(b - a) / (2 * kPi));
    c.Stat(turns == 0 ? "pairs_within_one_turn" : "pairs_many_turns_apart");
    if (std::abs(std::abs(total) - kPi) < 1e-6) c.Stat("pairs_half_turn_apart");
  });
}

int main(int argc, char** argv) { return mon::Main(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}}); }

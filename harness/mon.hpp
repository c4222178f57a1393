// Monitor runtime shared by all harnesses: deterministic case generation,
// violation / coverage bookkeeping, and the report the driver reads.
#pragma once

#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <bit>
#include <chrono>
#include <cmath>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s{seed} {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  /// Integer in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1)); }
  bool chance(double p) { return unit() < p; }
  double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  /// Magnitude in [lo, hi], random sign.
  double signedMag(double lo, double hi) { double m = uni(lo, hi); return chance(0.5) ? m : -m; }
  /// In [lo, hi], often a round number of that range: zero, an integer, a half.
  double round(double lo, double hi) {
    double v = uni(lo, hi);
    switch (range(0, 7)) {
      case 0: return lo <= 0 && hi >= 0 ? 0.0 : v;
      case 1: { double w = std::rint(v); return w >= lo && w <= hi ? w : v; }
      case 2: { double w = std::rint(2 * v) / 2; return w >= lo && w <= hi ? w : v; }
      default: return v;
    }
  }
  /// Magnitude spread evenly over the decades of [lo, hi].
  double logUni(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
  /// An angle in [-pi, pi] times `turns`, often an exact or nearly exact multiple of a quarter turn.
  double angle(double turns = 1) {
    double v = uni(-1, 1) * turns * 3.14159265358979323846;
    if (!chance(0.35)) return v;
    double q = std::rint(v / 0.78539816339744830962) * 0.78539816339744830962;
    if (chance(0.5)) q = std::rint(v / 1.57079632679489661923) * 1.57079632679489661923;
    return chance(0.25) ? q + signedMag(1e-9, 1e-3) : q;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[range(0, static_cast<int64_t>(v.size()) - 1)]; }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[range(0, static_cast<int64_t>(i) - 1)]);
  }
};

inline uint64_t Mix(uint64_t a, uint64_t b) {
  Rng r{a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull)};
  r.next();
  return r.next();
}
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

/// Builds a readable description of a case.
struct Desc {
  std::ostringstream os;
  Desc() { os.precision(17); }
  template <typename T>
  Desc& operator<<(const T& v) { os << v; return *this; }
  template <typename T>
  Desc& operator<<(const std::vector<T>& v) {
    os << "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) os << ","; *this << v[i]; }
    os << "]";
    return *this;
  }
  std::string str() const { return os.str(); }
};

struct Violation {
  std::string key, detail, phase;
  int64_t caseIndex = -1;
  uint64_t count = 0;
};

class Ctx {
 public:
  /// Seconds, by a clock which no harness replaces.
  static double Now() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
  }
  std::string prop, tier = "quick", reportPath, progressPath;
  uint64_t seed = 1;
  int64_t onlyCase = -1;
  std::string onlyPhase;
  double scale = 1.0, budget = 0;
  double begun = Now();
  bool thorough = false;

  void Init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&] { return std::string{i + 1 < argc ? argv[++i] : ""}; };
      if (a == "--prop") prop = val();
      else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
      else if (a == "--tier") tier = val();
      else if (a == "--report") reportPath = val();
      else if (a == "--progress") progressPath = val();
      else if (a == "--case") onlyCase = atoll(val().c_str());
      else if (a == "--phase") onlyPhase = val();
      else if (a == "--scale") scale = atof(val().c_str());
    }
    thorough = tier == "thorough";
    if (const char* b = getenv("VP_BUDGET")) budget = atof(b);
    if (!progressPath.empty()) {
      int fd = open(progressPath.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) progress = static_cast<char*>(m);
      }
      if (fd >= 0) close(fd);
    }
  }

  /// Number of cases for the tier.
  uint64_t N(uint64_t quick, uint64_t thoroughN) const {
    double n = static_cast<double>(thorough ? thoroughN : quick) * scale;
    return n < 1 ? 1 : static_cast<uint64_t>(n);
  }

  /// The time set aside for this process is used up: on slow machines the
  /// workload is cut short (to a tenth at least), which the report says.
  bool Late() const { return budget > 0 && onlyCase < 0 && Now() - begun > budget; }

  /// Runs `body` for `n` seeded cases under a phase name.
  void Cases(const std::string& phase, uint64_t n, const std::function<void(Rng&)>& body) {
    if (!onlyPhase.empty() && onlyPhase != phase) return;
    for (uint64_t i = 0; i < n; ++i) {
      if (onlyCase >= 0 && i != static_cast<uint64_t>(onlyCase)) continue;
      if (i * 10 >= n && Late()) {
        Stat("cases cut for lack of time: " + phase, static_cast<int64_t>(n - i));
        break;
      }
      Rng r{Mix(Mix(seed, HashStr(prop + "/" + phase)), i)};
      SetPhase(phase, static_cast<int64_t>(i));
      try {
        body(r);
      } catch (const std::exception& e) {
        Viol("unexpected-exception:" + phase, std::string{typeid(e).name()} + ": " + e.what());
      }
      ++cases;
    }
    SetPhase(phase + ":done", -1);
  }

  int64_t Case() const { return curCase; }
  void SetPhase(const std::string& phase, int64_t i) {
    curPhase = phase;
    curCase = i;
    Note("");
  }
  /// Leaves a note in the progress file, so that a crash is attributable.
  void Note(const std::string& note) {
    if (progress) snprintf(progress, 4096, "%s|%lld|%s", curPhase.c_str(), static_cast<long long>(curCase), note.c_str());
  }

  void Viol(const std::string& key, const std::string& detail) {
    std::lock_guard lk{m};
    auto& v = viols[key];
    if (v.count++ == 0) {
      v.key = key;
      v.detail = detail;
      v.phase = curPhase;
      v.caseIndex = curCase;
    }
  }
  /// Counts an oracle evaluation; reports a violation if it failed.
  template <typename F>
  bool Check(bool ok, const std::string& key, F&& detail) {
    ++evals;
    if (!ok) Viol(key, detail());
    return ok;
  }
  bool Check(bool ok, const std::string& key, const char* detail) {
    return Check(ok, key, [&] { return std::string{detail}; });
  }
  void Stat(const std::string& name, int64_t d = 1) { std::lock_guard lk{m}; stats[name] += d; }
  void Max(const std::string& name, double v) { std::lock_guard lk{m}; auto& s = maxes[name]; if (v > s) s = v; }
  /// Marks a distinct non-trivial case by content hash.
  void Distinct(uint64_t h) { std::lock_guard lk{m}; distinct.insert(h); }
  void Distinct(const std::string& s) { Distinct(HashStr(s)); }
  void Sample(const std::string& s) { std::lock_guard lk{m}; if (samples.size() < 4) samples.push_back(s); }
  std::string rule;
  std::vector<std::string> assumptions;
  std::string inconclusive;

  int Finish() {
    if (progress) snprintf(progress, 4096, "finished|-1|");
    std::ostringstream o;
    o << "{\"cases\":" << cases << ",\"evals\":" << evals.load() << ",\"distinct\":" << distinct.size()
      << ",\"rule\":" << JsonStr(rule) << ",\"inconclusive\":" << JsonStr(inconclusive) << ",\"stats\":{";
    bool first = true;
    for (auto& [k, v] : stats) { o << (first ? "" : ",") << JsonStr(k) << ":" << v; first = false; }
    for (auto& [k, v] : maxes) { o << (first ? "" : ",") << JsonStr(k) << ":" << (std::isfinite(v) ? v : 1e308); first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << JsonStr(s); first = false; }
    o << "],\"assumptions\":[";
    first = true;
    for (auto& s : assumptions) { o << (first ? "" : ",") << JsonStr(s); first = false; }
    o << "],\"hashes\":[";
    first = true;
    size_t dumped = 0;
    for (auto h : distinct) {
      if (++dumped > 400000) break;
      o << (first ? "" : ",") << h;
      first = false;
    }
    o << "],\"violations\":[";
    first = true;
    for (auto& [k, v] : viols) {
      o << (first ? "" : ",") << "{\"key\":" << JsonStr(v.key) << ",\"detail\":" << JsonStr(v.detail)
        << ",\"phase\":" << JsonStr(v.phase) << ",\"case\":" << v.caseIndex << ",\"count\":" << v.count << "}";
      first = false;
    }
    o << "]}\n";
    if (!reportPath.empty()) {
      FILE* f = fopen(reportPath.c_str(), "w");
      if (!f) return 3;
      fputs(o.str().c_str(), f);
      fclose(f);
    } else {
      fputs(o.str().c_str(), stdout);
    }
    return 0;
  }

  std::atomic<uint64_t> evals{0};
  uint64_t cases = 0;

 private:
  std::mutex m;
  char* progress = nullptr;
  std::string curPhase;
  int64_t curCase = -1;
  std::map<std::string, Violation> viols;
  std::map<std::string, int64_t> stats;
  std::map<std::string, double> maxes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

using PropFn = void (*)(Ctx&);
struct Entry {
  const char* prop;
  PropFn fn;
};
/// Dispatches to the property's workload.
inline int Main(int argc, char** argv, const std::vector<Entry>& entries) {
  static Ctx ctx;  // static: reachable at exit for LSan
  ctx.Init(argc, argv);
  bool found = false;
  for (auto& e : entries)
    if (ctx.prop == e.prop) {
      e.fn(ctx);
      found = true;
    }
  if (!found) {
    fprintf(stderr, "harness: no workload for %s\n", ctx.prop.c_str());
    return 3;
  }
  return ctx.Finish();
}

inline bool Near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= tol;
}
inline bool SameBits(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || (std::isnan(a) && std::isnan(b)); }

}  // namespace mon

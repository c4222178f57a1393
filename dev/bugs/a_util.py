GEN = "src/SwerveTrajectoryGenerator.cpp"
PB = "src/path/SwervePathBuilder.cpp"
UTIL = "include/trajopt/util/TrajoptUtil.hpp"
GUESS = "include/trajopt/util/GenerateLinearInitialGuess.hpp"

bug("C01-prefix-cache", prop="C01", kind="header",
    needs="two index queries on one counts vector whose entries were changed in place in between",
    breaks="GetIndex memoizes prefix sums per vector address and length, so it answers with stale counts after an in-place edit",
    edits=[(UTIL, """  size_t index = 0;
  if (wptIndex > 0) {
    ++index;
  }
  for (size_t _wptIndex = 1; _wptIndex < wptIndex; ++_wptIndex) {
    index += N.at(_wptIndex - 1);
  }
  index += sampIndex;
  return index;
""", """  // The generator asks for every sample of the same path; sum only once
  static thread_local const size_t* cachedData = nullptr;
  static thread_local std::vector<size_t> starts;
  if (cachedData != N.data() || starts.size() != N.size() + 1) {
    cachedData = N.data();
    starts.assign(1, 1);
    for (auto count : N) {
      starts.push_back(starts.back() + count);
    }
  }
  if (wptIndex == 0) {
    return sampIndex;
  }
  return starts.at(wptIndex - 1) + sampIndex;
""")],
    demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  std::vector<size_t> N{3, 4, 5};
  REQUIRE(GetIndex(N, 3, 0) == 8);
  N[0] = 7;
  REQUIRE(GetIndex(N, 3, 0) == 12);
  REQUIRE(GetIndex(N, 4, 0) == 17);
}
''')

bug("C01-clamp", prop="C01", kind="header",
    needs="a waypoint index beyond the end of the path",
    breaks="GetIndex answers with the last sample for waypoints which do not exist instead of raising out_of_range",
    edits=[(UTIL, """  for (size_t _wptIndex = 1; _wptIndex < wptIndex; ++_wptIndex) {
    index += N.at(_wptIndex - 1);
  }""", """  for (size_t _wptIndex = 1; _wptIndex < wptIndex && _wptIndex <= N.size();
       ++_wptIndex) {
    index += N[_wptIndex - 1];
  }""")],
    demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  std::vector<size_t> N{3, 4};
  REQUIRE(GetIndex(N, 3, 0) == 8);
  bool threw = false;
  try { (void)GetIndex(N, 4, 0); } catch (const std::out_of_range&) { threw = true; }
  REQUIRE(threw);
}
''')

bug("C02-drift", prop="C02", kind="header",
    needs="a long list of samples over a range that does not start at zero",
    breaks="Linspace steps by a rounded increment, so that it misses its end value",
    edits=[(UTIL, """    result.push_back(startValue + index * delta);""", """    result.push_back(index == 1 ? startValue + delta
                                : result.back() + static_cast<float>(delta));""")],
    demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  auto v = Linspace(0.1, 0.8, 300);
  REQUIRE(v.size() == 300);
  REQUIRE(std::abs(v.back() - 0.8) < 1e-12);
}
''')

bug("C03-wrap-once", prop="C03", kind="header",
    needs="headings more than one and a half turns apart",
    breaks="AngleLinspace removes at most one full turn and sweeps whole extra turns",
    edits=[(UTIL, """  const double numMax = std::trunc((diff - minimumInput) / modulus);
  diff -= numMax * modulus;
""", """  if (diff > maximumInput) {
    diff -= modulus;
  }
"""), (UTIL, """  const double numMin = std::trunc((diff - maximumInput) / modulus);
  diff -= numMin * modulus;
""", """  if (diff < minimumInput) {
    diff += modulus;
  }
""")],
    demo=r'''
#include "demo.hpp"
#include <trajopt/util/TrajoptUtil.hpp>
int main() {
  for (double end : {0.5, 0.5 + 2 * M_PI, 0.5 + 6 * M_PI, 0.5 - 4 * M_PI}) {
    auto v = AngleLinspace(0.0, end, 5);
    REQUIRE(std::abs(v.back() - 0.5) < 1e-9);
  }
}
''')

bug("C04-middle-heading", prop="C04",
    needs="a segment with at least four guess points",
    breaks="the headings between later intermediate guess points restart at the segment's first guess point",
    edits=[(GUESS, """      auto guessThetas = AngleLinspace(initialGuessPoints.at(wptIndex)
                                           .at(guessPointIndex - 1)
                                           .Rotation()
                                           .Radians(),""", """      auto guessThetas = AngleLinspace(initialGuessPoints.at(wptIndex)
                                           .front()
                                           .Rotation()
                                           .Radians(),""")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.WptInitialGuessPoint(1, {4, 0, {1.6}});
  b.SgmtInitialGuessPoints(0, {{1, 0, {0.4}}, {2, 0, {0.8}}, {3, 0, {1.2}}});
  b.ControlIntervalCounts({8});
  auto s = b.CalculateInitialGuess();
  for (int i = 0; i <= 8; ++i) {
    REQUIRE(Close(s.x.at(i), i * 0.5));
    REQUIRE(Close(s.thetacos.at(i), std::cos(i * 0.2)) && Close(s.thetasin.at(i), std::sin(i * 0.2)));
  }
}
''')

bug("C04-remainder", prop="C04",
    needs="three or more guess points in a segment whose interval count is not a multiple of them",
    breaks="the remainder intervals are dropped from the last stretch, so lists are shorter than the number of samples",
    edits=[(GUESS, "      size_t N_lastGuessSgmt = N_sgmt - (guessPointCount - 1) * N_guessSgmt;",
            "      size_t N_lastGuessSgmt =\n          guessPointCount > 2 ? N_guessSgmt : N_sgmt - N_guessSgmt;")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.WptInitialGuessPoint(1, {4, 0, {1.6}});
  b.SgmtInitialGuessPoints(0, {{1, 0, {0.4}}, {2, 0, {0.8}}});
  b.ControlIntervalCounts({8});
  auto s = b.CalculateInitialGuess();
  REQUIRE(s.x.size() == 9 && s.thetacos.size() == 9);
  REQUIRE(Close(s.x.back(), 4));
}
''')

bug("C05-guess-front", prop="C05",
    needs="segment guess points added before the guess of the waypoint they lead to",
    breaks="the waypoint's guess overwrites the first intermediate guess point instead of its own",
    edits=[(PB, "  initialGuessPoints.at(wptIndex).back() = poseGuess;", "  initialGuessPoints.at(wptIndex).front() = poseGuess;")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.WptInitialGuessPoint(0, {0, 0, {0.0}});
  b.SgmtInitialGuessPoints(0, {{1, 5, {0.0}}});
  b.WptInitialGuessPoint(1, {2, 0, {0.0}});
  b.ControlIntervalCounts({4});
  auto s = b.CalculateInitialGuess();
  REQUIRE(Close(s.x.at(2), 1) && Close(s.y.at(2), 5));
  REQUIRE(Close(s.x.at(4), 2) && Close(s.y.at(4), 0));
}
''')

bug("C05-inherit-count", prop="C05",
    needs="counts given first, then a call about a waypoint beyond them",
    breaks="new segments inherit the previous segment's interval count instead of the default of 40",
    edits=[(PB, "        controlIntervalCounts.push_back(40);",
            "        controlIntervalCounts.push_back(\n            controlIntervalCounts.empty() ? 40 : controlIntervalCounts.back());")],
    demo=r'''
#include "demo.hpp"
int main() {
  SwervePathBuilder b;
  b.PoseWpt(0, 0, 0, 0);
  b.PoseWpt(1, 1, 0, 0);
  b.ControlIntervalCounts({7});
  b.PoseWpt(2, 2, 0, 0);
  REQUIRE((b.GetControlIntervalCounts() == std::vector<size_t>{7, 40}));
}
''')

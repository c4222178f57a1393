#pragma once

#include <atomic>
#include <chrono>
#include <cstdint>

// ------------------------------------------------------------ virtual clocks
// These replace the C++ library's clocks in this executable: time only moves
// when the workload moves it, and the wall clock also jumps.
static std::atomic<int64_t> gSteadyNs{1'000'000'000'000};
static std::atomic<int64_t> gWallOffsetNs{0};
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{gSteadyNs.load()}}; }
system_clock::time_point system_clock::now() noexcept { return time_point{duration{gSteadyNs.load() + gWallOffsetNs.load()}}; }
}  // namespace _V2
}  // namespace std::chrono


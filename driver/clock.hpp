#pragma once
#include <cstdint>

// The time of day as the code under test sees it, per thread.
class FakeClock {
 public:
  // seconds since 1904; 0: the real time
  explicit FakeClock(std::uint64_t since1904);
  ~FakeClock();
};

#include "clock.hpp"

#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace {
thread_local std::int64_t g_now = 0;
}

FakeClock::FakeClock(std::uint64_t since1904) { g_now = since1904 ? static_cast<std::int64_t>(since1904 - 2082844800ULL) : 0; }
FakeClock::~FakeClock() { g_now = 0; }

extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (g_now && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = g_now;
    ts->tv_nsec = 0;
    return 0;
  }
  return static_cast<int>(::syscall(SYS_clock_gettime, id, ts));
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}

#include "meter.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define NO_METER 1
#endif
#endif

#ifdef NO_METER
namespace meter {
std::uint64_t live() { return 0; }
std::uint64_t peak() { return 0; }
void reset() {}
bool on() { return false; }
}  // namespace meter
#else
#include <malloc.h>

#include <atomic>
#include <cstdlib>
#include <new>

namespace {
std::atomic<std::int64_t> g_live{0}, g_peak{0};
constexpr std::int64_t kMost = 1LL << 30;  // more than this is refused

void* take(std::size_t n) {
  auto would = g_live.load(std::memory_order_relaxed) + static_cast<std::int64_t>(n > (1ULL << 62) ? (1ULL << 62) : n);
  if (would > kMost) {
    g_peak = would;
    throw std::bad_alloc();
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  auto l = g_live.fetch_add(static_cast<std::int64_t>(malloc_usable_size(p)), std::memory_order_relaxed) +
           static_cast<std::int64_t>(malloc_usable_size(p));
  if (l > g_peak.load(std::memory_order_relaxed)) g_peak.store(l, std::memory_order_relaxed);
  return p;
}
void give(void* p) {
  if (!p) return;
  g_live.fetch_sub(static_cast<std::int64_t>(malloc_usable_size(p)), std::memory_order_relaxed);
  std::free(p);
}
}  // namespace

void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }

namespace meter {
std::uint64_t live() { return static_cast<std::uint64_t>(g_live.load()); }
std::uint64_t peak() { return static_cast<std::uint64_t>(g_peak.load()); }
void reset() { g_peak.store(g_live.load()); }
bool on() { return true; }
}  // namespace meter
#endif

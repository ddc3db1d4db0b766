#pragma once
#include <cstdint>
// Live heap bytes and their peak (0 in builds without the meter).
namespace meter {
std::uint64_t live();
std::uint64_t peak();
void reset();                       // peak = live
bool on();
}  // namespace meter

// yacl::math::Log2Floor / Log2Ceil
#pragma once
#include <cstdint>
#include <cstddef>
namespace yacl::math {
inline constexpr size_t Log2Floor(uint64_t x) { return x <= 1 ? 0 : 63 - __builtin_clzll(x); }
inline constexpr size_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : 64 - __builtin_clzll(x - 1); }
}  // namespace yacl::math

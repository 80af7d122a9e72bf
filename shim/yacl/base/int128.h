#pragma once
#include <cstdint>
#include <utility>
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
inline constexpr unsigned __int128 Uint128Max() { return ~(unsigned __int128)0; }
inline constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) { return ((uint128_t)hi << 64) | lo; }
inline constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) { return (int128_t)(((uint128_t)(uint64_t)hi << 64) | lo); }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {(int64_t)(v >> 64), (uint64_t)v}; }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {(uint64_t)(v >> 64), (uint64_t)v}; }
}  // namespace yacl

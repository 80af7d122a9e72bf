// contract shim: libdivide computes the exact quotient
#pragma once
#include <cstdint>
namespace libdivide {
struct libdivide_u64_t { uint64_t d; };
inline libdivide_u64_t libdivide_u64_gen(uint64_t d) { return libdivide_u64_t{d}; }
inline uint64_t libdivide_u64_do(uint64_t n, const libdivide_u64_t* d) { return n / d->d; }
}  // namespace libdivide

// contract of Galois128 for the symbolic build of this check: an element; products are some element (their value is
// the subject of C08), reading a word of it gives some number
#pragma once
#include <cstdint>
#include "vf.h"
#include "yacl/base/int128.h"
namespace psi::rr22::okvs {
class Galois128 {
 public:
  explicit Galois128(uint64_t v) : lo(v), hi(0) {}
  Galois128(uint64_t h, uint64_t l) : lo(l), hi(h) {}
  explicit Galois128(const uint128_t b) : lo((uint64_t)b), hi((uint64_t)(b >> 64)) {}
  Galois128 Mul(const Galois128&) const { return Galois128(vf_any_(0, ~0ULL), vf_any_(0, ~0ULL)); }
  Galois128 operator*(const Galois128& r) const { return Mul(r); }
  Galois128 operator*(const uint128_t& r) const { return Mul(*this); }
  Galois128 operator*(const uint64_t& r) const { return Mul(*this); }
  template <class T> T get(size_t i) const {
    static_assert(sizeof(T) == 8, "64-bit words");
    return i == 0 ? lo : hi;
  }

 private:
  uint64_t lo, hi;
};
}  // namespace psi::rr22::okvs

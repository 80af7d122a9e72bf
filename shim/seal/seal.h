// assumed contracts on SEAL: word arithmetic with its documented meaning
#pragma once
#include <cstddef>
#include <cstdint>
#include <array>
#include <utility>
#include <vector>
#include "vf.h"
namespace seal {
class Modulus {
 public:
  uint64_t v_ = 0;
  std::array<uint64_t, 3> cr_{};
  Modulus() = default;
  Modulus(uint64_t v) : v_(v) {
    if (v) {
      // floor(2^128 / v) and the remainder
      unsigned __int128 q = (~(unsigned __int128)0) / v, r = (~(unsigned __int128)0) % v;
      if (r + 1 == v) { q += 1; r = 0; } else r += 1;
      cr_ = {(uint64_t)q, (uint64_t)(q >> 64), (uint64_t)r};
    }
  }
  uint64_t value() const { return v_; }
  const std::array<uint64_t, 3>& const_ratio() const { return cr_; }
  bool is_zero() const { return v_ == 0; }
};
namespace util {
inline void multiply_uint64_hw64(uint64_t a, uint64_t b, unsigned long long* hw) { *hw = (uint64_t)(((unsigned __int128)a * b) >> 64); }
inline void multiply_uint64(uint64_t a, uint64_t b, unsigned long long* r) {
  unsigned __int128 p = (unsigned __int128)a * b;
  r[0] = (uint64_t)p;
  r[1] = (uint64_t)(p >> 64);
}
template <class R> inline unsigned char add_uint64(uint64_t a, uint64_t b, R* r) { *r = a + b; return (unsigned char)((uint64_t)*r < a); }
inline void divide_uint192_inplace(uint64_t* num, uint64_t den, uint64_t* quo) {
  unsigned __int128 r = 0;
  for (int i = 2; i >= 0; --i) {
    unsigned __int128 c = (r << 64) | num[i];
    quo[i] = (uint64_t)(c / den);
    r = c % den;
  }
  num[0] = (uint64_t)r;
  num[1] = num[2] = 0;
}
inline uint64_t multiply_uint_mod(uint64_t a, uint64_t b, const Modulus& m) { return (uint64_t)((unsigned __int128)a * b % m.value()); }
inline uint64_t exponentiate_uint_mod(uint64_t a, uint64_t e, const Modulus& m) {
  uint64_t r = 1 % m.value();
  while (e) {
    if (e & 1) r = multiply_uint_mod(r, a, m);
    a = multiply_uint_mod(a, a, m);
    e >>= 1;
  }
  return r;
}
template <class T> inline T reverse_bits(T x, int n) {
  T r = 0;
  for (int i = 0; i < n; i++) r |= ((x >> i) & 1) << (n - 1 - i);
  return r;
}
inline uint64_t div2_uint_mod(uint64_t a, const Modulus& m) { return (a & 1) ? (uint64_t)(((unsigned __int128)a + m.value()) >> 1) : a >> 1; }
inline bool try_invert_uint_mod(uint64_t v, const Modulus& m, uint64_t& r) {
  __int128 a = v % m.value(), b = m.value(), x = 1, y = 0;
  while (b) {
    __int128 q = a / b, t = a - q * b;
    a = b; b = t;
    t = x - q * y; x = y; y = t;
  }
  if (a != 1) return false;
  r = (uint64_t)(x < 0 ? x + m.value() : x);
  return true;
}
inline bool try_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r) {
  uint64_t p = m.value();
  if ((p - 1) % degree) return false;
  for (uint64_t g = 2; g < p && g < 10000; ++g) {
    uint64_t c = exponentiate_uint_mod(g, (p - 1) / degree, m);
    if (exponentiate_uint_mod(c, degree >> 1, m) == p - 1) { r = c; return true; }
  }
  return false;
}
inline bool try_minimal_primitive_root(uint64_t degree, const Modulus& m, uint64_t& r) {
  uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  uint64_t g2 = multiply_uint_mod(root, root, m), cur = root, best = root;
  for (uint64_t i = 0; i < degree; i += 2) { if (cur < best) best = cur; cur = multiply_uint_mod(cur, g2, m); }
  r = best;
  return true;
}
}  // namespace util
}  // namespace seal

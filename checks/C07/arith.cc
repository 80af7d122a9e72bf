#include <array>
#include <vector>
#include "vf_vec.h"
#include "psi/algorithm/spiral/arith/arith.h"
using namespace psi::spiral;
typedef unsigned __int128 u128;
// 2^128 = cr * M + rem
template <uint64_t M> struct Cr {
  static constexpr u128 q = (~(u128)0) / M;      // M is not a power of two here
  static constexpr uint64_t c0 = (uint64_t)q, c1 = (uint64_t)(q >> 64);
};
template <uint64_t M> static void crs() {
  auto p = arith::GetBarrettCrs(M);
  vf::check(p.first == Cr<M>::c0 && p.second == Cr<M>::c1, "Barrett constants are floor(2^128 / modulus)");
  std::vector<uint64_t> mod(2); mod[0] = 268369921; mod[1] = M;
  auto pp = arith::GetBarrett(mod);
  vf::check(pp.first[1] == Cr<M>::c0 && pp.second[1] == Cr<M>::c1 && pp.first[0] == Cr<268369921>::c0 && pp.second[0] == Cr<268369921>::c1,
            "Barrett constants of every modulus at its own place");
  vf::cover("end");
}
template <uint64_t M> static void bar64() {
  uint64_t x = vf::u64("x");
  uint64_t r = arith::BarrettRawU64(x, Cr<M>::c1, M);
  vf::check(r == x % M, "64-bit reduction equals the remainder");
  vf::cover("end");
}
template <uint64_t M> static void bar128() {
  uint64_t h = vf::u64("hi"), l = vf::u64("lo");
  u128 x = ((u128)h << 64) | l;
  constexpr uint64_t c0 = Cr<M>::c0, c1 = Cr<M>::c1;
  // the quotient estimate floor(x * cr / 2^128), word by word (ghost)
  u128 b = (u128)l * c1 + (uint64_t)(((u128)l * c0) >> 64);
  u128 c = (u128)h * c0 + (uint64_t)b;
  u128 q = (u128)h * c1 + (uint64_t)(b >> 64) + (uint64_t)(c >> 64);
  vf::check(q * M <= x && x - q * M < 2 * (u128)M, "lemma: the estimate is exact or one below");
  // carries (ghost)
  u128 t = (u128)l * c1;
  uint64_t c1h = (uint64_t)(((u128)l * c0) >> 64), s1 = (uint64_t)t + c1h, k1 = s1 < (uint64_t)t;
  vf::check(s1 == (uint64_t)b && (uint64_t)(t >> 64) + k1 == (uint64_t)(b >> 64), "lemma: first carry");
  u128 t2 = (u128)h * c0;
  uint64_t s2 = s1 + (uint64_t)t2, k2 = s2 < s1;
  vf::check((uint64_t)(t2 >> 64) + k2 == (uint64_t)(c >> 64), "lemma: second carry");
  uint64_t e = h * c1 + ((uint64_t)(t >> 64) + k1) + ((uint64_t)(t2 >> 64) + k2);
  vf::check(e == (uint64_t)q, "lemma: the low word of the estimate");
  vf::check(l - e * M == (uint64_t)(x - q * M), "lemma: the low word of the difference");
  uint64_t lazy = arith::BarrettRawU128(x, c0, c1, M);
  vf::check(lazy == l - e * M, "lazy 128-bit reduction computes the low word of the difference");
  vf::check(lazy == (uint64_t)(x - q * M), "lazy 128-bit reduction subtracts the estimate");
  vf::check(lazy < 2 * M, "lazy 128-bit reduction is below twice the modulus");
  uint64_t m = (uint64_t)(x % M);
  vf::check(lazy == m || lazy == m + M, "lazy 128-bit reduction is congruent");
  vf::cover("end");
}
#define MOD(n, m) VF_HARNESS(crs_##n) { crs<m>(); } VF_HARNESS(bar64_##n) { bar64<m>(); } VF_HARNESS(bar128_##n) { bar128<m>(); }
MOD(q0, 268369921ULL) MOD(q1, 249561089ULL) MOD(q, 66974689739603969ULL)

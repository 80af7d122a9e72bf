#include <array>
#include <sstream>
#include <vector>
#include "vf_vec.h"
#include "seal/seal.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/math/gadget.h"
#include "psi/algorithm/spiral/common.h"
typedef unsigned __int128 u128;
template <uint64_t M> struct Cr {
  static constexpr u128 q = (~(u128)0) / M;      // floor(2^128 / M): M is not a power of two
  static constexpr uint64_t c0 = (uint64_t)q, c1 = (uint64_t)(q >> 64);
};
static constexpr uint64_t Q0 = 268369921ULL, Q1 = 249561089ULL, Q = Q0 * Q1;
#ifdef VF_SYMBOLIC
namespace psi::spiral::arith {
// contract of BarrettRawU128 (its body is proved against it in unit arith, harnesses bar128_*)
static uint64_t BarrettRawU128(uint128_t val, uint64_t cr0, uint64_t cr1, uint64_t modulus) {
  vf::check((modulus == Q && cr0 == Cr<Q>::c0 && cr1 == Cr<Q>::c1) || (modulus == Q0 && cr0 == Cr<Q0>::c0 && cr1 == Cr<Q0>::c1) ||
            (modulus == Q1 && cr0 == Cr<Q1>::c0 && cr1 == Cr<Q1>::c1), "Barrett constants belong to the modulus");
  uint64_t r = vf_any_(0, 2 * modulus - 1), m = (uint64_t)(val % modulus);
  vf::assume(r == m || r == m + modulus);
  return r;
}
}
#endif
#include "gen.h"
#include "gen_params.h"
using namespace psi::spiral;
template <uint64_t M> static void red() {
  u128 x = ((u128)vf::u64("hi") << 64) | vf::u64("lo");
  vf::check(arith::BarrettReductionU128Raw(x, Cr<M>::c0, Cr<M>::c1, M) == (uint64_t)(x % M), "128-bit reduction equals the remainder");
  vf::cover("end");
}
template <uint64_t M> static void mulm() {
  uint64_t a = vf::u64("a"), b = vf::u64("b");
  vf::check(arith::MultiplyUintMod(a, b, M, Cr<M>::c0, Cr<M>::c1) == (uint64_t)((u128)a * b % M), "modular product");
  vf::cover("end");
}
VF_HARNESS(red_q) { red<Q>(); }
VF_HARNESS(red_q0) { red<Q0>(); }
VF_HARNESS(red_q1) { red<Q1>(); }
VF_HARNESS(mulm_q) { mulm<Q>(); }
VF_HARNESS(mulm_q0) { mulm<Q0>(); }
VF_HARNESS(crt) {
  std::vector<uint64_t> moduli(2); moduli[0] = Q0; moduli[1] = Q1;
  Params p(2048, moduli, 6.4, PolyMatrixParams(), QueryParams());
  vf::check(p.CrtCount() == 2 && p.Moduli(0) == Q0 && p.Moduli(1) == Q1 && p.Modulus() == Q && p.PolyLenLog2() == 11, "moduli of the parameter set");
  uint64_t x = vf::u64("x", 0, Q0 - 1), y = vf::u64("y", 0, Q1 - 1);
  uint64_t r = p.CrtCompose2(x, y);
  vf::check(r < Q, "composition is below the modulus");
  vf::check(r % Q0 == x, "composition has the given first residue");
  vf::check(r % Q1 == y, "composition has the given second residue");
  std::vector<uint64_t> a(4096); a[5] = x; a[2048 + 5] = y;
  vf::check(p.CrtCompose(a, 5) == r, "composition of one coefficient takes both residues of that coefficient");
  vf::cover("end");
}
static uint64_t centred(uint64_t v, uint64_t from, uint64_t to, bool neg) {   // representative of v (minus from) modulo to
  if (!neg) return v % to;
  uint64_t d = (from - v) % to;
  return d == 0 ? 0 : to - d;
}
template <uint64_t F, uint64_t T> static void recenter1(uint64_t v) {
  vf::check(arith::Recenter(v, F, T) == centred(v, F, T, v >= F / 2), "switching a centred residue to the smaller modulus");
}
VF_HARNESS(recenter) {
  uint64_t v = vf::u64("v", 0, Q - 1);
  recenter1<Q, 12289>(v); recenter1<Q, 61441>(v); recenter1<Q, 65537>(v); recenter1<Q, 520193>(v); recenter1<Q, 786433>(v); recenter1<Q, 3604481>(v);
  recenter1<Q, 7340033>(v); recenter1<Q, 16515073>(v); recenter1<Q, 33292289>(v);
  vf::cover("end");
}
VF_HARNESS(recenter2) {
  uint64_t v = vf::u64("v", 0, Q - 1);
  recenter1<Q, 67043329>(v); recenter1<Q, 132120577>(v); recenter1<Q, 268369921>(v); recenter1<Q, 469762049>(v); recenter1<Q, 1073479681>(v); recenter1<Q, 2013265921>(v);
  recenter1<Q, 4293918721ULL>(v); recenter1<Q, 8588886017ULL>(v); recenter1<Q, 17175674881ULL>(v); recenter1<Q, 34359214081ULL>(v); recenter1<Q, 68718428161ULL>(v);
  vf::cover("end");
}
VF_HARNESS(recentermod) {
  uint64_t s = vf::u64("small", 1, 1ULL << 62), l = vf::u64("large", 1, 1ULL << 62), v = vf::u64("v", 0, 1ULL << 62);
  vf::may_throw(v >= s);
  vf::assume(s <= l);
  uint64_t r = arith::RecenertMod(v, s, l);
  vf::check(v < s, "residue below its modulus");
  vf::check(r == (v > s / 2 ? l - (s - v) : v), "lifting a centred residue to the larger modulus");
  vf::check(r < l, "below the larger modulus");
  vf::cover("end");
}
// round(c * out / in) to nearest, ties away from zero, of the centred representative c; reduced modulo out
template <uint64_t I, uint64_t O> static void rescale1(uint64_t a) {
  uint64_t m = a % I;
  bool neg = m >= I / 2;
  uint64_t mag = neg ? I - m : m;
  uint64_t q = (uint64_t)(((u128)mag * O + I / 2) / I);
  uint64_t w = q % O;
  uint64_t expect = neg ? (w ? O - w : 0) : w;
  vf::check(arith::Rescale(a, I, O) == expect, "rounding a residue to the smaller modulus");
}
VF_HARNESS(rescale) {
  uint64_t a = vf::u64("a");
  rescale1<Q, 1024>(a); rescale1<Q, 786433>(a); rescale1<Q, 3604481>(a); rescale1<Q, 7340033>(a);
  vf::cover("end");
}
VF_HARNESS(rescale2) {
  uint64_t a = vf::u64("a");
  rescale1<Q, 12289>(a); rescale1<Q, 61441>(a); rescale1<Q, 65537>(a); rescale1<Q, 268369921>(a); rescale1<Q, 68718428161ULL>(a); rescale1<Q, 64>(a);
  vf::cover("end");
}
VF_HARNESS(uintnum) {
  uint64_t n = vf::u64("n", 0, 1ULL << 48), k = vf::u64("k", 1, 1ULL << 12);
  uint64_t r = arith::UintNum(n, k);
  vf::check(r * k >= n && (r == 0 ? n == 0 : (r - 1) * k < n), "number of words needed");
  vf::cover("end");
}

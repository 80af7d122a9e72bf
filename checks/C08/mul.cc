#include <cstring>
#include <variant>
#include <vector>
#include <array>
#include <ostream>
#include "vf.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
namespace yacl { bool vf_has_avx2 = false; }
#include "gen.h"
using namespace psi::rr22::okvs;
using u128 = unsigned __int128;
// the mathematical product in GF(2)[x] / (x^128 + x^7 + x^2 + x + 1), Horner's rule from the top coefficient of a
static inline u128 spec(u128 a, u128 b) {
  u128 z = 0;
  for (int i = 127; i >= 0; i--) {
    z = (z << 1) ^ ((z >> 127) ? (u128)0x87 : (u128)0);
    z ^= ((a >> i) & 1) ? b : (u128)0;
  }
  return z;
}
static u128 in(const char* h, const char* l) { uint64_t x = vf::u64(h), y = vf::u64(l); return ((u128)x << 64) | y; }
static u128 val(const yacl::block& b) { uint64_t w[2]; memcpy(w, &b, 16); return ((u128)w[1] << 64) | w[0]; }
VF_HARNESS(portable) {
  u128 a = in("a1", "a0"), b = in("b1", "b0");
  vf::check(cc_gf128Mul(a, b) == spec(a, b), "portable multiplication is the field product");
  vf::cover("end");
}
VF_HARNESS(clmul) {
  u128 a = in("a1", "a0"), b = in("b1", "b0");
  yacl::block x((uint64_t)(a >> 64), (uint64_t)a), y((uint64_t)(b >> 64), (uint64_t)b), lo, hi;
  mm_gf128Mul(x, y, lo, hi);
  vf::check(val(mm_gf128Reduce(lo, hi)) == spec(a, b), "carry-less multiplication and reduction give the field product");
  vf::cover("end");
}
static u128 get(Galois128 g) { return g.get<uint128_t>(0); }
template <bool AVX> static void api() {
  yacl::vf_has_avx2 = AVX;
  u128 a = in("a1", "a0"), b = in("b1", "b0");
  Galois128 x(a), y((uint64_t)(b >> 64), (uint64_t)b);
  vf::check(get(x) == a && get(y) == b, "an element holds the 128 bits it was made of");
  vf::check(get(x.Mul(y)) == spec(a, b), "Mul is the field product");
  vf::check(get(x * y) == spec(a, b), "operator* is the field product");
  vf::check(get(x * b) == spec(a, b), "operator* with a 128-bit integer is the field product");
  vf::cover("end");
}
VF_HARNESS(api_portable) { api<false>(); }
VF_HARNESS(api_clmul) { api<true>(); }

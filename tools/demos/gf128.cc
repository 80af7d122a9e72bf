// extract: gen.h psi/algorithm/rr22/okvs/galois128.h Galois128,Galois128Type,cc_gf128Mul
// extract: gen.h psi/algorithm/rr22/okvs/galois128.cc mm_gf128Mul,mm_gf128Reduce,cc_gf128Mul,Galois128::Galois128,Galois128::Mul
// flags: -mpclmul -msse4.1
#include <array>
#include <cstdio>
#include <cstring>
#include <ostream>
#include <variant>
#include <vector>
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
namespace yacl { bool vf_has_avx2 = false; }
#include "gen.h"
using namespace psi::rr22::okvs;
using u128 = unsigned __int128;
static u128 spec(u128 a, u128 b) {
  u128 z = 0;
  for (int i = 127; i >= 0; i--) { z = (z << 1) ^ ((z >> 127) ? (u128)0x87 : (u128)0); z ^= ((a >> i) & 1) ? b : (u128)0; }
  return z;
}
int main() {
  uint64_t x = 88172645463325252ULL;
  auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
  for (int i = 0; i < 100000; i++) {
    u128 a = ((u128)rnd() << 64) | rnd(), b = ((u128)rnd() << 64) | rnd();
    for (bool avx : {false, true}) {
      yacl::vf_has_avx2 = avx;
      Galois128 p(a), q(b);
      if (p.Mul(q).get<uint128_t>(0) != spec(a, b)) { printf("product %d wrong, carry-less path %d\n", i, (int)avx); return 1; }
    }
  }
  return 0;
}

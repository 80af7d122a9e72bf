#include <cstdio>
#include "psi/algorithm/spiral/arith/arith.h"
using namespace psi::spiral::arith;
int main() {
  uint64_t x = 88172645463325252ULL;
  for (uint64_t m : {268369921ULL, 249561089ULL, 268369921ULL * 249561089ULL}) {
    auto [c0, c1] = GetBarrettCrs(m);
    for (int i = 0; i < 3000000; i++) {
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      uint64_t a = (i & 1) ? x : (x / m) * m;
      if (BarrettRawU64(a, c1, m) != a % m) { printf("BarrettRawU64(%llu, %llu) wrong\n", (unsigned long long)a, (unsigned long long)m); return 1; }
      unsigned __int128 v = (unsigned __int128)(x % m) * ((x * 0x9E3779B97F4A7C15ULL) % m);
      if (BarrettReductionU128Raw(v, c0, c1, m) != (uint64_t)(v % m)) { printf("BarrettReductionU128Raw wrong for modulus %llu\n", (unsigned long long)m); return 1; }
    }
  }
  return 0;
}

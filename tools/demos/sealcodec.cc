// extract: gen.h psi/algorithm/sealpir/seal_pir.cc BytesToCoeffs,CoeffsToBytes
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <vector>
#include "gsl/span"
using namespace std;
#include "gen.h"
int main() {
  for (uint32_t logt : {12, 16, 20, 24, 33}) for (uint32_t n : {1u, 2u, 3u, 7u, 11u, 64u, 255u, 8191u, 8192u, 9001u, 70001u}) {
    vector<uint8_t> b(n); for (uint32_t i = 0; i < n; i++) b[i] = 37 * i + 1 + (i >> 7);
    auto c = psi::sealpir::BytesToCoeffs(logt, gsl::span<uint8_t>(b.data(), b.data() + n));
    vector<uint8_t> o(n); psi::sealpir::CoeffsToBytes(logt, c, o, n);
    if (o != b) { printf("row of %u bytes, %u bits per coefficient: decoded row differs\n", n, logt); return 1; }
  }
  return 0;
}

// extract: gen.h psi/algorithm/spiral/arith/arith.h UintNum
// extract: gen.h psi/algorithm/spiral/util.cc ConvertBytesToCoeffs,ConvertCoeffsToBytes
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "gen.h"
int main() {
  for (size_t L : {4, 6, 8, 16}) for (size_t n : {12, 24, 240, 4800, 480000}) {
    std::vector<uint8_t> b(n); for (size_t i = 0; i < n; i++) b[i] = 41 * i + 3 + (i >> 6);
    auto c = psi::spiral::util::ConvertBytesToCoeffs(L, 0, n, b);
    for (auto x : c) if (x >> L) { printf("coefficient too large\n"); return 1; }
    auto o = psi::spiral::util::ConvertCoeffsToBytes(c, L);
    for (size_t i = 0; i < n; i++) if (o[i] != b[i]) { printf("byte %zu of %zu differs at %zu bits per coefficient\n", i, n, L); return 1; }
  }
  return 0;
}

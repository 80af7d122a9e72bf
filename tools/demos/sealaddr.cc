// extract: gen.h psi/algorithm/sealpir/seal_pir.cc PlaintextsPerDb,ElementsPerPtxt
#include <cmath>
#include <cstdint>
#include <cstdio>
#include "yacl/base/exception.h"
using namespace std;
#include "gen.h"
int main() {
  for (uint64_t n : {10ULL, 1000ULL, (1ULL << 24) + 1, (1ULL << 26) + 3, (1ULL << 30) + 1}) for (uint64_t e : {1, 8, 288, 20480}) {
    uint64_t per = psi::sealpir::ElementsPerPtxt(20, 8192, e), p = psi::sealpir::PlaintextsPerDb(20, 8192, n, e);
    if (p * per < n) { printf("%llu rows of %llu bytes: %llu plaintexts hold only %llu rows\n", (unsigned long long)n, (unsigned long long)e, (unsigned long long)p, (unsigned long long)(p * per)); return 1; }
  }
  return 0;
}

// flags: -mpclmul -msse4.2 -labsl_strings -labsl_throw_delegate -labsl_base
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstring>
#include <memory>
#include <ostream>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "spdlog/spdlog.h"
#include "libdivide.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/math/gadget.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
#include "absl/strings/escaping.h"
namespace yacl { bool vf_has_avx2 = false; }
using u128 = unsigned __int128;
#include "psi/algorithm/rr22/okvs/galois128.cc"
#include "psi/algorithm/rr22/okvs/aes_crhash.cc"
#include "psi/algorithm/rr22/okvs/paxos_hash.cc"
using namespace psi::rr22::okvs;
static uint64_t x = 88172645463325252ULL;
static uint64_t rnd() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static u128 rnd2() { u128 a = rnd(); return (a << 64) | rnd(); }
template <class T> static int run(uint64_t w, uint64_t size, bool avx) {
  yacl::vf_has_avx2 = avx;
  PaxosHash<T> p;
  p.init(rnd(), w, size);
  std::vector<u128> h(32);
  for (auto& a : h) a = rnd2();
  std::vector<T> rows(32 * w), row(w);
  p.BuildRow32(absl::MakeSpan(h), absl::MakeSpan(rows));
  for (int k = 0; k < 32; k++) {
    p.BuildRow(h[k], absl::MakeSpan(row));
    for (uint64_t i = 0; i < w; i++) {
      if (rows[k * w + i] != row[i]) { printf("the batch differs from the single row: weight %lu size %lu\n", w, size); return 1; }
      if (!(row[i] < size)) { printf("position out of range: weight %lu size %lu\n", w, size); return 1; }
      for (uint64_t j = 0; j < i; j++)
        if (w == 3 ? row[j] == row[i] : !(row[j] < row[i])) { printf("positions not distinct and increasing: weight %lu size %lu\n", w, size); return 1; }
    }
  }
  return 0;
}
int main() {
  for (int it = 0; it < 3000; it++)
    for (bool avx : {false, true}) {
      uint64_t w = 1 + rnd() % 12, wb = it % 2 ? w : 3;
      if (run<uint8_t>(wb, wb + rnd() % (200 - wb), avx) || run<uint16_t>(wb, wb + rnd() % 60000, avx) || run<uint32_t>(wb, wb + rnd() % (it % 3 ? 50 : 4000000000), avx) ||
          run<uint64_t>(wb, wb + rnd() % (it % 3 ? 50 : 1ULL << 61), avx) || run<u128>(wb, wb + rnd() % (it % 3 ? 50 : 1ULL << 61), avx))
        return 1;
    }
  AesCrHash c(rnd2());
  for (uint64_t n = 0; n < 100; n++) {
    std::vector<u128> a(n), b(n);
    for (auto& v : a) v = rnd2();
    c.Hash(absl::Span<const u128>(a.data(), n), absl::MakeSpan(b));
    for (uint64_t k = 0; k < n; k++)
      if (b[k] != c.Hash(a[k])) { printf("block %lu of %lu is hashed differently in a batch\n", k, n); return 1; }
  }
  return 0;
}

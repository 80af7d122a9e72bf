#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <ostream>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "spdlog/spdlog.h"
#include "vf_vec.h"
#include "libdivide.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/math/gadget.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
#include "absl/strings/escaping.h"
#include "vf_memory.h"
namespace yacl { bool vf_has_avx2 = false; }
using u128 = unsigned __int128;
#include "psi/algorithm/rr22/okvs/galois128.cc"
#include "psi/algorithm/rr22/okvs/aes_crhash.cc"
#include "psi/algorithm/rr22/okvs/paxos_hash.cc"
using namespace psi::rr22::okvs;
static u128 in(const char* h, const char* l) { uint64_t x = vf::u64(h), y = vf::u64(l); return ((u128)x << 64) | y; }
// largest size the index type can number (the batch path compares as signed 64-bit numbers)
template <class T> static constexpr uint64_t limit() { return sizeof(T) >= 8 ? (1ULL << 62) : (1ULL << (8 * sizeof(T) % 64)); }
template <class T> static PaxosHash<T> make(uint64_t weight) {
  PaxosHash<T> p;
#ifdef VF_SYMBOLIC
  uint64_t size = vf::u64("size", weight, limit<T>());
#else
  uint64_t size = vf::u64("size", weight, limit<T>());
  if (!vf::N().replay && vf::N().next() % 2) { size = weight + vf::N().next() % 6; vf::N().log.back().second[0] = size; }
#endif
  p.init(vf::u64("seed"), weight, size);
  vf::check(p.sparse_size == size && p.weight == weight, "the hash is made for the requested size and weight");
  return p;
}
// weight 3: one row
template <class T> static void one3() {
  auto p = make<T>(3);
  u128 h = in("hi", "lo");
  T row[3];
  p.BuildRow(h, absl::MakeSpan(row, 3));
  vf::check(row[0] < p.sparse_size && row[1] < p.sparse_size && row[2] < p.sparse_size, "a row's positions are below the size");
  vf::check(row[0] != row[1] && row[0] != row[2] && row[1] != row[2], "a row's positions are distinct");
  vf::cover("end");
}
#define IN(k) h[k] = in("hi" #k, "lo" #k);
#define ALL IN(0) IN(1) IN(2) IN(3) IN(4) IN(5) IN(6) IN(7) IN(8) IN(9) IN(10) IN(11) IN(12) IN(13) IN(14) IN(15) IN(16) IN(17) IN(18) IN(19) IN(20) IN(21) IN(22) IN(23) IN(24) IN(25) IN(26) IN(27) IN(28) IN(29) IN(30) IN(31)
// weight 3, vector instructions: 32 rows at once
template <class T> static void batch3() {
  yacl::vf_has_avx2 = true;
  auto p = make<T>(3);
  u128 h[32];
  ALL
  T rows[96], row[3];
  p.BuildRow32(absl::MakeSpan(h, 32), absl::MakeSpan(rows, 96));
  vf::may_throw(true);  // BuildRow does not throw: harness one3
  for (int k = 0; k < 32; k++) {
    p.BuildRow(h[k], absl::MakeSpan(row, 3));
    vf::check(rows[3 * k] == row[0] && rows[3 * k + 1] == row[1] && rows[3 * k + 2] == row[2], "a row built in a batch equals the row built alone");
  }
  vf::cover("end");
}
// hashing any number of blocks
VF_HARNESS(aes) {
  uint64_t n = vf::len("n", 0, 1ULL << 40, 40);
  std::vector<u128> a = vf::vec<u128>("in", n, 0, ~0ULL), b(n);
  vf::name(b, "out");
  AesCrHash c(in("key_hi", "key_lo"));
  c.Hash(absl::Span<const u128>(a.data(), n), absl::MakeSpan(b));
  VF_FORALL(k, 0, n) vf::check(b[k] == (c.Encrypt(a[k]) ^ a[k]) && b[k] == c.Hash(a[k]), "the hash of a block is its encryption plus the block, whatever the batch");
  vf::cover("end");
}
#define TYPES(X) X(u8, uint8_t) X(u16, uint16_t) X(u32, uint32_t) X(u64, uint64_t) X(u128, unsigned __int128)
#define H3(n, t) VF_HARNESS(one3_##n) { one3<t>(); } VF_HARNESS(batch3_##n) { batch3<t>(); }
TYPES(H3)

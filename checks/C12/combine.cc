#include <algorithm>
#include <memory>
#include <vector>
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace psi::pir {
#include "ns_gen.h"
}
#include "gen.h"
using psi::pir::RawDatabase;

// Combine: the partitions of one row, glued back together
VF_HARNESS(combine) {
  uint64_t n = vf::len("parts", 1, 1ULL << 20, 7);
  std::vector<std::vector<uint8_t>> data = vf::rows<uint8_t>("data", n, 1ULL << 24, 9);
  uint64_t L = vf::u64("row_byte_len", 0, 1ULL << 44);
  uint64_t m = data[0].size();
  vf::assume(L >= (n - 1) * m);   // the last partition is the only padded one
  uint64_t p = vf::u64("p", 0, n - 1), q = vf::u64("q", 0, 1ULL << 24);
  vf::assume(q < data[p].size() && p * m + q < L);
  vf::may_throw(true);   // mismatched partitions are rejected
  std::vector<uint8_t> out = RawDatabase::Combine(data, L);
  vf::check(data[p].size() == m && L <= n * m, "mismatched partition lengths are rejected");
  vf::check(out.size() == L, "the combined row has the row's length");
  vf::check(out[p * m + q] == data[p][q], "byte q of partition p is byte p*m+q of the row");
  vf::cover("end");
}

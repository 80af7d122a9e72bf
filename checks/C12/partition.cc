#include <algorithm>
#include <memory>
#include <vector>
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#define private public
#include "gen_h.h"
#undef private
using psi::pir::RawDatabase;
#ifdef VF_SYMBOLIC
template <> struct std::vf_nest<RawDatabase> : std::true_type {
  VF_AI static void decl(RawDatabase* b) {
    constexpr uint64_t o = __builtin_offsetof(RawDatabase, db_);
    vf_rows_(b, o, sizeof(std::vector<uint8_t>));
    std::vf_row<std::vector<uint8_t>>::decl((std::vector<uint8_t>*)vf_row0_(b, o));
  }
  VF_AI static void copy(RawDatabase* d, const RawDatabase* s, size_t n) {
    vf::check(n <= 1, "model: element-wise copy of one database");
    if (n) d[0] = s[0];
  }
};
#endif
#include "gen.h"

static RawDatabase input(uint64_t R, uint64_t L) {
  RawDatabase db;
  db.rows_ = R;
  db.row_byte_len_ = L;
#ifdef VF_SYMBOLIC
  db.db_ = vf::rows<uint8_t>("db", R, 1ULL << 30, 0);
#else
  db.db_.assign(R, {});
  for (auto& r : db.db_) { r.resize(L); for (auto& b : r) b = vf::N().next(); }
#endif
  return db;
}

// Partition: every byte of every row lands in exactly its partition, the last one zero padded
VF_HARNESS(partition) {
  uint64_t R = vf::len("rows", 1, 1ULL << 30, 5), L = vf::len("row_byte_len", 1, 1ULL << 30, 40);
  uint64_t P = vf::len("part_len", 1, 1ULL << 30, 45);
  RawDatabase db = input(R, L);
  vf::assume(db.db_.size() == R);
  uint64_t r = vf::u64("r", 0, R - 1), p = vf::u64("p", 0, L - 1), q = vf::u64("q", 0, P - 1);
#ifdef VF_SYMBOLIC
  vf_rowlen_(&db.db_[0], L);   // class invariant (ValidateDb): every row has row_byte_len_ bytes
#endif
  std::vector<RawDatabase> out = db.Partition(P);
  uint64_t np = out.size(), w = L <= P ? L : P;
  vf::check(L <= P ? np == 1 : ((np - 1) * P < L && L <= np * P), "as many partitions as the row needs");
  vf::assume(p < np && q < w);
  vf::check(out[p].Rows() == R && out[p].Db().size() == R, "every partition has every row");
  vf::check(out[p].RowByteLen() == w && out[p].At(r).size() == w, "every partition row has the partition length");
  if (p * P + q < L) vf::check(out[p].Db()[r][q] == db.Db()[r][p * P + q], "byte q of partition p is byte p*len+q of the row");
  else vf::check(out[p].Db()[r][q] == 0, "the padding is zero");
  vf::cover("end");
}

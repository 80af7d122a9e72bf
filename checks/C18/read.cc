#include "env.h"
#ifdef VF_SYMBOLIC
// the wrapped provider: its next batch has m items; duplicate counts for some of them
static uint64_t g_m, g_d, g_calls, g_first;
namespace psi {
std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> IBasicBatchProvider::ReadNextBatchWithDupCnt() {
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
  g_calls++;
  if (g_calls > 1 || !g_first) return r;
  r.first.resize(g_m);
  vf_input_arr_(r.first.data(), "data", 64, g_m, 0, 1ULL << 62);
  r.second.v.resize(g_d);
  vf_input_arr_(r.second.v.data(), "pairs", 32, g_d, 0, ~0U);
  if (g_first) vf_axiom_("keys");
  return r;
}
}
#define private public
#include "mem.h"
#undef private
using P = psi::SimpleShuffledBatchProvider;
#include "gen.h"
// the constructor reads the first batch, and one more ahead
VF_HARNESS(read) {
  g_m = vf::u64("items", 0, (1ULL << 31) - 1);
  g_d = vf::u64("counts", 0, (1ULL << 31) - 1);
  uint64_t X = vf::u64("X", 0, 1ULL << 32);
  psi::IBasicBatchProvider prov;
  g_calls = 0;
  g_first = 1;
  auto sp = std::shared_ptr<psi::IBasicBatchProvider>(std::shared_ptr<void>(), &prov);
  P p(sp, 1);
  auto& r = p.buffer_;
  vf::check(r.items.size() == g_m && r.dup_cnt.size() == g_m && r.shuffled_indices.size() == g_m, "every item comes with an index and a duplicate count");
  VF_FORALL(k, 0, g_m) {
    vf::check(r.items[k].id == vf_uf1_("item", k), "the items are those of the wrapped provider");
    vf::check(r.dup_cnt[k] == vf_uf1_("dup", k), "an item gets the duplicate count the wrapped provider gives for it, else zero");
    vf::check(r.shuffled_indices[k] < g_m, "shuffled indices are positions in the batch");
  }
  vf::check(vf_count_("isX", r.shuffled_indices.v.data(), g_m) == (X < g_m ? 1 : 0), "every position is shuffled to exactly one place");
  vf::check(g_calls == 2, "one batch is read ahead");
  vf::cover("end");
}
// later reads hand out the batch read ahead
VF_HARNESS(ahead) {
  g_m = g_d = g_first = 0;
  psi::IBasicBatchProvider prov;
  g_calls = 0;
  auto sp = std::shared_ptr<psi::IBasicBatchProvider>(std::shared_ptr<void>(), &prov);
  P p(sp, 1);
  uint64_t n = vf::u64("size", 0, (1ULL << 31) - 1), c = g_calls;
  auto& f = p.read_future_.v;
  f.items.resize(n);
  f.dup_cnt.resize(n);
  f.shuffled_indices.v.resize(n);
  f.shuffled_indices.h = 0;
  vf_input_arr_(f.items.data(), "rawitems", 64, n, 0, 1ULL << 62);
  vf_input_arr_(f.dup_cnt.data(), "rawdups", 32, n, 0, ~0U);
  vf_input_arr_(f.shuffled_indices.v.data(), "rawperm", 64, n, 0, 1ULL << 32);
  vf_axiom_("raw");
  auto r = p.ReadAndShuffle();
  vf::check(r.items.size() == n && r.dup_cnt.size() == n && r.shuffled_indices.size() == n, "a read hands out the batch read ahead");
  VF_FORALL(k, 0, n) vf::check(r.items[k].id == vf_uf1_("item", k) && r.dup_cnt[k] == vf_uf1_("dup", k) && r.shuffled_indices[k] == vf_uf1_("perm", k), "a read hands out the batch read ahead");
  vf::check(g_calls == c + (n > 0), "the next batch is read ahead unless the stream has ended");
  vf::cover("end");
}
#else
VF_HARNESS(read) { vf::cover("end"); }   // native runs: harness simple
VF_HARNESS(ahead) { vf::cover("end"); }
#endif

#include "env.h"
#ifdef VF_SYMBOLIC
// the stream of batches: batch number j starts at position base(j) of the stream; ReadAndShuffle by contract (harness read)
static uint64_t g_base, g_m;
#endif
#define private public
#include "mem.h"
#undef private
using P = psi::SimpleShuffledBatchProvider;
#ifdef VF_SYMBOLIC
namespace psi {
P::RawBatch P::ReadAndShuffle() {
  vf::check(g_m != 0, "nothing is read after the end");
  g_base += g_m;
  g_m = vf_any_(0, 1ULL << 32);
  RawBatch r;
  r.items.resize(g_m);
  r.dup_cnt.resize(g_m);
  r.shuffled_indices.resize(g_m);
  vf_input_arr_(r.items.data(), "rawitems", 64, g_m, 0, 1ULL << 62);
  vf_input_arr_(r.dup_cnt.data(), "rawdups", 32, g_m, 0, ~0U);
  vf_input_arr_(r.shuffled_indices.v.data(), "rawperm", 64, g_m, 0, 1ULL << 32);
  vf_ghost_(g_base, "newbase");
  vf_ghost_(g_m, "newcount");
  vf_axiom_("batch");
  return r;
}
}
#include "gen.h"
#else
namespace psi {
// arbitrary batch sizes and duplicates
class Feed : public IBasicBatchProvider {
 public:
  std::vector<std::vector<std::string>> b;
  std::vector<std::unordered_map<uint32_t, uint32_t>> d;
  size_t q = 0;
  bool over = false;
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    if (q >= b.size()) { over = true; return {}; }
    q++;
    return {b[q - 1], d[q - 1]};
  }
  size_t batch_size() const override { return 1; }
};
}
#include "all.h"
#endif
VF_HARNESS(simple) {
#ifdef VF_SYMBOLIC
  // an arbitrary state: the buffer is a batch of m items starting at stream position base, the first h of its m shuffled
  // indices are used up, and the batch index counts the items delivered
  uint64_t m = vf::u64("count", 0, 1ULL << 32), h = vf::u64("head", 0, 1ULL << 32), base = vf::u64("base", 0, 1ULL << 40), b = vf::u64("batch", 1, 1ULL << 40);
  vf::assume(h <= m);
  auto prov = std::shared_ptr<psi::IBasicBatchProvider>();
  g_base = 0;
  g_m = 1;
  P p(prov, b);
  bool ended = vf::flag("ended");
  p.read_end_ = ended;
  g_base = base;
  g_m = m;
  vf::assume(ended == (m == 0) || !ended);
  if (!ended) vf::assume(m > 0);
  p.buffer_.items.resize(m);
  p.buffer_.dup_cnt.resize(m);
  p.buffer_.shuffled_indices.v.resize(m);
  p.buffer_.shuffled_indices.h = h;
  vf_input_arr_(p.buffer_.items.data(), "items", 64, m, 0, 1ULL << 62);
  vf_input_arr_(p.buffer_.dup_cnt.data(), "dups", 32, m, 0, ~0U);
  vf_input_arr_(p.buffer_.shuffled_indices.v.data(), "perm", 64, m, 0, 1ULL << 32);
  vf_axiom_("start");
  vf_name_(&g_base, "gbase");
  vf_name_(&g_m, "gcount");
  p.shuffle_base_index_ = base;
  p.base_index_ = base + h;
  vf_name_(&p.shuffle_base_index_, "sbase");
  vf_name_(&p.base_index_, "sidx");
  vf_name_(&p.buffer_.shuffled_indices.h, "shead");
  auto r = p.ReadNextShuffledBatch();
  uint64_t n = r.batch_items.size();
  vf::check(r.batch_indices.size() == n && r.shuffled_indices.size() == n && r.dup_cnts.size() == n, "every item comes with its indices and duplicate count");
  vf::check(n <= b, "a batch holds at most the configured number of items");
  vf::check(n == b || p.read_end_, "a short batch is the last one");
  if (ended) vf::check(n == 0, "after the end batches are empty");
  VF_FORALL(k, 0, n) {
    vf::check(r.batch_indices[k] == base + h + k, "batch indices count the items delivered");
    vf::check(r.shuffled_indices[k] == vf_uf1_("order", base + h + k), "items are delivered in the shuffled order, none twice, none left out");
    vf::check(r.batch_items[k].id == vf_uf1_("stream", r.shuffled_indices[k]), "the shuffled index of an item is its position in the input");
    vf::check(r.dup_cnts[k] == vf_uf1_("dup", r.shuffled_indices[k]), "an item comes with its own duplicate count");
  }
  if (!p.read_end_) {
    vf::check(p.base_index_ == base + h + n && p.shuffle_base_index_ == g_base && p.base_index_ == g_base + p.buffer_.shuffled_indices.h, "the next batch goes on where this one ends");
    vf::check(p.buffer_.items.size() == g_m && p.buffer_.shuffled_indices.v.size() == g_m, "the next batch goes on where this one ends");
  }
#else
  auto f = std::make_shared<psi::Feed>();
  uint64_t nb = vf::len("batches", 0, 5, 5), b = vf::u64("size", 1, 9);
  std::vector<std::string> all;
  std::vector<uint32_t> dup;
  for (uint64_t i = 0; i < nb; i++) {
    uint64_t c = 1 + vf::N().next() % 7;
    std::vector<std::string> v(c);
    std::unordered_map<uint32_t, uint32_t> d;
    for (uint64_t k = 0; k < c; k++) {
      v[k] = std::to_string(vf::N().next() % 20);
      if (vf::N().next() % 2) d[k] = vf::N().next() % 5;
      all.push_back(v[k]);
      dup.push_back(d.count(k) ? d[k] : 0);
    }
    f->b.push_back(v);
    f->d.push_back(d);
  }
  P p(std::shared_ptr<psi::IBasicBatchProvider>(f), b);
  std::vector<int> seen(all.size());
  uint64_t q = 0, n = b;
  for (int it = 0; it < 60; it++) {
    bool last = n < b;
    auto r = p.ReadNextShuffledBatch();
    n = r.batch_items.size();
    vf::check(r.batch_indices.size() == n && r.shuffled_indices.size() == n && r.dup_cnts.size() == n, "every item comes with its indices and duplicate count");
    vf::check(n <= b, "a batch holds at most the configured number of items");
    if (last) vf::check(n == 0, "after the end batches are empty");
    for (uint64_t k = 0; k < n; k++) {
      vf::check(r.batch_indices[k] == q + k, "batch indices count the items delivered");
      uint64_t s = r.shuffled_indices[k];
      vf::check(s < all.size() && !seen[s], "items are delivered in the shuffled order, none twice, none left out");
      seen[s] = 1;
      vf::check(r.batch_items[k] == all[s], "the shuffled index of an item is its position in the input");
      vf::check(r.dup_cnts[k] == dup[s], "an item comes with its own duplicate count");
    }
    q += n;
    if (n < b) vf::check(q == all.size(), "a short batch is the last one");
  }
#endif
  vf::cover("end");
}

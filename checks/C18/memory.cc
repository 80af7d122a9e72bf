#include "env.h"
#define private public
#include "mem.h"
#undef private
#include "gen.h"
using P = psi::MemoryBatchProvider;
#ifdef VF_SYMBOLIC
static std::vector<std::string> strings(const char* nm, uint64_t n) {
  std::vector<std::string> v(n);
  vf_input_arr_(v.data(), nm, 64, n, 0, 1ULL << 62);
  return v;
}
#else
static std::vector<std::string> strings(const char* nm, uint64_t n) {
  std::vector<std::string> v(n);
  for (auto& x : v) x = std::to_string(vf::N().next() % 50);
  return v;
}
#endif
// every method from an arbitrary state of the class invariant: the cursor is at most the number of items
#define STATE(shuffle)                                                                        \
  uint64_t n = vf::len("items", 0, 1ULL << 40, 9), b = vf::u64("batch", 0, ~0ULL);             \
  if (vf::flag("small")) vf::assume(b <= 10);                                                 \
  std::vector<std::string> items = strings("data", n), labels = strings("labels", n);         \
  P p(items, b, labels, shuffle);                                                             \
  uint64_t c = vf::u64("cursor", 0, n);                                                       \
  p.cursor_index_ = c;                                                                        \
  uint64_t m = b < n - c ? b : n - c;
VF_HARNESS(batch) {
  STATE(false)
  auto r = p.ReadNextBatch();
  vf::check(r.size() == m, "a batch holds the configured number of items, the last one what is left");
  VF_FORALL(k, 0, m) vf::check(r[k] == items[c + k], "a batch holds the items that follow the batch before");
  vf::check(p.cursor_index_ == c + m, "the next batch starts after this one");
  vf::check(p.batch_size() == b, "the batch size is the configured one");
  vf::cover("end");
}
VF_HARNESS(next) {
  STATE(false)
  uint64_t w = vf::u64("size", 0, ~0ULL);
  if (vf::flag("few")) vf::assume(w <= 10);
  uint64_t q = w < n - c ? w : n - c;
  auto r = p.ReadNext(w);
  vf::check(r.size() == q, "a read returns the number of items asked for, the last one what is left");
  VF_FORALL(k, 0, q) vf::check(r[k].buf == items[c + k] && r[k].cnt == 1, "a read returns the items that follow the read before, each once");
  vf::check(p.cursor_index_ == c + q, "the next read starts after this one");
  vf::cover("end");
}
VF_HARNESS(all) {
  STATE(false)
  auto r = p.ReadAll();
  vf::check(r.size() == n, "reading everything returns every item");
  VF_FORALL(k, 0, n) vf::check(r[k].buf == items[k] && r[k].cnt == 1, "reading everything returns the items in order");
  vf::check(p.cursor_index_ == c, "reading everything does not move the cursor");
  vf::cover("end");
}
VF_HARNESS(labeled) {
  STATE(false)
  vf::assume(n > 0);
  auto r = p.ReadNextLabeledBatch();
  vf::check(r.first.size() == m && r.second.size() == m, "a labeled batch holds the configured number of items and labels");
  VF_FORALL(k, 0, m) vf::check(r.first[k] == items[c + k] && r.second[k] == labels[c + k], "each item comes with its label");
  vf::check(p.cursor_index_ == c + m, "the next batch starts after this one");
  vf::cover("end");
}
VF_HARNESS(ctor) {
  uint64_t n = vf::len("items", 0, (1ULL << 31) - 1, 9), b = vf::u64("batch", 0, ~0ULL), X = vf::u64("X", 0, 1ULL << 41);
  std::vector<std::string> items = strings("data", n), labels;
  P p(items, b, labels, true);
  auto& s = p.buffer_shuffled_indices_;
  vf::check(s.size() == n && p.cursor_index_ == 0, "reading starts at the first item");
  VF_FORALL(k, 0, n) vf::check(s[k] < n, "shuffled indices are indices of items");
#ifdef VF_SYMBOLIC
  vf::check(vf_count_("isX", s.data(), n) == (X < n ? 1 : 0), "shuffled indices hold every index exactly once");
#else
  vf::check((uint64_t)std::count(s.begin(), s.end(), X) == (X < n ? 1 : 0), "shuffled indices hold every index exactly once");
#endif
  P q(items, b, labels, false);
  vf::check(q.buffer_shuffled_indices_.size() == 0, "nothing is shuffled when not asked for");
  vf::cover("end");
}
VF_HARNESS(shuffled) {
  uint64_t n = vf::len("items", 1, 1ULL << 40, 9), b = vf::u64("batch", 0, ~0ULL);
  if (vf::flag("small")) vf::assume(b <= 10);
  std::vector<std::string> items = strings("data", n), labels;
  P p(items, b, labels, false);
  p.buffer_shuffled_indices_.resize(n);
  auto& s = p.buffer_shuffled_indices_;
#ifdef VF_SYMBOLIC
  vf_input_arr_(s.data(), "perm", 64, n, 0, 1ULL << 40);
  vf_axiom_("perm");
#else
  for (uint64_t k = 0; k < n; k++) s[k] = vf::N().next() % n;
#endif
  uint64_t c = vf::u64("cursor", 0, n), m = b < n - c ? b : n - c;
  p.cursor_index_ = c;
  auto r = p.ReadNextShuffledBatch();
  vf::check(r.batch_items.size() == m && r.batch_indices.size() == m && r.shuffled_indices.size() == m, "a shuffled batch holds the configured number of items, the last one what is left");
  VF_FORALL(k, 0, m) {
    vf::check(r.batch_indices[k] == c + k, "batch indices count the items delivered");
    vf::check(r.shuffled_indices[k] == s[c + k], "items are delivered in the shuffled order");
    vf::check(r.batch_items[k] == items[r.shuffled_indices[k]], "the shuffled index of an item is its position in the input");
  }
  vf::check(p.cursor_index_ == c + m, "the next batch starts after this one");
  vf::cover("end");
}

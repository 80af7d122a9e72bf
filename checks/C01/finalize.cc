#include "env.h"
// the two on-disk stores, bin by bin; contract of HashBucketCache: LoadBucketItems(b) yields the items written to bin b
struct Store { std::vector<std::vector<Item>> bins; bool flushed = false; };
static Store *g_self, *g_peer;
struct Ghost { uint64_t bin; uint64_t peer_loads; };
static Ghost g;
namespace psi {
class HashBucketEcPointStore {
 public:
  Store* s;
  size_t num_bins() const { return s->bins.size(); }
  void Flush() { s->flushed = true; }
  uint64_t ItemCount() { return 0; }
  std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t b) {
    vf::check(s->flushed, "a store is flushed before its bins are read");
    g.bin = b;
    return s->bins[b];
  }
};
}
#include "gen.h"
using psi::HashBucketEcPointStore;

static std::vector<std::vector<Item>> items(const char* nm, uint64_t nb, uint64_t base, uint64_t stride) {
  std::vector<std::vector<Item>> v(nb);
#ifdef VF_SYMBOLIC
  vf_input_elems_(v.data(), 0, nm, 1ULL << 40);
  vf_field_range_(nm, __builtin_offsetof(Item, base64_data), 64, 0, 1ULL << 60);
  vf_field_range_(nm, __builtin_offsetof(Item, index), 64, 0, 1ULL << 60);
#else
  auto& N = vf::N();
  uint64_t n = N.next() % 9, idx = base;
  for (uint64_t i = 0; i < n; i++) {
    Item it;
    it.base64_data = std::string(1, 'a' + N.next() % 7);
    it.index = idx; idx += stride;
    it.extra_dup_cnt = N.next() % 3;
    v[(uint8_t)it.base64_data[0] % nb].push_back(it);
  }
#endif
  return v;
}
// X: any index value.  valid: it is the index of item (b, j) of the self store.  in: the peer's bin b holds equal data
struct Q { uint64_t X, b, j, w; bool valid, in; uint64_t extra; };
static Q query(Store& S, Store& P, uint64_t nb, bool first) {
  Q q;
#ifdef VF_SYMBOLIC
  q.X = vf::u64("X", 0, 1ULL << 60); q.b = vf::u64("b", 0, nb - 1); q.j = vf::u64("j", 0, 1ULL << 40); q.w = vf::u64("w", 0, 1ULL << 40);
  q.valid = vf::u64("valid", 0, 1); q.in = vf::u64("in", 0, 1);
  if (q.valid) { vf::assume(q.j < S.bins[q.b].size()); vf::assume(S.bins[q.b][q.j].index == q.X); }
  uint64_t D = 0;
  if (q.valid) D = S.bins[q.b][q.j].base64_data.id;
  vf_ghost_(D, "D");
  vf_name_(&g, "ghost");
  if (q.in) { vf::assume(q.w < P.bins[q.b].size()); vf::assume(P.bins[q.b][q.w].base64_data.id == D); }
  vf_axiom_("unique_self_index");
  vf_axiom_("peer_absent");
  uint64_t E = 0;
  if (q.in) E = P.bins[q.b][q.w].extra_dup_cnt;
  q.extra = E;
  vf_ghost_(E, "E");
  if (q.in && first) vf_axiom_("first_peer");
#else
  q.X = vf::u64("X", 0, 12); q.valid = q.in = false; q.b = q.j = q.w = 0;
  for (uint64_t b = 0; b < nb; b++) for (uint64_t j = 0; j < S.bins[b].size(); j++) if (S.bins[b][j].index == q.X) { q.valid = true; q.b = b; q.j = j; }
  if (q.valid) for (uint64_t k = P.bins[q.b].size(); k-- > 0;) if (P.bins[q.b][k].base64_data == S.bins[q.b][q.j].base64_data) { q.in = true; q.w = k; q.extra = P.bins[q.b][k].extra_dup_cnt; }
#endif
  return q;
}
static std::shared_ptr<HashBucketEcPointStore> sp(HashBucketEcPointStore* p) {
  return std::shared_ptr<HashBucketEcPointStore>(std::shared_ptr<void>(), p);
}

// result = exactly the indices of the self items whose data the peer has, once each, in increasing order
VF_HARNESS(indices) {
  uint64_t nb = vf::len("bins", 1, 1ULL << 32, 4);
  Store S{items("self", nb, 1, 1)}, P{items("peer", nb, 0, 1)};
  Q q = query(S, P, nb, false);
#ifdef VF_SYMBOLIC
  vf_watch_(q.X);
#endif
  HashBucketEcPointStore hs{&S}, hp{&P};
  std::vector<uint64_t> r = psi::FinalizeAndComputeIndices(sp(&hs), sp(&hp));
  uint64_t cnt = 0;
#ifdef VF_SYMBOLIC
  cnt = vf_watch_get_(r.data(), r.size());
#else
  for (auto x : r) cnt += x == q.X;
#endif
  vf::check(cnt == (q.valid && q.in ? 1 : 0), "an index is in the result, exactly once, iff the peer has the item's data");
  uint64_t n = r.size();
  if (n > 1) VF_FORALL(k, 0, n - 1) vf::check(r[k] <= r[k + 1], "the result is sorted");
  vf::cover("end");
}

// the writer gets exactly the indices of the self items whose data the peer has, once each, with the peer's duplicate count
VF_HARNESS(written) {
  uint64_t nb = vf::len("bins", 1, 1ULL << 32, 4);
  Store S{items("self", nb, 1, 1)}, P{items("peer", nb, 0, 1)};
  Q q = query(S, P, nb, true);
  psi::IndexWriter w;
#ifdef VF_SYMBOLIC
  w.watch = q.X;
  vf_name_(&w, "writer");
#endif
  HashBucketEcPointStore hs{&S}, hp{&P};
  auto r = psi::FinalizeAndComputeIndices(sp(&hs), sp(&hp), &w);
  uint64_t hits = 0, val = 0;
#ifdef VF_SYMBOLIC
  hits = w.hits, val = w.val;
#else
  for (auto& x : w.recs) if (x.index == q.X) { hits++; val = x.cnt; }
  uint32_t total = 0, inter = 0;
  for (auto& b : P.bins) for (auto& x : b) total += x.extra_dup_cnt + 1;
  for (auto& x : w.recs) inter += x.cnt + 1;
  vf::check(r.first == total, "the peer's total counts every peer item with its duplicates");
  vf::check(r.second == inter, "the peer's intersection count counts every matched item with its duplicates");
#endif
  vf::check(hits == (q.valid && q.in ? 1 : 0), "an index is written, exactly once, iff the peer has the item's data");
  if (q.valid && q.in) vf::check(val == q.extra, "an index is written with the peer's duplicate count");
  vf::check(w.uncommitted == 0, "every written index is committed");
  vf::cover("end");
}

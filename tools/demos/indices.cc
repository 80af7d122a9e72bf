// extract: cache_gen.h psi/utils/hash_bucket_cache.h HashBucketCache
// extract: gen.h psi/utils/ec_point_store.cc FinalizeAndComputeIndices
// flags: -labsl_strings
#include <algorithm>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
#include "fmt/format.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace psi { class MultiplexDiskCache {}; }
namespace psi::io { class OutputStream {}; }
namespace absl { inline std::vector<absl::string_view> StrSplit(std::string_view s, char c) { return StrSplit(absl::string_view(s.data(), s.size()), c); } }
#include "cache_gen.h"
namespace psi {
using Item = HashBucketCache::BucketItem;
class IndexWriter {
 public:
  std::vector<std::pair<uint64_t, uint64_t>> pend, recs;
  size_t WriteCache(uint64_t i, uint64_t c = 0) { pend.push_back({i, c}); return pend.size(); }
  void Commit() { recs.insert(recs.end(), pend.begin(), pend.end()); pend.clear(); }
};
class HashBucketEcPointStore {
 public:
  std::vector<std::vector<Item>> bins;
  size_t num_bins() const { return bins.size(); }
  void Flush() {}
  uint64_t ItemCount() { return 0; }
  std::vector<Item> LoadBucketItems(size_t b) { return bins[b]; }
};
}
#include "gen.h"
using namespace psi;
int main() {
  uint64_t x = 88172645463325252ULL;
  auto rnd = [&](uint64_t m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x % m; };
  for (int it = 0; it < 4000; it++) {
    size_t nb = 1 + rnd(4);
    auto S = std::make_shared<HashBucketEcPointStore>(), P = std::make_shared<HashBucketEcPointStore>();
    S->bins.resize(nb); P->bins.resize(nb);
    std::map<std::string, uint64_t> peer;
    std::map<uint64_t, uint64_t> want;
    uint64_t np = rnd(8), ns = rnd(8);
    for (uint64_t i = 0; i < np; i++) {
      std::string d(1, 'a' + rnd(12));
      if (peer.count(d)) continue;
      Item t; t.index = i; t.extra_dup_cnt = rnd(3); t.base64_data = d;
      peer[d] = t.extra_dup_cnt;
      P->bins[d[0] % nb].push_back(t);
    }
    for (uint64_t i = 0; i < ns; i++) {
      Item t; t.index = i; t.extra_dup_cnt = rnd(3); t.base64_data = std::string(1, 'a' + rnd(12));
      S->bins[t.base64_data[0] % nb].push_back(t);
      if (peer.count(t.base64_data)) want[i] = peer[t.base64_data];
    }
    auto r = FinalizeAndComputeIndices(S, P);
    std::vector<uint64_t> w;
    for (auto& p : want) w.push_back(p.first);
    if (r != w) { printf("case %d: %zu indices, expected %zu\n", it, r.size(), w.size()); return 1; }
    IndexWriter wr;
    FinalizeAndComputeIndices(S, P, &wr);
    std::sort(wr.recs.begin(), wr.recs.end());
    std::vector<std::pair<uint64_t, uint64_t>> ww(want.begin(), want.end());
    if (wr.recs != ww) { printf("case %d: written indices differ\n", it); return 1; }
  }
  return 0;
}

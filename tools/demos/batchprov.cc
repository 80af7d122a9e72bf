// extract: mem.h psi/utils/batch_provider_impl.h MemoryBatchProvider,SimpleShuffledBatchProvider
// extract: gen.h psi/utils/batch_provider_impl.cc kDefaultBatchSize,MemoryBatchProvider::MemoryBatchProvider,MemoryBatchProvider::ReadNextBatch,MemoryBatchProvider::ReadNextLabeledBatch,MemoryBatchProvider::ReadNextShuffledBatch,MemoryBatchProvider::ReadNext,MemoryBatchProvider::ReadAll,MemoryBatchProvider::ReadNextImpl,MemoryBatchProvider::items,MemoryBatchProvider::labels,MemoryBatchProvider::shuffled_indices,SimpleShuffledBatchProvider::SimpleShuffledBatchProvider,SimpleShuffledBatchProvider::Init,SimpleShuffledBatchProvider::ReadNextShuffledBatch,SimpleShuffledBatchProvider::ReadAndShuffle
// flags: -pthread
#include <algorithm>
#include <cstdio>
#include <deque>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "psi/utils/batch_provider.h"
#include "psi/algorithm/psi_io.h"
namespace yacl::crypto { inline uint64_t SecureRandU64() { static uint64_t s = 7; return s = s * 6364136223846793005ull + 1442695040888963407ull; } }
namespace psi {
class ArrowCsvBatchProvider : public IBasicBatchProvider {
 public:
  ArrowCsvBatchProvider(const std::string&, const std::vector<std::string>&, size_t) {}
  std::vector<std::string> ReadNextBatch() override { return {}; }
  size_t batch_size() const override { return 0; }
};
}
#include "mem.h"
#include "gen.h"
struct Feed : psi::IBasicBatchProvider {
  std::vector<size_t> sizes;
  std::vector<std::string> all;
  std::vector<uint32_t> dup;
  size_t q = 0, at = 0;
  std::vector<std::string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> r;
    if (q >= sizes.size()) return r;
    for (size_t k = 0; k < sizes[q]; k++, at++) {
      r.first.push_back(all[at]);
      if (dup[at]) r.second[k] = dup[at];
    }
    q++;
    return r;
  }
  size_t batch_size() const override { return 1; }
};
static int bad(const char* m) { std::printf("%s\n", m); return 1; }
int main() {
  for (std::vector<size_t> sizes : {std::vector<size_t>{10}, {5, 3, 4}, {3, 7, 1, 6}, {4, 4, 4}, {}})
    for (size_t b : {1, 2, 3, 4, 5, 8, 30}) {
      auto f = std::make_shared<Feed>();
      f->sizes = sizes;
      for (size_t s : sizes)
        for (size_t k = 0; k < s; k++) f->all.push_back("i" + std::to_string(f->all.size())), f->dup.push_back(f->all.size() % 3);
      psi::SimpleShuffledBatchProvider p(std::shared_ptr<psi::IBasicBatchProvider>(f), b);
      std::set<size_t> seen;
      size_t n = 0;
      for (int it = 0; it < 100; it++) {
        auto r = p.ReadNextShuffledBatch();
        size_t m = r.batch_items.size();
        if (!m) break;
        if (m > b || r.batch_indices.size() != m || r.shuffled_indices.size() != m || r.dup_cnts.size() != m) return bad("size");
        for (size_t k = 0; k < m; k++) {
          size_t s = r.shuffled_indices[k];
          if (r.batch_indices[k] != n++) return bad("batch index");
          if (s >= f->all.size() || !seen.insert(s).second) return bad("shuffled index");
          if (r.batch_items[k] != f->all[s]) return bad("item");
          if (r.dup_cnts[k] != f->dup[s]) return bad("duplicates");
        }
      }
      if (n != f->all.size()) return bad("count");
    }
  std::vector<std::string> it, lb;
  for (int k = 0; k < 11; k++) it.push_back("k" + std::to_string(k)), lb.push_back("v" + std::to_string(k));
  for (size_t b : {1, 2, 3, 4, 5, 8, 30})
    for (size_t w : {1, 3, 7, 20}) {
      psi::MemoryBatchProvider p(it, b, lb, false), q(it, b, lb, true), l(it, b, lb, false);
      size_t n = 0;
      while (n < it.size()) {
        auto r = p.ReadNext(w);
        if (r.size() != std::min(w, it.size() - n)) return bad("read size");
        for (auto& x : r) if (x.buf != it[n++] || x.cnt != 1) return bad("read");
      }
      if (!p.ReadNext(w).empty() || p.ReadAll().size() != it.size()) return bad("end");
      for (n = 0; n < it.size();) {
        auto [x, y] = l.ReadNextLabeledBatch();
        if (x.size() != std::min(b, it.size() - n) || y.size() != x.size()) return bad("labels");
        for (size_t k = 0; k < x.size(); k++, n++) if (x[k] != it[n] || y[k] != lb[n]) return bad("label");
      }
      std::set<size_t> seen;
      for (n = 0; n < it.size();) {
        auto r = q.ReadNextShuffledBatch();
        if (r.batch_items.size() != std::min(b, it.size() - n)) return bad("shuffled size");
        for (size_t k = 0; k < r.batch_items.size(); k++, n++)
          if (r.batch_indices[k] != n || !seen.insert(r.shuffled_indices[k]).second || r.batch_items[k] != it[r.shuffled_indices[k]]) return bad("shuffled");
      }
    }
  return 0;
}

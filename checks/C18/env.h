// environment of the batch providers.  Symbolic: interfaces without virtual dispatch, std::shuffle and the random source by contract
#pragma once
#include <algorithm>
#include <cstring>
#include <memory>
#include <numeric>
#include <string>
#include <utility>
#include <vector>
#ifndef VF_SYMBOLIC
#include <deque>
#include <future>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <unordered_map>
#endif
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#ifdef VF_SYMBOLIC
#include <deque>
#include <future>
namespace std {
struct mutex {};
template <class M> struct lock_guard { VF_AI lock_guard(M&) {} };
template <class M> struct unique_lock { VF_AI unique_lock(M&) {} };
struct mt19937 { VF_AI mt19937(uint64_t) {} };
VF_AI void shuffle(size_t* b, size_t* e, mt19937&) { vf_shuffled_(b, e - b); }
// the duplicate counts of a batch: distinct keys in any order
template <class K, class V> struct unordered_map;
template <> struct unordered_map<uint32_t, uint32_t> {
  struct node { uint32_t first, second; };
  vector<node> v;
  VF_AI node* begin() { return v.begin(); }
  VF_AI node* end() { return v.end(); }
};
template <> struct vf_zero<unordered_map<uint32_t, uint32_t>::node> : true_type {};
template <> struct vf_triv<unordered_map<uint32_t, uint32_t>::node> : true_type {};
}
#define override
#define virtual
namespace yacl::crypto { inline uint64_t SecureRandU64() { return vf_any_(0, ~0ULL >> 1); } }
namespace psi {
using ItemCntType = uint32_t;
struct PsiItemData { std::string buf; ItemCntType cnt = 1; };
class IBasicBatchProvider { public: std::pair<std::vector<std::string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt(); };
class ILabeledBatchProvider {};
class IShuffledBatchProvider {
 public:
  struct ShuffledBatch { std::vector<std::string> batch_items; std::vector<size_t> batch_indices; std::vector<size_t> shuffled_indices; std::vector<uint32_t> dup_cnts; };
};
class IDataProvider {};
}
#else
#include "psi/utils/batch_provider.h"
#include "psi/algorithm/psi_io.h"
namespace yacl::crypto { inline uint64_t SecureRandU64() { return vf::N().next(); } }
#endif
namespace psi {
class ArrowCsvBatchProvider : public IBasicBatchProvider {
 public:
  ArrowCsvBatchProvider(const std::string&, const std::vector<std::string>&, size_t) {}
#ifndef VF_SYMBOLIC
  std::vector<std::string> ReadNextBatch() override { return {}; }
  size_t batch_size() const override { return 0; }
#endif
};
}

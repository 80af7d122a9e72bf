// environment of the intersection-index functions
#pragma once
#ifdef VF_SYMBOLIC
#include "vf_sort.h"
#endif
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <future>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace psi { class MultiplexDiskCache {}; }
namespace psi::io { class OutputStream {}; }
#ifdef VF_SYMBOLIC
namespace fmt { template <class... X> std::string format(X&&...); }
namespace absl {
struct string_view { const char* data() const; size_t size() const; };
template <class... X> std::vector<absl::string_view> StrSplit(X&&...);
template <class... X> bool SimpleAtoi(X&&...);
}
#else
#include "absl/strings/str_split.h"
#include "absl/strings/numbers.h"
#include "fmt/format.h"
namespace absl { inline std::vector<absl::string_view> StrSplit(std::string_view s, char c) { return StrSplit(absl::string_view(s.data(), s.size()), c); } }
#endif
#include "cache_gen.h"
namespace psi {
// the result file: every record handed to the writer
struct Rec { uint64_t index, cnt; };
class IndexWriter {
 public:
#ifdef VF_SYMBOLIC
  uint64_t watch = 0, hits = 0, val = 0, others = 0, uncommitted = 0;
  size_t WriteCache(uint64_t i, uint64_t c = 0) { if (i == watch) { hits++; val = c; } else others++; uncommitted++; return 0; }
  void Commit() { uncommitted = 0; }
#else
  std::vector<Rec> recs; uint64_t uncommitted = 0;
  size_t WriteCache(uint64_t i, uint64_t c = 0) { recs.push_back({i, c}); uncommitted++; return recs.size(); }
  void Commit() { uncommitted = 0; }
#endif
};
}
using Item = psi::HashBucketCache::BucketItem;
#ifdef VF_SYMBOLIC
static_assert(__builtin_offsetof(Item, index) == 16 && __builtin_offsetof(Item, extra_dup_cnt) == 24 && __builtin_offsetof(Item, base64_data) == 32, "layout used by spec.py");
template <> struct std::vf_key<Item> { static VF_AI uint64_t get(const Item& k) { return k.base64_data.id; } };
template <> struct std::vf_triv<Item> : std::true_type {};
template <> struct std::vf_zero<Item> : std::true_type {};
#endif

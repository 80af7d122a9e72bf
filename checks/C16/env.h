// environment of the n-party schedule.  Symbolic: contracts of the link layer and of the 2-party protocols.  Native: an
// in-process network, one thread per party
#pragma once
#ifdef VF_SYMBOLIC
#include "vf_sort.h"
#endif
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#ifndef VF_SYMBOLIC
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "absl/numeric/bits.h"
#include "fmt/format.h"
#endif
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#ifdef VF_SYMBOLIC
template <> struct std::vf_watched<std::string> : std::true_type {};
namespace fmt { template <class... X> inline std::string format(const char*, X&&...) { return std::string(); } }
// log2 of the next power of two, as an integer function "lev" (lev(1) = 0, lev(s) = 1 + lev(ceil(s/2)))
namespace absl { struct vf_pow2 { uint64_t n; }; inline vf_pow2 bit_ceil(uint64_t n) { return {n}; } }
namespace std { inline uint64_t log2(absl::vf_pow2 p) { return vf_uf1_("lev", p.n); } }
namespace yacl {
struct Buffer { uint64_t v; };
struct ByteContainerView { bool any; ByteContainerView() : any(false) {} ByteContainerView(const char*) : any(true) {} ByteContainerView(const std::string&) : any(true) {} };
}
namespace yacl::link {
struct Context {
  size_t rank, world;
  bool sub;
  size_t Rank() const { return rank; }
  size_t WorldSize() const { return world; }
  size_t NextRank(size_t k = 1) const { return (rank + k) % world; }
  size_t PrevRank(size_t k = 1) const { return (rank + world - k) % world; }
  std::string Id() const { return std::string(); }
  std::string PartyIdByRank(size_t r) const { std::string s; s.id = r; return s; }
  std::shared_ptr<Context> SubWorld(const std::string& id, const std::vector<std::string>& ids);
};
struct RecvTimeoutGuard { RecvTimeoutGuard(const std::shared_ptr<Context>&, size_t) {} };
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, Buffer b, const std::string& tag);
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView v, size_t root, const std::string& tag);
}
namespace psi::utils {
inline yacl::Buffer SerializeSize(size_t n) { return {n}; }
inline size_t DeserializeSize(const yacl::Buffer& b) { return b.v; }
}
#else
struct Net {
  std::mutex m;
  std::condition_variable cv;
  bool dead = false;
  std::map<std::string, std::map<size_t, std::vector<std::string>>> box;
  void put(const std::string& k, size_t who, std::vector<std::string> v) {
    std::lock_guard<std::mutex> g(m);
    if (box[k].count(who)) dead = true;   // two messages under one tag
    box[k][who] = std::move(v);
    cv.notify_all();
  }
  std::vector<std::string> get(const std::string& k, size_t who) {
    std::unique_lock<std::mutex> g(m);
    if (!cv.wait_for(g, std::chrono::seconds(dead ? 0 : 3), [&] { return dead || box[k].count(who); }) || dead) {
      dead = true;
      cv.notify_all();
      throw vf::Thrown();
    }
    return box[k][who];
  }
};
namespace yacl {
struct Buffer {
  std::string s;
  const char* data() const { return s.data(); }
  size_t size() const { return s.size(); }
};
struct ByteContainerView { bool any; ByteContainerView() : any(false) {} ByteContainerView(const char*) : any(true) {} ByteContainerView(const std::string&) : any(true) {} };
}
namespace yacl::link {
struct Context {
  size_t rank = 0, world = 0;
  Net* net = nullptr;
  std::vector<size_t>* canned = nullptr;
  std::vector<std::string> ids;
  std::string id = "root";
  size_t seq = 0;
  size_t bcast = 0;
  std::map<std::string, int> children;
  size_t Rank() const { return rank; }
  size_t WorldSize() const { return world; }
  size_t NextRank(size_t k = 1) const { return (rank + k) % world; }
  size_t PrevRank(size_t k = 1) const { return (rank + world - k) % world; }
  std::string Id() const { return id; }
  std::string PartyIdByRank(size_t r) const { if (r >= ids.size()) vf::thrown(); return ids[r]; }
  std::shared_ptr<Context> SubWorld(const std::string& sub, const std::vector<std::string>& who) {
    auto c = std::make_shared<Context>();
    c->net = net;
    c->ids = who;
    c->world = who.size();
    c->id = id + "/" + sub + "#" + std::to_string(children[sub]++);
    c->rank = std::find(who.begin(), who.end(), ids[rank]) - who.begin();
    if (c->rank == c->world) vf::thrown();
    return c;
  }
};
struct RecvTimeoutGuard { RecvTimeoutGuard(const std::shared_ptr<Context>&, size_t) {} };
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, const Buffer& b, const std::string& = "") {
  std::vector<Buffer> r;
  if (c->canned) {
    for (auto v : *c->canned) r.push_back({std::to_string(v)});
    return r;
  }
  std::string k = c->id + ":" + std::to_string(c->seq++);
  c->net->put(k, c->rank, {b.s});
  for (size_t i = 0; i < c->world; i++) r.push_back({c->net->get(k, i)[0]});
  return r;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView v, size_t root, const std::string& = "") {
  std::string k = c->id + ":b" + std::to_string(c->bcast++);
  if (c->rank == root) c->net->put(k, root, {v.any ? "finish" : ""});
  return {c->net->get(k, root)[0]};
}
}
namespace psi::utils {
inline yacl::Buffer SerializeSize(size_t n) { return {std::to_string(n)}; }
inline size_t DeserializeSize(const yacl::Buffer& b) { return std::stoull(b.s); }
}
#endif
namespace psi {
enum CurveType { CURVE_INVALID_TYPE, CURVE_25519 };
enum PsiType { INVALID_PSI_TYPE, ECDH_PSI_NPC, KKRT_PSI_NPC };
inline constexpr size_t kEcdhPsiBatchSize = 4096;
class MemoryPsiConfig;
class PsiBaseOperator {
 public:
  explicit PsiBaseOperator(std::shared_ptr<yacl::link::Context> c) : link_ctx_(c) {}
  virtual std::vector<std::string> OnRun(const std::vector<std::string>& inputs) = 0;
  std::vector<std::string> Run(const std::vector<std::string>& inputs, bool) { return OnRun(inputs); }
  std::shared_ptr<yacl::link::Context> link_ctx_;
};
#ifdef VF_SYMBOLIC
namespace ecdh { std::vector<std::string> RunEcdhPsi(const std::shared_ptr<yacl::link::Context>& c, const std::vector<std::string>& items, size_t target, CurveType t, size_t batch); }
std::shared_ptr<yacl::link::Context> CreateP2PLinkCtx(const std::string& id, const std::shared_ptr<yacl::link::Context>& c, size_t peer);
class KkrtPsiOperator {
 public:
  struct Options { std::shared_ptr<yacl::link::Context> link_ctx; size_t receiver_rank; };
  explicit KkrtPsiOperator(const Options& o) : o_(o) {}
  std::vector<std::string> Run(const std::vector<std::string>& items, bool b);
  Options o_;
};
#else
inline std::vector<std::string> meet(const std::shared_ptr<yacl::link::Context>& c, const std::vector<std::string>& items, size_t target) {
  if (c->world != 2 || target > 1) vf::thrown();
  std::string k = c->id + ":" + std::to_string(c->seq++);
  c->net->put(k, c->rank, items);
  c->net->put(k + "t", c->rank, {std::to_string(target)});
  auto peer = c->net->get(k, 1 - c->rank);
  if (c->net->get(k + "t", 1 - c->rank)[0] != std::to_string(target)) { c->net->dead = true; vf::thrown(); }
  std::vector<std::string> r;
  if (target == c->rank)
    for (auto& x : items) if (std::find(peer.begin(), peer.end(), x) != peer.end()) r.push_back(x);
  return r;
}
namespace ecdh { inline std::vector<std::string> RunEcdhPsi(const std::shared_ptr<yacl::link::Context>& c, const std::vector<std::string>& items, size_t target, CurveType, size_t) { return meet(c, items, target); } }
class KkrtPsiOperator {
 public:
  struct Options { std::shared_ptr<yacl::link::Context> link_ctx; size_t receiver_rank; };
  explicit KkrtPsiOperator(const Options& o) : o_(o) {}
  std::vector<std::string> Run(const std::vector<std::string>& items, bool) { return meet(o_.link_ctx, items, o_.receiver_rank); }
  Options o_;
};
#endif
}
#ifndef VF_SYMBOLIC
#include "p2p.h"
#endif
#include "nparty.h"
using Op = psi::NpartyPsiOperator;
using Pair = std::pair<size_t, size_t>;
using Ctx = yacl::link::Context;
static std::shared_ptr<Ctx> sp(Ctx* c) { return std::shared_ptr<Ctx>(std::shared_ptr<void>(), c); }
static std::vector<Pair> list(const char* nm, uint64_t n) {
  std::vector<Pair> v(n);
#ifdef VF_SYMBOLIC
  vf_input_arr_(v.data(), nm, 64, n, 0, ~0ULL);
#else
  for (uint64_t i = 0; i < n; i++) v[i] = {vf::N().next() % 5, i};
  for (uint64_t i = 0; i < n; i++) std::swap(v[i].second, v[vf::N().next() % n].second);
#endif
  return v;
}

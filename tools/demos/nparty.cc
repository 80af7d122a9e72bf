// extract: p2p.h psi/utils/communication.cc CreateP2PLinkCtx
// extract: nparty.h psi/legacy/nparty_psi.h NpartyPsiOperator
// extract: all.h psi/legacy/nparty_psi.cc NpartyPsiOperator::OnRun,NpartyPsiOperator::Run2PartyPsi,NpartyPsiOperator::GetAllPartyItemSizeVec,NpartyPsiOperator::GetPsiRank,NpartyPsiOperator::NpartyPsiOperator CreateP2PLinkCtx
// flags: -pthread
#include <algorithm>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "absl/numeric/bits.h"
#include "fmt/format.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
// an in-process network, one thread per party, and a 2-party protocol that computes the intersection
struct Net {
  std::mutex m;
  std::condition_variable cv;
  bool dead = false;
  std::map<std::string, std::map<size_t, std::vector<std::string>>> box;
  void put(const std::string& k, size_t who, std::vector<std::string> v) {
    std::lock_guard<std::mutex> g(m);
    if (box[k].count(who)) dead = true;   // two messages under one tag
    box[k][who] = std::move(v);
    cv.notify_all();
  }
  std::vector<std::string> get(const std::string& k, size_t who) {
    std::unique_lock<std::mutex> g(m);
    if (!cv.wait_for(g, std::chrono::seconds(dead ? 0 : 3), [&] { return dead || box[k].count(who); }) || dead) {
      dead = true;
      cv.notify_all();
      throw std::runtime_error("peer");
    }
    return box[k][who];
  }
};
namespace yacl {
struct Buffer {
  std::string s;
  const char* data() const { return s.data(); }
  size_t size() const { return s.size(); }
};
struct ByteContainerView { bool any; ByteContainerView() : any(false) {} ByteContainerView(const char*) : any(true) {} ByteContainerView(const std::string&) : any(true) {} };
}
namespace yacl::link {
struct Context {
  size_t rank = 0, world = 0;
  Net* net = nullptr;
  std::vector<size_t>* canned = nullptr;
  std::vector<std::string> ids;
  std::string id = "root";
  size_t seq = 0;
  size_t bcast = 0;
  std::map<std::string, int> children;
  size_t Rank() const { return rank; }
  size_t WorldSize() const { return world; }
  size_t NextRank(size_t k = 1) const { return (rank + k) % world; }
  size_t PrevRank(size_t k = 1) const { return (rank + world - k) % world; }
  std::string Id() const { return id; }
  std::string PartyIdByRank(size_t r) const { if (r >= ids.size()) throw std::runtime_error("link"); return ids[r]; }
  std::shared_ptr<Context> SubWorld(const std::string& sub, const std::vector<std::string>& who) {
    auto c = std::make_shared<Context>();
    c->net = net;
    c->ids = who;
    c->world = who.size();
    c->id = id + "/" + sub + "#" + std::to_string(children[sub]++);
    c->rank = std::find(who.begin(), who.end(), ids[rank]) - who.begin();
    if (c->rank == c->world) throw std::runtime_error("link");
    return c;
  }
};
struct RecvTimeoutGuard { RecvTimeoutGuard(const std::shared_ptr<Context>&, size_t) {} };
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, const Buffer& b, const std::string& = "") {
  std::vector<Buffer> r;
  if (c->canned) {
    for (auto v : *c->canned) r.push_back({std::to_string(v)});
    return r;
  }
  std::string k = c->id + ":" + std::to_string(c->seq++);
  c->net->put(k, c->rank, {b.s});
  for (size_t i = 0; i < c->world; i++) r.push_back({c->net->get(k, i)[0]});
  return r;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView v, size_t root, const std::string& = "") {
  std::string k = c->id + ":b" + std::to_string(c->bcast++);
  if (c->rank == root) c->net->put(k, root, {v.any ? "finish" : ""});
  return {c->net->get(k, root)[0]};
}
}
namespace psi::utils {
inline yacl::Buffer SerializeSize(size_t n) { return {std::to_string(n)}; }
inline size_t DeserializeSize(const yacl::Buffer& b) { return std::stoull(b.s); }
}
namespace psi {
enum CurveType { CURVE_INVALID_TYPE, CURVE_25519 };
enum PsiType { INVALID_PSI_TYPE, ECDH_PSI_NPC, KKRT_PSI_NPC };
inline constexpr size_t kEcdhPsiBatchSize = 4096;
class MemoryPsiConfig;
class PsiBaseOperator {
 public:
  explicit PsiBaseOperator(std::shared_ptr<yacl::link::Context> c) : link_ctx_(c) {}
  virtual std::vector<std::string> OnRun(const std::vector<std::string>& inputs) = 0;
  std::shared_ptr<yacl::link::Context> link_ctx_;
};
inline std::vector<std::string> meet(const std::shared_ptr<yacl::link::Context>& c, const std::vector<std::string>& items, size_t target) {
  if (c->world != 2 || target > 1) throw std::runtime_error("link");
  std::string k = c->id + ":" + std::to_string(c->seq++);
  c->net->put(k, c->rank, items);
  c->net->put(k + "t", c->rank, {std::to_string(target)});
  auto peer = c->net->get(k, 1 - c->rank);
  if (c->net->get(k + "t", 1 - c->rank)[0] != std::to_string(target)) { c->net->dead = true; throw std::runtime_error("link"); }
  std::vector<std::string> r;
  if (target == c->rank)
    for (auto& x : items) if (std::find(peer.begin(), peer.end(), x) != peer.end()) r.push_back(x);
  return r;
}
namespace ecdh { inline std::vector<std::string> RunEcdhPsi(const std::shared_ptr<yacl::link::Context>& c, const std::vector<std::string>& items, size_t target, CurveType, size_t) { return meet(c, items, target); } }
class KkrtPsiOperator {
 public:
  struct Options { std::shared_ptr<yacl::link::Context> link_ctx; size_t receiver_rank; };
  explicit KkrtPsiOperator(const Options& o) : o_(o) {}
  std::vector<std::string> Run(const std::vector<std::string>& items, bool) { return meet(o_.link_ctx, items, o_.receiver_rank); }
  Options o_;
};
}
#include "p2p.h"
#include "nparty.h"
#include "all.h"
using Op = psi::NpartyPsiOperator;
using Ctx = yacl::link::Context;
static uint64_t s = 88172645463325252ULL;
static uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
int main() {
  for (int it = 0; it < 600; it++) {
    uint64_t n = 2 + rnd() % 8, m = rnd() % n, kinds = 1 + rnd() % 6;
    bool kkrt = rnd() & 1, same = rnd() % 3 == 0;
    std::vector<std::vector<std::string>> in(n), out(n);
    std::vector<std::set<std::string>> as(n);
    for (uint64_t p = 0; p < n; p++) {
      for (uint64_t q = 0; q < kinds; q++) if (same || rnd() % 5) as[p].insert(std::to_string(q));
      in[p].assign(as[p].rbegin(), as[p].rend());
    }
    std::vector<std::string> want;
    for (auto& x : as[m]) {
      bool all = true;
      for (auto& t : as) all &= t.count(x) > 0;
      if (all) want.push_back(x);
    }
    Net net;
    std::vector<Ctx> ctx(n);
    std::vector<std::thread> ts;
    std::atomic<int> bad{0};
    for (uint64_t p = 0; p < n; p++) {
      ctx[p].world = n;
      ctx[p].rank = p;
      ctx[p].net = &net;
      for (uint64_t q = 0; q < n; q++) ctx[p].ids.push_back("p" + std::to_string(q));
    }
    for (uint64_t p = 0; p < n; p++)
      ts.emplace_back([&, p] {
        try {
          Op::Options o;
          o.link_ctx = std::shared_ptr<Ctx>(std::shared_ptr<void>(), &ctx[p]);
          o.master_rank = m;
          o.psi_proto = kkrt ? Op::PsiProtocol::Kkrt : Op::PsiProtocol::Ecdh;
          out[p] = Op(o).OnRun(in[p]);
        } catch (...) { bad++; std::lock_guard<std::mutex> g(net.m); net.dead = true; net.cv.notify_all(); }
      });
    for (auto& t : ts) t.join();
    if (bad) { printf("%d parties: the parties' messages do not match\n", (int)n); return 1; }
    if (out[m] != want) { printf("%d parties, receiver %d: %d items instead of %d\n", (int)n, (int)m, (int)out[m].size(), (int)want.size()); return 1; }
    for (uint64_t p = 0; p < n; p++)
      if (p != m && !out[p].empty()) { printf("party %d gets a result\n", (int)p); return 1; }
  }
}

#include "env.h"
#ifdef VF_SYMBOLIC
// ghost state: this party's position a in the common list of n parties; the round; the size of the list in this round; what
// this party holds (its size and how often an arbitrary item X occurs in it)
static std::vector<Pair>* g_list;
static uint64_t g_n, g_a, g_rank, g_master, g_rounds, g_size, g_bcast, g_items, g_cnt;
static bool g_zero, g_pairing;
static Ctx g_sub;
// definition of lev
VF_AI void unfold(uint64_t s) {
  uint64_t l = vf_uf1_("lev", s), h = vf_uf1_("lev", (s + 1) / 2);
  vf_assume_(h < 64 && l == (s < 2 ? 0 : 1 + h) && vf_uf1_("lev", 1) == 0);
}
namespace psi {
std::vector<Pair> NpartyPsiOperator::GetAllPartyItemSizeVec(size_t n) {
  vf::check(n == g_items, "a party announces how many items it has");
  return *g_list;
}
// contract: harness rank
void NpartyPsiOperator::GetPsiRank(const std::vector<Pair>& v, size_t* peer, size_t* target) {
  uint64_t s = v.size();
  vf::check(g_a < s, "a party that left takes no further part");
  VF_FORALL(k, 0, s) vf::check(v[k].second == (*g_list)[k].second, "every round uses the front of the common list");
  vf::check(s == g_size, "the parties that stay are the front half of the list");
  unfold(s);
  uint64_t b = s - 1 - g_a;
  *peer = (*g_list)[b].second;
  *target = (*g_list)[g_a < b ? g_a : b].second;
  g_pairing = true;
}
// contract: harness pair.  The outcome is arbitrary
std::vector<std::string> NpartyPsiOperator::Run2PartyPsi(const std::vector<std::string>& items, size_t peer, size_t target) {
  uint64_t b = g_size - 1 - g_a;
  vf::check(g_pairing, "a pairing is made for each round");
  vf::check(peer == (*g_list)[b].second && target == (*g_list)[g_a < b ? g_a : b].second, "the round's pairing is used");
  vf::check(items.size() == g_items, "each round starts from the outcome of the round before");
 vf::check(vf_watch_get_(items.data(), items.size()) == g_cnt, "each round starts from the outcome of the round before");
  g_rounds++;
  g_pairing = false;
  g_size = (g_size + 1) / 2;
  g_items = vf_any_(0, 1ULL << 40);
  g_cnt = vf_any_(0, 1ULL << 40);
  std::vector<std::string> r(g_items);
  vf_watch_put_(r.data(), g_cnt);
  return r;
}
}
namespace yacl::link {
std::shared_ptr<Context> Context::SubWorld(const std::string& id, const std::vector<std::string>& ids) {
  vf::check(!sub && ids.size() == g_size, "the parties that stay compare sizes");
  VF_FORALL(k, 0, g_size) vf::check(ids[k] == PartyIdByRank((*g_list)[k].second), "the parties that stay compare sizes");
  vf::check(g_a < g_size, "a party that left takes no further part");
  g_sub.world = g_size;
  g_sub.rank = g_a;
  return sp(&g_sub);
}
// assumed contract of the link layer: slot k is what party k announced
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, Buffer b, const std::string& tag) {
  vf::check(c.get() == &g_sub && b.v == g_items, "the parties that stay announce the size of their outcome");
  uint64_t n = g_size;
  std::vector<Buffer> r(n);
  vf_input_arr_(r.data(), "gather", 64, n, 0, ~0ULL);
  vf_assume_(r[g_a].v == g_items);
  g_zero = vf_any_(0, 1);
  vf_ghost_(g_zero, "zero");
  uint64_t z = vf_any_(0, n - 1);
  vf_ghost_(n, "gn");
  vf_ghost_(z, "z");
  if (g_zero) vf_assume_(r[z].v == 0);
  else vf_axiom_("no_zero");
  return r;
}
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView v, size_t root, const std::string& tag) {
  vf::check(c->Rank() == g_rank && !c->sub, "all parties take part in the final message");
  vf::check(root == g_master, "the receiver sends the final message");
  vf::check(v.any == (g_rank == g_master), "only the receiver has something to send");
  g_bcast++;
  return {0};
}
}
#include "gen.h"
#else
#include "all.h"
#endif
VF_HARNESS(run) {
#ifdef VF_SYMBOLIC
  vf_watch_(vf::u64("X", 0, 1ULL << 62));
  uint64_t n = vf::u64("parties", 2, 1ULL << 32);
  std::vector<Pair> v = list("list", n);
  g_list = &v;
  g_n = g_size = n;
  g_a = vf::u64("a", 0, n - 1);
  g_rank = v[g_a].second;
  g_master = v[0].second;
  g_rounds = g_bcast = 0;
  g_zero = g_pairing = false;
  g_items = v[g_a].first;
  vf::assume(g_items < 1ULL << 40);
  vf_axiom_("distinct");
  vf_axiom_("ascending");
  vf_name_(&g_size, "size");
  vf_name_(&g_rounds, "rounds");
  vf_name_(&g_items, "held");
  vf_name_(&g_cnt, "count");
  Ctx c;
  c.world = n;
  c.rank = g_rank;
  c.sub = false;
  g_sub.sub = true;
  Op::Options o;
  o.link_ctx = sp(&c);
  o.master_rank = g_master;
  Op op(o);
  std::vector<std::string> items(g_items);
  vf_input_arr_(items.data(), "data", 64, g_items, 0, 1ULL << 62);
  g_cnt = vf::u64("w", 0, 1ULL << 40);
  vf_watch_put_(items.data(), g_cnt);
  bool empty = v[0].first == 0 || v[1].first == 0;
  uint64_t lev = vf_uf1_("lev", n);
  std::vector<std::string> r = op.OnRun(items);
  unfold(g_size);
  vf::check(g_bcast == (empty ? 0 : 1), "every party takes part in the final message exactly once, unless a party has no items");
  if (empty) vf::check(g_rounds == 0 && r.size() == 0, "nothing is run when a party has no items");
  else if (g_a >= g_size) vf::check(r.size() == 0, "a party that leaves gets no result");
  else if (g_zero) vf::check(r.size() == 0, "an empty partial result ends the run with an empty result");
  else {
    vf::check(g_a == 0 && g_size == 1, "only the receiver stays to the end");
    vf::check(g_rounds == lev, "the run takes one round per halving of the number of parties");
    vf::check(r.size() == g_items && vf_watch_get_(r.data(), r.size()) == g_cnt, "the receiver's result is the outcome of the last round");
    if (r.size() > 1) VF_FORALL(k, 0, r.size() - 1) vf::check(!(r[k + 1] < r[k]), "the result is sorted");
  }
#else
  uint64_t n = vf::len("parties", 2, 6, 6), m = vf::u64("master", 0, n - 1), kinds = vf::u64("kinds", 1, 6);
  std::vector<std::vector<uint64_t>> raw = vf::rows<uint64_t>("items", n, 6, 6);
  std::vector<std::vector<std::string>> in(n), out(n);
  std::vector<std::set<std::string>> as(n);
  for (uint64_t p = 0; p < n; p++) {
    for (auto x : raw[p]) as[p].insert(std::to_string(x % kinds));
    in[p].assign(as[p].begin(), as[p].end());
    if (in[p].size() > 1) std::swap(in[p][0], in[p].back());
  }
  std::vector<std::string> want;
  for (auto& x : as[m]) {
    bool all = true;
    for (auto& s : as) all &= s.count(x) > 0;
    if (all) want.push_back(x);
  }
  bool kkrt = vf::flag("kkrt");
  Net net;
  std::vector<Ctx> ctx(n);
  std::vector<std::thread> ts;
  std::atomic<int> bad{0};
  for (uint64_t p = 0; p < n; p++) {
    ctx[p].world = n;
    ctx[p].rank = p;
    ctx[p].net = &net;
    for (uint64_t q = 0; q < n; q++) ctx[p].ids.push_back("p" + std::to_string(q));
  }
  for (uint64_t p = 0; p < n; p++)
    ts.emplace_back([&, p] {
      try {
        Op::Options o;
        o.link_ctx = sp(&ctx[p]);
        o.master_rank = m;
        o.psi_proto = kkrt ? Op::PsiProtocol::Kkrt : Op::PsiProtocol::Ecdh;
        out[p] = Op(o).OnRun(in[p]);
      } catch (...) { bad++; std::lock_guard<std::mutex> g(net.m); net.dead = true; net.cv.notify_all(); }
    });
  for (auto& t : ts) t.join();
  vf::check(!bad, "the parties' messages match");
  vf::check(out[m] == want, "the receiver's result is the sorted intersection of all parties' items");
  for (uint64_t p = 0; p < n; p++) {
    if (p != m) vf::check(out[p].empty(), "no other party gets a result");
    vf::check(ctx[p].bcast == ctx[m].bcast, "every party takes part in the final message");
  }
#endif
  vf::cover("end");
}

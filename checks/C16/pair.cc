#include "env.h"
#ifdef VF_SYMBOLIC
static Ctx* g_link;
static uint64_t g_calls, g_target, g_n, g_w, g_peer;
namespace psi {
static std::vector<std::string> outcome(const std::shared_ptr<Ctx>& c, const std::vector<std::string>& items, size_t target) {
  vf::check(c.get() == g_link, "the 2-party protocol runs on the link to the peer");
  vf::check(items.size() == g_n && vf_watch_get_(items.data(), items.size()) == g_w, "the 2-party protocol gets this party's items");
  g_target = target;
  g_calls++;
  return std::vector<std::string>();
}
std::vector<std::string> ecdh::RunEcdhPsi(const std::shared_ptr<Ctx>& c, const std::vector<std::string>& items, size_t target, CurveType t, size_t batch) { return outcome(c, items, target); }
std::vector<std::string> KkrtPsiOperator::Run(const std::vector<std::string>& items, bool b) { return outcome(o_.link_ctx, items, o_.receiver_rank); }
std::shared_ptr<Ctx> CreateP2PLinkCtx(const std::string& id, const std::shared_ptr<Ctx>& c, size_t peer) {
  vf::check(peer == g_peer, "the link goes to the peer");
  return sp(g_link);
}
}
#include "gen.h"
#else
#include "all.h"
#endif
// one pair: both parties name the same receiver, each by its own numbering of the link between them
static void go(bool alone) {
  uint64_t n = vf::len("parties", 2, 1ULL << 32, 6), a = vf::u64("self", 0, n - 1), b = vf::u64("peer", 0, n - 1);
  if (alone) b = a;
  else vf::assume(a != b);
  bool mine = vf::flag("mine");
  Ctx c, link;
  c.world = n;
  c.rank = a;
  link.world = 2;
  link.rank = vf::flag("order");
  Op::Options o;
  o.link_ctx = sp(&c);
  o.psi_proto = vf::flag("kkrt") ? Op::PsiProtocol::Kkrt : Op::PsiProtocol::Ecdh;
#ifdef VF_SYMBOLIC
  vf_watch_(vf::u64("X", 0, 1ULL << 62));
  Op op(o);
  g_link = &link;
  g_calls = 0;
  g_n = vf::u64("items", 0, 1ULL << 40);
  g_peer = b;
  std::vector<std::string> items(g_n);
  vf_input_arr_(items.data(), "data", 64, g_n, 0, 1ULL << 62);
  g_w = vf::u64("w", 0, 1ULL << 40);
  vf_watch_put_(items.data(), g_w);
  auto r = op.Run2PartyPsi(items, b, mine ? a : b);
  if (alone) vf::check(g_calls == 0 && r.size() == g_n && vf_watch_get_(r.data(), r.size()) == g_w, "a party that is alone keeps its items");
  else vf::check(g_calls == 1 && g_target == (mine ? link.rank : 1 - link.rank), "the receiver of the pair is the one the schedule names");
#endif
  vf::cover("end");
}
VF_HARNESS(pair) { go(false); }
VF_HARNESS(alone) { go(true); }

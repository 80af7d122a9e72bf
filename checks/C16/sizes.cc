#include "env.h"
#ifdef VF_SYMBOLIC
static std::vector<yacl::Buffer>* g_gather;
static uint64_t g_self, g_own;
namespace yacl::link {
// assumed contract of the link layer: slot k of the gathered list is what party k announced
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, Buffer b, const std::string& tag) {
  vf::check(b.v == g_own, "a party announces its own size");
  return *g_gather;
}
}
#include "gen.h"
#else
#include "all.h"
#endif
// the list every party derives from the announced sizes
VF_HARNESS(sizes) {
  uint64_t n = vf::len("parties", 2, 1ULL << 32, 40), m = vf::u64("master", 0, n - 1), X = vf::u64("X", 0, n - 1);
  Ctx c;
  c.world = n;
  c.rank = vf::u64("rank", 0, n - 1);
  Op::Options o;
  o.link_ctx = sp(&c);
  o.master_rank = m;
  Op op(o);
#ifdef VF_SYMBOLIC
  std::vector<yacl::Buffer> s(n);
  vf_input_arr_(s.data(), "sizes", 64, n, 0, ~0ULL);
  g_gather = &s;
  g_self = c.rank;
  g_own = s[c.rank].v;
  std::vector<Pair> r = op.GetAllPartyItemSizeVec(g_own);
  vf::name(r, "r");
  vf::check(vf_count_("isX", r.data(), r.size()) == 1, "every party is in the list exactly once");
  auto size = [&](size_t k) { return s[k].v; };
#else
  std::vector<uint64_t> s = vf::vec<uint64_t>("sizes", n);
  c.canned = &s;
  std::vector<Pair> r = op.GetAllPartyItemSizeVec(s[c.rank]);
  uint64_t cnt = 0;
  for (auto& x : r) cnt += x.second == X;
  vf::check(cnt == 1, "every party is in the list exactly once");
  auto size = [&](size_t k) { return s[k]; };
#endif
  vf::check(r.size() == n, "the list is as long as there are parties");
  vf::check(r[0].second == m, "the receiver is first in the list");
  VF_FORALL(k, 0, n) {
    vf::check(r[k].second < n, "the list names parties");
    vf::check(r[k].first == size(r[k].second), "a party is listed with the size it announced");
  }
  if (n > 2) VF_FORALL(k, 1, n - 1) vf::check(r[k].first <= r[k + 1].first, "the parties after the receiver are listed by ascending size");
  vf::cover("end");
}

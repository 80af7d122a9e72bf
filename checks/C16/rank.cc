#include "env.h"
#ifdef VF_SYMBOLIC
#include "gen.h"
#else
#include "all.h"
#endif
static Op make(Ctx* c) { vf::ghost(c->rank, "self"); Op::Options o; o.link_ctx = sp(c); return Op(o); }
// one round: the party at position a of the list is paired with the party at the mirrored position
VF_HARNESS(rank) {
  uint64_t n = vf::len("parties", 1, 1ULL << 32, 9);
  std::vector<Pair> v = list("list", n);
  uint64_t a = vf::u64("a", 0, n - 1), p, t, p2, t2;
  Ctx c;
  c.rank = v[a].second;
  c.world = n < 2 ? 2 : n;
#ifdef VF_SYMBOLIC
  vf_axiom_("distinct");
#endif
  Op op = make(&c);
  op.GetPsiRank(v, &p, &t);
  uint64_t b = n - 1 - a, lo = a < b ? a : b;
  vf::check(p == v[b].second, "the peer is the party at the mirrored position");
  vf::check(a != b || p == c.rank, "only the middle party of an odd number is alone");
  vf::check(t == v[lo].second, "the result goes to the first of the two");
  vf::check(lo < (n + 1) / 2, "the party that gets the result stays for the next round");
  Ctx c2;
  c2.rank = p;
  c2.world = c.world;
  Op op2 = make(&c2);
  op2.GetPsiRank(v, &p2, &t2);
  vf::check(p2 == c.rank, "the pairing is mutual");
  vf::check(t2 == t, "both parties of a pair agree on who gets the result");
  vf::cover("end");
}
VF_HARNESS(stranger) {
  uint64_t n = vf::len("parties", 1, 1ULL << 32, 9);
  std::vector<Pair> v = list("list", n);
  Ctx c;
  c.rank = vf::u64("rank", 0, 1ULL << 40);
  c.world = n < 2 ? 2 : n;
#ifdef VF_SYMBOLIC
  vf_axiom_("absent");
#else
  for (auto& x : v) if (x.second == c.rank) return;
#endif
  Op op = make(&c);
  uint64_t p = 0, t = 0;
  vf::may_throw(true);
  vf::cover("end");
  op.GetPsiRank(v, &p, &t);
  vf::check(false, "a party that is not in the list is refused");
}

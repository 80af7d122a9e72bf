#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <vector>
#include "absl/types/span.h"
#include "vf_vec.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "gen_h.h"
#ifdef VF_SYMBOLIC
template <> struct std::vf_scalar<psi::CuckooIndex::Bin> : std::true_type {};
#endif
#include "gen.h"
using psi::CuckooIndex;
using Bin = CuckooIndex::Bin;
using u128 = CuckooIndex::HashType;
#ifdef VF_SYMBOLIC
static constexpr uint64_t vf_cap(uint64_t a, uint64_t) { return a; }
#else
static constexpr uint64_t vf_cap(uint64_t, uint64_t b) { return b; }
#endif

static CuckooIndex::Options options() {
  CuckooIndex::Options o;
  o.num_hash = vf::u64("num_hash", 1, 5);
  o.num_input = vf::u64("num_input", 1, vf_cap(1ULL << 40, 60));
  o.num_stash = vf::u64("num_stash", 0, vf_cap(1ULL << 40, 4));
  o.max_try_count = vf::u64("max_try_count", 0, vf_cap(~0ULL, 128));
  o.scale_factor = 1.0;   // NumBins() enters as an arbitrary number
#ifndef VF_SYMBOLIC
  o.scale_factor = 1.0 + (vf::N().next() % 8) * 0.2;
#endif
  return o;
}
// hash function h of an input: bytes 2h .. 2h+7 of its code
VF_HARNESS(gethash) {
  uint64_t a = vf::u64("hi"), b = vf::u64("lo"), h = vf::u64("h", 0, 4);
  u128 code = ((u128)a << 64) | b;
  CuckooIndex::HashRoom r(code);
  vf::check(r.GetHash(h) == (uint64_t)(code >> (16 * h)), "a hash function reads its own eight bytes of the code");
  vf::cover("end");
}
// a new index is empty
VF_HARNESS(fresh) {
  auto o = options();
  CuckooIndex c(o);
  uint64_t nb = c.options_.NumBins();
  vf::check(c.bins_.size() == nb, "one bin per requested bin");
  vf::check(c.stash_.size() == o.num_stash, "the stash has the requested capacity");
  vf::check(c.hashes_.size() == 0, "no input is known yet");
  VF_FORALL(b, 0, nb) vf::check(c.bins_[b].IsEmpty(), "every bin is empty");
  VF_FORALL(s, 0, o.num_stash) vf::check(c.stash_[s].IsEmpty(), "every stash slot is empty");
  vf::cover("end");
}
// one Insert on an index in any state the class invariant allows:
//   every filled bin b holds an input that was inserted, and the hash function it records maps that input to b;
//   every inserted input is in exactly one bin or stash slot (ghost count of the arbitrary input X)
VF_HARNESS(insert) {
  auto o = options();
  CuckooIndex c(o);
  uint64_t nb = c.options_.NumBins();
  uint64_t X = vf::u64("X", 0, vf_cap(1ULL << 41, 70));
#ifdef VF_SYMBOLIC
  uint64_t H = vf::u64("H", 0, o.num_input);
  vf_input_arr_(c.bins_.data(), "bins", 64, nb, 0, ~0ULL);
  vf_input_arr_(c.stash_.data(), "stash", 64, o.num_stash, 0, ~0ULL);
  vf_setsize_(c.hashes_.data(), H);
  vf_input_arr_(c.hashes_.data(), "hashes", 128, H, 0, ~0ULL);
  vf_axiom_("class_invariant");
  uint64_t m = vf::u64("m", 0, 1ULL << 40);
  vf_ghost_(X, "X");
  vf_ghost_(H + m, "H2");
  std::vector<u128> codes(m);
#else
  auto& N = vf::N();
  uint64_t n0 = N.next() % (o.num_input + 2);
  std::vector<u128> codes, first;
  uint64_t pool = 1 + N.next() % 3;  // how random the codes are
  auto code = [&] { return pool == 1 ? (u128)(N.next() % 5) * 0x10001000100010001ULL : ((u128)N.next() << 64) | N.next(); };
  for (uint64_t i = 0; i < n0 && i <= o.num_input; i++) first.push_back(code());
  uint64_t m = N.next() % (o.num_input - std::min(n0, o.num_input) + 2);
  for (uint64_t i = 0; i < m; i++) codes.push_back(code());
  vf::may_throw(true);
  c.Insert(first);
  uint64_t H = first.size();
#endif
  vf::may_throw(true);   // too many inputs or a full stash are reported by an exception
  c.Insert(absl::Span<const u128>(codes.data(), m));
  vf::may_throw(false);
  uint64_t cnt = 0;
#ifdef VF_SYMBOLIC
  cnt = vf_count_("item", c.bins_.data(), nb) + vf_count_("item", c.stash_.data(), o.num_stash);
#else
  for (auto& b : c.bins_) cnt += !b.IsEmpty() && b.InputIdx() == X;
  for (auto& b : c.stash_) cnt += !b.IsEmpty() && b.InputIdx() == X;
#endif
  vf::check(c.hashes_.size() == H + m && H + m <= o.num_input, "the index knows every inserted input");
  vf::check(cnt == (X < H + m ? 1 : 0), "every inserted input is in exactly one bin or stash slot, and nothing else is");
  VF_FORALL(b, 0, nb) {
    Bin t = c.bins_[b];
    if (!t.IsEmpty()) {
      vf::check(t.InputIdx() < H + m && t.HashIdx() < o.num_hash, "a filled bin names an inserted input and one of the hash functions");
      vf::check(c.hashes_[t.InputIdx()].GetHash(t.HashIdx()) % nb == b, "the recorded hash function maps the input to its bin");
    }
  }
  vf::cover("end");
}
// for a filled bin, the least hash function that maps its input to it
VF_HARNESS(mincol) {
  auto o = options();
  CuckooIndex c(o);
  uint64_t nb = c.options_.NumBins();
#ifdef VF_SYMBOLIC
  uint64_t X = 0;
  vf_ghost_(X, "X");
  uint64_t H = vf::u64("H", 0, o.num_input);
  vf_input_arr_(c.bins_.data(), "bins", 64, nb, 0, ~0ULL);
  vf_input_arr_(c.stash_.data(), "stash", 64, o.num_stash, 0, ~0ULL);
  vf_setsize_(c.hashes_.data(), H);
  vf_input_arr_(c.hashes_.data(), "hashes", 128, H, 0, ~0ULL);
  vf_axiom_("placement");
#else
  auto& N = vf::N();
  std::vector<u128> codes(N.next() % (o.num_input + 1));
  uint64_t pool = N.next() % 2;
  for (auto& x : codes) x = pool ? (u128)(N.next() % 5) * 0x10001000100010001ULL : ((u128)N.next() << 64) | N.next();
  vf::may_throw(true);
  c.Insert(codes);
  vf::may_throw(false);
#endif
  uint64_t b = vf::u64("b", 0, nb - 1);
  vf::assume(!c.bins_[b].IsEmpty());
  uint64_t r = c.MinCollidingHashIdx(b), it = c.bins_[b].InputIdx();
  vf::check(r < o.num_hash && c.hashes_[it].GetHash(r) % nb == b, "the reported hash function maps the input to its bin");
  VF_FORALL(i, 0, r) vf::check(c.hashes_[it].GetHash(i) % nb != b, "no smaller hash function does");
  vf::cover("end");
}

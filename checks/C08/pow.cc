// Pow and Inv over the contract of Mul: an element is represented by the exponent e of the base element x it equals
// (x != 0), so multiplication adds exponents; x^(2^128-1) = 1 (order of the multiplicative group).
#include <cstring>
#include "vf.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace psi::rr22::okvs {
static const uint128_t kOrder = ~(uint128_t)0;
class Galois128 {
 public:
  uint64_t rep[2];  // {0,0}: the zero element; {1,0}: x^e
  uint128_t e;
  Galois128(uint64_t a, uint64_t b) { rep[0] = b; rep[1] = a; e = 0; vf::check(a == 0 && b <= 1, "only constants 0 and 1 are built"); }
  struct Tag {};
  Galois128(Tag, uint128_t ex, bool zero) { e = ex; rep[0] = zero ? 0 : 1; rep[1] = 0; }
  Galois128 Mul(const Galois128& r) const {
    vf::check(e <= kOrder - r.e, "model: exponent below 2^128");
    return Galois128(Tag(), e + r.e, rep[0] == 0 || r.rep[0] == 0);
  }
  Galois128 operator*(const Galois128& r) const { return Mul(r); }
  Galois128 Pow(std::uint64_t i) const;
  Galois128 Inv() const;
  const uint8_t* data() { return (const uint8_t*)rep; }
  template <class T> T get(size_t) { return rep[0] == 0 ? (T)0 : e % kOrder == 0 ? (T)1 : (T)2; }
};
}
#include "gen.h"
using namespace psi::rr22::okvs;
VF_HARNESS(pow) {
  uint64_t i = vf::u64("i");
  Galois128 x(Galois128::Tag(), 1, false);
  Galois128 r = x.Pow(i);
  vf::check(r.rep[0] != 0 && r.e == i, "Pow(i) is the i-th power");
  vf::cover("end");
}
VF_HARNESS(powzero) {
  uint64_t i = vf::u64("i", 1);
  Galois128 x(Galois128::Tag(), 1, true);
  vf::check(x.Pow(i).rep[0] == 0, "positive powers of zero are zero");
  vf::cover("end");
}
VF_HARNESS(inv) {
  Galois128 x(Galois128::Tag(), 1, false);
  Galois128 r = x.Inv();
  vf::check(r.rep[0] != 0 && r.e == kOrder - 1, "Inv is the power 2^128-2, the inverse");
  vf::cover("end");
}

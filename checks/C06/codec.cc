#include <algorithm>
#include <vector>
#include "absl/types/span.h"
#include "vf_vec.h"
#include "yacl/base/exception.h"
#include "gen.h"
using namespace psi::spiral;
// position of bit b (most significant first) of byte B: bit r of coefficient q
struct Pos { uint64_t q, r, B, b; };
template <unsigned L> static Pos pos(uint64_t E) {
  Pos p;
  p.B = vf::u64("B", 0, E - 1); p.b = vf::u64("b", 0, 7);
  p.q = vf::u64("q", 0, 8 * E / L); p.r = vf::u64("r", 0, L - 1);
#ifndef VF_SYMBOLIC
  p.q = (8 * p.B + p.b) / L; p.r = (8 * p.B + p.b) % L;
#endif
  vf::assume((uint32_t)p.q * L + (uint32_t)p.r == 8 * (uint32_t)p.B + (uint32_t)p.b);
  return p;
}
template <unsigned L, class F> static void enc(F f) {
  uint64_t E = vf::len("size", 1, 1ULL << 20, 40);
  uint64_t off = vf::len("offset", 0, 1ULL << 30, 20);
  uint64_t extra = vf::len("after", 0, 1ULL << 20, 5);
  auto bytes = vf::vec<uint8_t>("bytes", off + E + extra);
  Pos p = pos<L>(E);
  auto c = f(L, off, E, bytes);
  vf::check(c.size() * L >= 8 * E && (c.size() - 1) * L < 8 * E, "as many coefficients as the bits need");
  vf::check(((c[p.q] >> (L - 1 - p.r)) & 1) == ((bytes[off + p.B] >> (7 - p.b)) & 1), "every bit of every byte is stored at its place");
  vf::check(((uint64_t)c[p.q] >> L) == 0, "every coefficient is below the plaintext modulus");
  vf::cover("end");
}
template <unsigned L, class F> static void dec(F f) {
  uint64_t nc = vf::len("ncoeffs", 1, 1ULL << 20, 60);
  auto c = vf::vec<uint64_t>("coeffs", nc, 0, (1ULL << L) - 1);
  uint64_t E = (nc * L + 7) / 8;
  Pos p = pos<L>(E);
  auto out = f(c, L);
  vf::check(out.size() == E, "as many bytes as the coefficients need");
  vf::assume(8 * p.B + 8 <= nc * L);
  vf::check(((out[p.B] >> (7 - p.b)) & 1) == ((c[p.q] >> (L - 1 - p.r)) & 1), "every bit is recovered from its place");
  vf::cover("end");
}
static auto f64 = [](size_t l, size_t o, size_t e, const std::vector<uint8_t>& b) { return util::ConvertBytesToCoeffs(l, o, e, b); };
static auto f8 = [](size_t l, size_t o, size_t e, const std::vector<uint8_t>& b) { return util::ConvertBytesToU8Coeffs(l, o, e, b); };
static auto fv = [](const std::vector<uint64_t>& c, size_t l) { return util::ConvertCoeffsToBytes(c, l); };
static auto fs = [](std::vector<uint64_t>& c, size_t l) { return util::ConvertCoeffsToBytes(absl::Span<uint64_t>(c.data(), c.size()), l); };
#define ONE(L) VF_HARNESS(enc##L) { enc<L>(f64); } VF_HARNESS(decv##L) { dec<L>(fv); } VF_HARNESS(decs##L) { dec<L>(fs); }
#define ONE8(L) VF_HARNESS(encu##L) { enc<L>(f8); }
ONE8(1) ONE8(2) ONE8(3) ONE8(4) ONE8(5) ONE8(6) ONE8(7) ONE8(8)
ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9) ONE(10) ONE(11) ONE(12) ONE(13) ONE(14) ONE(15) ONE(16)

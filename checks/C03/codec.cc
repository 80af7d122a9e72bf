#include <algorithm>
#include <cmath>
#include <vector>
#include "gsl/span"
#include "vf_vec.h"
#include "yacl/base/exception.h"
using namespace std;
#ifdef VF_SYMBOLIC
namespace psi::sealpir { namespace {
// contract of CoefficientsPerElement (its body is proved against it in check C05, harness layout)
uint64_t CoefficientsPerElement(uint32_t logt, uint64_t ele_size) {
  uint64_t c = vf_any_(0, 1ULL << 30);
  vf::assume(c * logt >= 8 * ele_size && (c == 0 || (c - 1) * logt < 8 * ele_size));
  return c;
}
} }
#else
#include "gen_cpe.h"
#endif
#include "gen.h"
using namespace psi::sealpir;
// position of bit b (most significant first) of byte B: bit r of coefficient q
struct Pos { uint64_t q, r, B, b; };
template <unsigned L> static Pos pos(uint64_t E) {
  Pos p;
  p.B = vf::u64("B", 0, E - 1); p.b = vf::u64("b", 0, 7);
  p.q = vf::u64("q", 0, 8 * E / L); p.r = vf::u64("r", 0, L - 1);
#ifndef VF_SYMBOLIC
  p.q = (8 * p.B + p.b) / L; p.r = (8 * p.B + p.b) % L;
#endif
  vf::assume((uint32_t)p.q * L + (uint32_t)p.r == 8 * (uint32_t)p.B + (uint32_t)p.b);
  return p;
}
template <unsigned L> static void enc() {
  uint64_t E = vf::len("ele", 1, 1ULL << 20, 40);
  auto bytes = vf::vec<uint8_t>("bytes", E);
  Pos p = pos<L>(E);
  auto c = BytesToCoeffs(L, gsl::span<uint8_t>(bytes.data(), bytes.data() + E));
  vf::check(c.size() * L >= 8 * E && (c.size() - 1) * L < 8 * E, "as many coefficients as the bits need");
  vf::check(((c[p.q] >> (L - 1 - p.r)) & 1) == ((bytes[p.B] >> (7 - p.b)) & 1), "every bit of every byte is stored at its place");
  vf::check((c[p.q] >> L) == 0, "every coefficient is below 2^logt");
  vf::cover("end");
}
template <unsigned L> static void dec() {
  uint64_t E = vf::len("ele", 1, 1ULL << 20, 40);
  uint64_t nc = vf::u64("ncoeffs", 0, 1ULL << 20);
#ifndef VF_SYMBOLIC
  nc = (8 * E + L - 1) / L;
#endif
  vf::assume(nc * L >= 8 * E && (nc - 1) * L < 8 * E && nc >= 1);
  auto c = vf::vec<uint64_t>("coeffs", nc, 0, (1ULL << L) - 1);
  Pos p = pos<L>(E);
  vector<uint8_t> out(E);
  CoeffsToBytes(L, c, out, E);
  vf::check(out.size() == E, "element size kept");
  vf::check(((out[p.B] >> (7 - p.b)) & 1) == ((c[p.q] >> (L - 1 - p.r)) & 1), "every bit is recovered from its place");
  vf::cover("end");
}
VF_HARNESS(enc8) { enc<8>(); }
VF_HARNESS(dec8) { dec<8>(); }
VF_HARNESS(enc9) { enc<9>(); }
VF_HARNESS(dec9) { dec<9>(); }
VF_HARNESS(enc10) { enc<10>(); }
VF_HARNESS(dec10) { dec<10>(); }
VF_HARNESS(enc11) { enc<11>(); }
VF_HARNESS(dec11) { dec<11>(); }
VF_HARNESS(enc12) { enc<12>(); }
VF_HARNESS(dec12) { dec<12>(); }
VF_HARNESS(enc13) { enc<13>(); }
VF_HARNESS(dec13) { dec<13>(); }
VF_HARNESS(enc14) { enc<14>(); }
VF_HARNESS(dec14) { dec<14>(); }
VF_HARNESS(enc15) { enc<15>(); }
VF_HARNESS(dec15) { dec<15>(); }
VF_HARNESS(enc16) { enc<16>(); }
VF_HARNESS(dec16) { dec<16>(); }
VF_HARNESS(enc17) { enc<17>(); }
VF_HARNESS(dec17) { dec<17>(); }
VF_HARNESS(enc18) { enc<18>(); }
VF_HARNESS(dec18) { dec<18>(); }
VF_HARNESS(enc19) { enc<19>(); }
VF_HARNESS(dec19) { dec<19>(); }
VF_HARNESS(enc20) { enc<20>(); }
VF_HARNESS(dec20) { dec<20>(); }
VF_HARNESS(enc21) { enc<21>(); }
VF_HARNESS(dec21) { dec<21>(); }
VF_HARNESS(enc22) { enc<22>(); }
VF_HARNESS(dec22) { dec<22>(); }
VF_HARNESS(enc23) { enc<23>(); }
VF_HARNESS(dec23) { dec<23>(); }
VF_HARNESS(enc24) { enc<24>(); }
VF_HARNESS(dec24) { dec<24>(); }
VF_HARNESS(enc25) { enc<25>(); }
VF_HARNESS(dec25) { dec<25>(); }
VF_HARNESS(enc26) { enc<26>(); }
VF_HARNESS(dec26) { dec<26>(); }
VF_HARNESS(enc27) { enc<27>(); }
VF_HARNESS(dec27) { dec<27>(); }
VF_HARNESS(enc28) { enc<28>(); }
VF_HARNESS(dec28) { dec<28>(); }
VF_HARNESS(enc29) { enc<29>(); }
VF_HARNESS(dec29) { dec<29>(); }
VF_HARNESS(enc30) { enc<30>(); }
VF_HARNESS(dec30) { dec<30>(); }
VF_HARNESS(enc31) { enc<31>(); }
VF_HARNESS(dec31) { dec<31>(); }
VF_HARNESS(enc32) { enc<32>(); }
VF_HARNESS(dec32) { dec<32>(); }
VF_HARNESS(enc33) { enc<33>(); }
VF_HARNESS(dec33) { dec<33>(); }
VF_HARNESS(enc34) { enc<34>(); }
VF_HARNESS(dec34) { dec<34>(); }
VF_HARNESS(enc35) { enc<35>(); }
VF_HARNESS(dec35) { dec<35>(); }
VF_HARNESS(enc36) { enc<36>(); }
VF_HARNESS(dec36) { dec<36>(); }
VF_HARNESS(enc37) { enc<37>(); }
VF_HARNESS(dec37) { dec<37>(); }
VF_HARNESS(enc38) { enc<38>(); }
VF_HARNESS(dec38) { dec<38>(); }
VF_HARNESS(enc39) { enc<39>(); }
VF_HARNESS(dec39) { dec<39>(); }
VF_HARNESS(enc40) { enc<40>(); }
VF_HARNESS(dec40) { dec<40>(); }
VF_HARNESS(enc41) { enc<41>(); }
VF_HARNESS(dec41) { dec<41>(); }
VF_HARNESS(enc42) { enc<42>(); }
VF_HARNESS(dec42) { dec<42>(); }
VF_HARNESS(enc43) { enc<43>(); }
VF_HARNESS(dec43) { dec<43>(); }
VF_HARNESS(enc44) { enc<44>(); }
VF_HARNESS(dec44) { dec<44>(); }
VF_HARNESS(enc45) { enc<45>(); }
VF_HARNESS(dec45) { dec<45>(); }
VF_HARNESS(enc46) { enc<46>(); }
VF_HARNESS(dec46) { dec<46>(); }
VF_HARNESS(enc47) { enc<47>(); }
VF_HARNESS(dec47) { dec<47>(); }
VF_HARNESS(enc48) { enc<48>(); }
VF_HARNESS(dec48) { dec<48>(); }
VF_HARNESS(enc49) { enc<49>(); }
VF_HARNESS(dec49) { dec<49>(); }
VF_HARNESS(enc50) { enc<50>(); }
VF_HARNESS(dec50) { dec<50>(); }
VF_HARNESS(enc51) { enc<51>(); }
VF_HARNESS(dec51) { dec<51>(); }
VF_HARNESS(enc52) { enc<52>(); }
VF_HARNESS(dec52) { dec<52>(); }
VF_HARNESS(enc53) { enc<53>(); }
VF_HARNESS(dec53) { dec<53>(); }
VF_HARNESS(enc54) { enc<54>(); }
VF_HARNESS(dec54) { dec<54>(); }
VF_HARNESS(enc55) { enc<55>(); }
VF_HARNESS(dec55) { dec<55>(); }
VF_HARNESS(enc56) { enc<56>(); }
VF_HARNESS(dec56) { dec<56>(); }
VF_HARNESS(enc57) { enc<57>(); }
VF_HARNESS(dec57) { dec<57>(); }
VF_HARNESS(enc58) { enc<58>(); }
VF_HARNESS(dec58) { dec<58>(); }
VF_HARNESS(enc59) { enc<59>(); }
VF_HARNESS(dec59) { dec<59>(); }
VF_HARNESS(enc60) { enc<60>(); }
VF_HARNESS(dec60) { dec<60>(); }

#ifndef VF_SYMBOLIC
// several elements per plaintext: encode each, concatenate, decode, compare (bounded)
VF_HARNESS(round) {
  uint64_t L = vf::u64("logt", 8, 60), E = vf::u64("ele", 1, 40), n = vf::u64("count", 1, 6), pad = vf::u64("pad", 0, 5);
  auto bytes = vf::vec<uint8_t>("bytes", E * n);
  vector<uint64_t> all;
  for (uint64_t i = 0; i < n; i++) {
    auto c = BytesToCoeffs(L, gsl::span<uint8_t>(bytes.data() + i * E, bytes.data() + (i + 1) * E));
    for (auto x : c) all.push_back(x);
  }
  for (uint64_t i = 0; i < pad; i++) all.push_back(1);
  vector<uint8_t> out(E * n);
  CoeffsToBytes(L, all, out, E);
  vf::check(out == bytes, "a row of elements decodes to itself");
}
#endif

#include <algorithm>
#include <cmath>
#include <numeric>
#include <functional>
#include <vector>
#include "vf_vec.h"
#include "yacl/base/exception.h"
using namespace std;
#ifdef VF_SYMBOLIC
static inline uint64_t ipow(uint64_t b, unsigned d) { uint64_t r = b; if (d > 1) r *= b; if (d > 2) r *= b; if (d > 3) r *= b; return r; }
static unsigned g_d;
// assumed contract of libm pow for the d-th root of n
static inline double vf_pow(uint64_t n, double e) {
  uint64_t r = vf_any_(0, n + 1);
  vf::assume(r <= (1ULL << (60 / g_d)));
  vf::assume(ipow(r + 1, g_d) >= n);
  vf::assume(ipow(r, g_d) <= n + n / 2 + 1);
  return (double)r;
}
#define pow vf_pow
#else
static unsigned g_d;
static inline double vf_pow(uint64_t n, double e) {
  double x = std::pow(n, e); uint64_t r = floor(x); unsigned __int128 a = 1, b = 1;
  for (unsigned i = 0; i < g_d; i++) { a *= r + 1; b *= r; }
  vf::check(a >= n && b <= (unsigned __int128)n + n / 2 + 1, "assumed contract of pow");
  return x;
}
#define pow vf_pow
#endif
namespace psi::sealpir {
struct P { uint64_t elements_per_plaintext; };
class SealPirClient { public: uint64_t GetPtIndex(uint64_t) const; uint64_t GetPtOffset(uint64_t) const; P pir_params_; };
}
#include "gen.h"
using namespace psi::sealpir;

template <unsigned D> static void dims() {
  g_d = D;
  uint64_t n = vf::u64("plaintexts", 1, 1ULL << 40);
  auto d = GetDimensions(n, D);
  vf::check(d.size() == D, "one size per dimension");
  if (d.size() != D) return;
  uint64_t p = d[0];
  if (D > 1) p *= d[1];
  if (D > 2) p *= d[2];
  if (D > 3) p *= d[3];
  vf::check(p >= n, "the hypercube holds every plaintext");
  vf::check(d[0] >= 2 && d[D - 1] >= 2, "every dimension has at least two slots");
  vf::cover("end");
}
template <unsigned D> static void indices() {
  uint64_t d0 = vf::u64("d0", 1, D == 1 ? 1ULL << 45 : 1ULL << (D == 2 ? 22 : 11));
  uint64_t d1 = D > 1 ? vf::u64("d1", 1, D == 2 ? 1ULL << 22 : 1ULL << 11) : 1;
  uint64_t d2 = D > 2 ? vf::u64("d2", 1, 1ULL << 11) : 1;
  uint64_t d3 = D > 3 ? vf::u64("d3", 1, 1ULL << 11) : 1;
  uint64_t idx = vf::u64("index", 0, d0 * d1 * d2 * d3 - 1);
  vector<uint64_t> v(D);
  v[0] = d0; if (D > 1) v[1] = d1; if (D > 2) v[2] = d2; if (D > 3) v[3] = d3;
  auto r = ComputeIndices(idx, v);
  vf::check(r.size() == D, "one coordinate per dimension");
  if (r.size() != D) return;
  vf::check(r[0] < d0, "coordinate 0 inside its dimension");
  if (D > 1) vf::check(r[1] < d1, "coordinate 1 inside its dimension");
  if (D > 2) vf::check(r[2] < d2, "coordinate 2 inside its dimension");
  if (D > 3) vf::check(r[3] < d3, "coordinate 3 inside its dimension");
  uint64_t h = r[0];
  if (D > 1) h = h * d1 + r[1];
  if (D > 2) h = h * d2 + r[2];
  if (D > 3) h = h * d3 + r[3];
  vf::check(h == idx, "coordinates address exactly the requested plaintext");
  vf::cover("end");
}
VF_HARNESS(dims1) { dims<1>(); }
VF_HARNESS(dims2) { dims<2>(); }
VF_HARNESS(dims3) { dims<3>(); }
VF_HARNESS(dims4) { dims<4>(); }
VF_HARNESS(indices1) { indices<1>(); }
VF_HARNESS(indices2) { indices<2>(); }
VF_HARNESS(indices3) { indices<3>(); }
VF_HARNESS(indices4) { indices<4>(); }

// elements of the database fit the plaintexts that are allocated for them
VF_HARNESS(layout) {
  uint64_t logt = vf::u64("logt", 1, 60), N = vf::u64("N", 1, 1ULL << 16), ele = vf::u64("ele_size", 1, 1ULL << 24), num = vf::u64("ele_num", 1, 1ULL << 40);
  vf::assume(ele * 8 <= logt * N);  // one element fits one plaintext (larger rows are partitioned first)
  uint64_t per = ElementsPerPtxt(logt, N, ele);
  uint64_t c = CoefficientsPerElement(logt, ele);
  uint64_t pts = PlaintextsPerDb(logt, N, num, ele);
  vf::check(c * logt >= ele * 8, "coefficients of an element hold all its bits");
  vf::check(per >= 1 && per * c <= N, "elements of a plaintext fit its slots");
  vf::check(pts * per >= num, "plaintexts hold every element");
  vf::check((pts - 1) * per < num, "no superfluous plaintext");
  vf::cover("end");
}
VF_HARNESS(locate) {
  uint64_t per = vf::u64("per", 1, 1ULL << 20), i = vf::u64("i", 0, 1ULL << 40), j = vf::u64("j", 0, 1ULL << 40);
  SealPirClient c; c.pir_params_.elements_per_plaintext = per;
  vf::check(c.GetPtOffset(i) < per, "offset inside the plaintext");
  vf::check(c.GetPtIndex(i) * per + c.GetPtOffset(i) == i, "position recovers the row");
  vf::check(i == j || c.GetPtIndex(i) != c.GetPtIndex(j) || c.GetPtOffset(i) != c.GetPtOffset(j), "distinct rows have distinct positions");
  vf::cover("end");
}

#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <ostream>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "spdlog/spdlog.h"
#include "vf_vec.h"
#include "libdivide.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/math/gadget.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
#include "absl/strings/escaping.h"
#include "vf_memory.h"
namespace yacl { bool vf_has_avx2 = false; }
using u128 = unsigned __int128;
#ifndef VF_SYMBOLIC
#include "psi/algorithm/rr22/okvs/galois128.cc"
#endif
#include "psi/algorithm/rr22/okvs/aes_crhash.cc"
#include "psi/algorithm/rr22/okvs/paxos_hash.cc"
using namespace psi::rr22::okvs;
static u128 in(const char* h, const char* l) { uint64_t x = vf::u64(h), y = vf::u64(l); return ((u128)x << 64) | y; }
// largest size the index type can number (the batch path compares as signed 64-bit numbers)
template <class T> static constexpr uint64_t limit() { return sizeof(T) >= 8 ? (1ULL << 62) : (1ULL << (8 * sizeof(T) % 64)); }
// a row of any weight
template <class T> static void row() {
  uint64_t w = vf::len("weight", 1, 1ULL << 30, 12);
  uint64_t size = vf::u64("size", w, limit<T>());
#ifndef VF_SYMBOLIC
  if (!vf::N().replay && vf::N().next() % 2) { size = w + vf::N().next() % 6; vf::N().log.back().second[0] = size; }
#endif
  PaxosHash<T> p;
  p.weight = w;
  p.sparse_size = size;
  if (w == 3) return;
  std::vector<T> r(w);
  vf::name(r, "row");
  p.BuildRow(in("hi", "lo"), absl::MakeSpan(r));
  VF_FORALL(i, 0, w) {
    vf::check(r[i] < size, "a row's positions are below the size");
    VF_FORALL(j, i + 1, w) vf::check(r[i] < r[j], "a row's positions are strictly increasing, hence distinct");
  }
  vf::cover("end");
}
#define TYPES(X) X(u8, uint8_t) X(u16, uint16_t) X(u32, uint32_t) X(u64, uint64_t) X(u128, unsigned __int128)
#define H3(n, t) VF_HARNESS(row_##n) { row<t>(); }
TYPES(H3)

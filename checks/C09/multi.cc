// callers of BuildRow / BuildRow32, checked against the callees' contracts
#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <ostream>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "spdlog/spdlog.h"
#include "vf_vec.h"
#include "libdivide.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/math/gadget.h"
#include "yacl/utils/platform_utils.h"
#include "cpuinfo_x86.h"
#include "absl/strings/escaping.h"
#include "vf_memory.h"
namespace yacl { bool vf_has_avx2 = false; }
using u128 = unsigned __int128;
#ifdef VF_SYMBOLIC
#include "psi/algorithm/rr22/okvs/paxos_hash.h"
using namespace psi::rr22::okvs;
namespace psi::rr22::okvs {
void AesCrHash::Hash(absl::Span<const u128> in, absl::Span<u128> out) const {
  for (size_t i = 0; i < in.size(); i++) out[i] = Encrypt(in[i]) ^ in[i];
}
// contract of BuildRow: it fills exactly its row, as a function of the hash (harnesses row_*, one3_*).  Ghost state: which
// of the 32 rows was built from which hash
static u128* g_hash;
static uint64_t* g_rows;
static uint64_t g_w;
static bool g_done[32];
#ifndef VF_HASHED
template <class T> void PaxosHash<T>::BuildRow(const u128& hash, absl::Span<T> rows) const {
  vf::check(rows.size() == g_w, "BuildRow gets room for one row");
  for (uint64_t k = 0; k < 32; k++) {
    bool here = (void*)rows.data() == (void*)(g_rows + k * g_w);
    vf::check(!here || hash == g_hash[k], "a row is built from its own hash");
    g_done[k] |= here;
  }
}
#else
template <class T> void PaxosHash<T>::BuildRow(const u128& hash, absl::Span<T> rows) const {
  vf::check(rows.size() == weight, "BuildRow gets room for one row");
  g_hash = (u128*)&hash;
}
#endif
}
#ifdef VF_HASHED
static uint64_t g_calls;
static u128* g_hash32;
static uint32_t* g_rows32;
template <> void PaxosHash<uint32_t>::BuildRow32(const absl::Span<u128> hash, absl::Span<uint32_t> rows) const {
  vf::check(hash.data() == g_hash32 && hash.size() == 32 && rows.data() == g_rows32 && rows.size() == 32 * weight, "the rows are built from the hashes just computed");
  g_calls++;
}
#endif
#include "gen.h"
#else
#include "psi/algorithm/rr22/okvs/galois128.cc"
#include "psi/algorithm/rr22/okvs/aes_crhash.cc"
#include "psi/algorithm/rr22/okvs/paxos_hash.cc"
#endif
using namespace psi::rr22::okvs;
static u128 in(const char* h, const char* l) { uint64_t x = vf::u64(h), y = vf::u64(l); return ((u128)x << 64) | y; }
#ifndef VF_HASHED
// any weight without the vector path: 32 rows at once are the 32 rows one after another
VF_HARNESS(multi) {
  uint64_t w = vf::len("weight", 1, 1ULL << 30, 12);
  yacl::vf_has_avx2 = vf::flag("avx2");
  if (w == 3) yacl::vf_has_avx2 = false;
  PaxosHash<uint64_t> p;
  p.weight = w;
  p.sparse_size = vf::u64("size", w, 1ULL << 62);
  std::vector<u128> h = vf::vec<u128>("hash", 32, 0, ~0ULL);
  std::vector<uint64_t> rows(32 * w);
  vf::name(rows, "rows");
#ifdef VF_SYMBOLIC
  for (uint64_t k = 0; k < 32; k++) g_done[k] = false;
  g_hash = h.data();
  g_rows = rows.data();
  g_w = w;
#endif
  p.BuildRow32(absl::MakeSpan(h), absl::MakeSpan(rows));
#ifdef VF_SYMBOLIC
  for (uint64_t k = 0; k < 32; k++) vf::check(g_done[k], "each of the 32 rows is built");
#else
  std::vector<uint64_t> row(w);
  for (uint64_t k = 0; k < 32; k++) {
    p.BuildRow(h[k], absl::MakeSpan(row));
    VF_FORALL(t, 0, w) vf::check(rows[k * w + t] == row[t], "a row built in a batch equals the row built alone");
  }
#endif
  vf::cover("end");
}
#else
// hashing and building in one go
VF_HARNESS(hashed) {
  PaxosHash<uint32_t> p;
  p.weight = vf::len("weight", 1, 1ULL << 30, 12);
  p.sparse_size = vf::u64("size", p.weight, 1ULL << 32);
  u128 key = in("key_hi", "key_lo");
  p.aes_crhash = std::make_shared<AesCrHash>(key);
  AesCrHash aes(key);
  std::vector<u128> x = vf::vec<u128>("in", 32, 0, ~0ULL), h(32);
  uint64_t len = vf::len("len", 0, 1ULL << 35, 400);
  if (vf::flag("right")) len = 32 * p.weight;
  std::vector<uint32_t> rows(len);
  vf::may_throw(len != 32 * p.weight);
#ifdef VF_SYMBOLIC
  g_calls = 0;
  g_hash32 = h.data();
  g_rows32 = rows.data();
#endif
  p.HashBuildRow32(absl::Span<const u128>(x.data(), 32), absl::MakeSpan(rows), absl::MakeSpan(h));
  vf::check(len == 32 * p.weight, "rows of the wrong size are refused");
  for (uint64_t k = 0; k < 32; k++) vf::check(h[k] == (aes.Encrypt(x[k]) ^ x[k]), "a batch hash is the hash of its own input");
#ifdef VF_SYMBOLIC
  vf::check(g_calls == 1, "the rows are built once");
#else
  std::vector<uint32_t> row(p.weight);
  for (uint64_t k = 0; k < 32; k++) {
    u128 one;
    p.HashBuildRow1(x[k], absl::MakeSpan(row), &one);
    vf::check(h[k] == one, "a hash computed in a batch equals the hash computed alone");
    VF_FORALL(t, 0, p.weight) vf::check(rows[k * p.weight + t] == row[t], "a row built in a batch equals the row built alone");
  }
#endif
  vf::cover("end");
}
VF_HARNESS(hashed1) {
  PaxosHash<uint32_t> p;
  p.weight = vf::len("weight", 1, 1ULL << 30, 12);
  p.sparse_size = vf::u64("size", p.weight, 1ULL << 32);
  u128 key = in("key_hi", "key_lo");
  p.aes_crhash = std::make_shared<AesCrHash>(key);
  AesCrHash aes(key);
  u128 x = in("hi", "lo"), h;
  std::vector<uint32_t> rows(p.weight);
  p.HashBuildRow1(x, absl::MakeSpan(rows), &h);
  vf::check(h == (aes.Encrypt(x) ^ x), "a hash is the hash of its own input");
#ifdef VF_SYMBOLIC
  vf::check(*g_hash == h, "the row is built from the hash just computed");
#else
  std::vector<uint32_t> row(p.weight);
  p.BuildRow(h, absl::MakeSpan(row));
  vf::check(rows == row, "the row is built from the hash just computed");
#endif
  vf::cover("end");
}
#endif

#include <algorithm>
#include <memory>
#include <vector>
#include "vf_vec.h"
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
namespace yacl::link { struct Context { uint64_t self; }; }
// assumed contract of the link layer: slot k of the gathered list is the size party k announced
static std::vector<size_t>* g_sizes;
namespace psi {
std::vector<size_t> AllGatherItemsSize(const std::shared_ptr<yacl::link::Context>& c, size_t self_size) {
  return *g_sizes;
}
}
#include "bucket_gen.h"

static uint64_t run(std::vector<size_t>& s, uint64_t me, uint64_t bs) {
  g_sizes = &s;
  std::shared_ptr<yacl::link::Context> c;
  return psi::NegotiateBucketNum(c, s[me], bs, 0);
}
#define SETUP(LO, HI)                                    \
  uint64_t n = vf::len("parties", 1, 1ULL << 16, 6);     \
  uint64_t me = vf::u64("rank", 0, n - 1);               \
  std::vector<size_t> s = vf::vec<size_t>("sizes", n, LO, HI); \
  uint64_t r = run(s, me, bs);

VF_HARNESS(upper) {
  uint64_t bs = vf::u64("bucket_size", 1, 1ULL << 40);
  SETUP(1, 1ULL << 50)
  VF_FORALL(k, 0, n) { vf::check(r >= 1, "non-empty inputs give at least one bucket");
     vf::check((unsigned __int128)r * bs >= s[k], "buckets hold every party's items"); }
  vf::cover("end");
}
VF_HARNESS(least) {
  uint64_t bs = vf::u64("bucket_size", 1, 1ULL << 20);
  uint64_t B = vf::u64("bound", 1, 1ULL << 20);
  SETUP(1, B * bs)
  vf::check(r <= B, "bucket count is the least that holds every party's items");
  vf::cover("end");
}
VF_HARNESS(empty) {
  uint64_t bs = vf::u64("bucket_size", 1, 1ULL << 40);
  SETUP(0, 1ULL << 50)
  VF_FORALL(k, 0, n) vf::check(s[k] != 0 || r == 0, "no bucket is run when some party has no items");
  vf::cover("end");
}

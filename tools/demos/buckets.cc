// extract: gen.h psi/utils/bucket.cc NegotiateBucketNum AllGatherItemsSize
#include <algorithm>
#include <cstdio>
#include <memory>
#include <vector>
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
namespace yacl::link { struct Context {}; }
static std::vector<size_t> g;
namespace psi { std::vector<size_t> AllGatherItemsSize(const std::shared_ptr<yacl::link::Context>&, size_t) { return g; } }
#include "gen.h"
int main() {
  for (auto s : {std::vector<size_t>{10, 25}, {7, 100, 31}, {20, 20}}) for (size_t bs : {1, 10, 20}) {
    g = s; size_t mx = *std::max_element(s.begin(), s.end());
    for (size_t me : s) {
      size_t r = psi::NegotiateBucketNum(nullptr, me, bs, 0);
      if (r != (mx + bs - 1) / bs) { printf("party with %zu items computes %zu buckets, needs %zu\n", me, r, (mx + bs - 1) / bs); return 1; }
    }
  }
  return 0;
}

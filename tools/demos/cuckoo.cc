// extract: gen.h psi/utils/cuckoo_index.h CuckooIndex
// extract: gen.h psi/utils/cuckoo_index.cc CuckooIndex::CuckooIndex,CuckooIndex::Insert,CuckooIndex::PutToStash,CuckooIndex::MinCollidingHashIdx
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <set>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "gen.h"
using psi::CuckooIndex;
static uint64_t s = 88172645463325252ULL;
static uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
int main() {
  for (int it = 0; it < 4001; it++) {
    bool big = it == 4000;
    CuckooIndex::Options o{1 + rnd() % 40, rnd() % 4, 1 + rnd() % 5, 1.0 + (rnd() % 8) * 0.2};
    o.max_try_count = rnd() % 40;
    if (big) o = {150000, 1000, 3, 4.0};
    CuckooIndex c(o);
    size_t n = 0, batches = big ? 3 : 1 + rnd() % 3;
    bool thrown = false;
    for (size_t q = 0; q < batches && !thrown; q++) {
      std::vector<CuckooIndex::HashType> codes(big ? 50000 : rnd() % (o.num_input - n + 1));
      for (auto& x : codes) x = ((CuckooIndex::HashType)rnd() << 64) | rnd();
      try { c.Insert(codes); n += codes.size(); } catch (...) { thrown = true; }
    }
    if (thrown && big) { printf("insertion failed\n"); return 1; }
    if (thrown) continue;
    std::vector<int> seen(n, 0);
    for (size_t b = 0; b < c.bins().size(); b++) {
      auto t = c.bins()[b];
      if (t.IsEmpty()) continue;
      if (t.InputIdx() >= n || t.HashIdx() >= o.num_hash) { printf("bin %zu holds input %zu by hash %d\n", b, (size_t)t.InputIdx(), t.HashIdx()); return 1; }
      seen[t.InputIdx()]++;
      auto h = [&](uint64_t i) { return c.hashes()[t.InputIdx()].GetHash(i) % c.bins().size(); };
      if (h(t.HashIdx()) != b) { printf("bin %zu: the recorded hash function does not map there\n", b); return 1; }
      uint64_t m = 0;
      while (h(m) != b) m++;
      if (c.MinCollidingHashIdx(b) != m) { printf("bin %zu: least hash function %zu, reported %d\n", b, (size_t)m, c.MinCollidingHashIdx(b)); return 1; }
    }
    for (auto t : c.stash()) if (!t.IsEmpty()) {
      if (t.InputIdx() >= n) { printf("stash holds unknown input\n"); return 1; }
      seen[t.InputIdx()]++;
    }
    for (size_t i = 0; i < n; i++) if (seen[i] != 1) { printf("input %zu of %zu is in %d places\n", i, n, seen[i]); return 1; }
  }
  return 0;
}

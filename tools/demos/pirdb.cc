// extract: gen.h psi/algorithm/pir_interface/pir_db.h RawDatabase
// extract: gen.h psi/algorithm/pir_interface/pir_db.cc RawDatabase::Combine,RawDatabase::Partition
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <memory>
#include <vector>
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "gen.h"
using psi::pir::RawDatabase;
int main() {
  for (size_t L = 1; L < 40; L++) for (size_t P = 1; P < 45; P++) for (size_t R : {1, 3}) {
    std::vector<std::vector<uint8_t>> db(R, std::vector<uint8_t>(L));
    for (size_t r = 0; r < R; r++) for (size_t i = 0; i < L; i++) db[r][i] = 1 + (r * 71 + i * 13) % 251;
    RawDatabase raw(R, L, db);
    auto parts = raw.Partition(P);
    size_t w = L <= P ? L : P, n = (L + w - 1) / w;
    if (parts.size() != n) { printf("%zu partitions\n", parts.size()); return 1; }
    for (size_t p = 0; p < n; p++) for (size_t r = 0; r < R; r++) {
      if (parts[p].At(r).size() != w || parts[p].RowByteLen() != w) { printf("partition row length\n"); return 1; }
      for (size_t q = 0; q < w; q++) {
        uint8_t e = p * w + q < L ? db[r][p * w + q] : 0;
        if (parts[p].At(r)[q] != e) { printf("rows of %zu bytes, partitions of %zu: byte %zu of partition %zu differs\n", L, P, q, p); return 1; }
      }
    }
    for (size_t r = 0; r < R; r++) {
      std::vector<std::vector<uint8_t>> d;
      for (auto& p : parts) d.push_back(p.At(r));
      if (RawDatabase::Combine(d, L) != db[r]) { printf("rows of %zu bytes, partitions of %zu: row not restored\n", L, P); return 1; }
    }
    if (L > P) {
      std::vector<std::vector<uint8_t>> d;
      for (auto& p : parts) d.push_back(p.At(0));
      for (size_t k = 0; k < d.size(); k++) {
        auto e = d; e[k].push_back(0);
        bool ok = false;
        try { RawDatabase::Combine(e, L); } catch (...) { ok = true; }
        if (!ok && d.size() > 1) { printf("partitions of different lengths accepted (partition %zu of %zu)\n", k, d.size()); return 1; }
      }
    }
  }
  return 0;
}

#pragma once
#include <vector>
#include "vf.h"
namespace vf {
template <class T>
static inline std::vector<T> vec(const char* name, uint64_t n, uint64_t lo = 0, uint64_t hi = (sizeof(T) == 8 ? ~0ULL : (1ULL << (8 * sizeof(T) % 64)) - 1)) {
  std::vector<T> v(n);
#ifdef VF_SYMBOLIC
  vf_input_arr_(v.data(), name, sizeof(T) * 8, n, lo, hi);
#else
  auto& N_ = N();
  std::vector<uint64_t> raw(n);
  if (N_.replay) {
    auto it = N_.in.find(name);
    for (uint64_t i = 0; i < n; i++) {
      raw[i] = it != N_.in.end() && i < it->second.size() ? it->second[i] : lo;
      if (raw[i] < lo || raw[i] > hi) throw Skip();
    }
  } else {
    uint64_t mode = N_.next() % 4;
    uint64_t a = N_.pick(lo, hi), b = N_.pick(lo, hi);
    for (uint64_t i = 0; i < n; i++)
      raw[i] = mode == 0 ? N_.pick(lo, hi) : mode == 1 ? (N_.next() & 1 ? a : b) : mode == 2 ? (hi - lo < 5 ? N_.pick(lo, hi) : lo + N_.next() % 5) : N_.pick(lo, hi);
  }
  for (uint64_t i = 0; i < n; i++) v[i] = (T)raw[i];
  N_.log.push_back({name, raw});
#endif
  return v;
}
// n rows of arbitrary lengths (len: all equal when len != ~0)
template <class T>
static inline std::vector<std::vector<T>> rows(const char* name, uint64_t n, uint64_t maxlen, uint64_t natlen) {
  std::vector<std::vector<T>> v(n);
#ifdef VF_SYMBOLIC
  vf_input_rows_(v.data(), 0, name, sizeof(T) * 8, maxlen);
#else
  auto& N_ = N();
  uint64_t L = N_.next() % (natlen + 1);
  bool eq = N_.next() % 4 != 0;
  for (uint64_t i = 0; i < n; i++) {
    std::string nm = std::string(name) + "_" + std::to_string(i);
    uint64_t k = eq ? L : N_.next() % (natlen + 1);
    if (N_.replay) k = N_.in.count(nm) ? N_.in[nm].size() : 0;
    std::vector<uint64_t> raw(k);
    for (uint64_t j = 0; j < k; j++) raw[j] = N_.replay ? N_.in[nm][j] : N_.next();
    v[i].resize(k);
    for (uint64_t j = 0; j < k; j++) v[i][j] = (T)raw[j];
    N_.log.push_back({nm, raw});
  }
#endif
  return v;
}
template <class V>
static inline void name(const V& v, const char* nm) {
#ifdef VF_SYMBOLIC
  vf_name_(v.data(), nm);
#endif
}
}  // namespace vf

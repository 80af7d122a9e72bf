// Contract vocabulary.  The same harness text is (a) compiled to LLVM IR and proved for all inputs by the
// deductive verifier (VF_SYMBOLIC) and (b) compiled natively against the real standard library, where
// the same contracts are evaluated on concrete inputs (counterexample replay, bounded search).
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef VF_SYMBOLIC
extern "C" {
uint64_t vf_u64_(const char* name, uint64_t lo, uint64_t hi);
uint64_t vf_any_(uint64_t lo, uint64_t hi);
void vf_assume_(bool c);
void vf_check_(bool c, const char* name);
void vf_cover_(const char* name);
void vf_throw_(void);
void vf_may_throw_(bool c);
void* vf_alloc_(uint64_t unit, uint64_t n, bool zero);
void vf_rows_(void* base, uint64_t rem, uint64_t unit);
void vf_clear_rows_(void* base, uint64_t rem, uint64_t lo, uint64_t hi);
void vf_copy_rows_(void* dst, const void* src, uint64_t n);
void vf_rowlen_(const void* row, uint64_t n);
void* vf_row0_(void* base, uint64_t rem);
void vf_watch_(uint64_t x);
void vf_watchable_(void* d, bool rows);
uint64_t vf_watch_get_(const void* d, uint64_t n);
void vf_watch_put_(void* d, uint64_t c);
void vf_sorted_(void* d, uint64_t n, uint64_t w);
void vf_sorted_pairs_(void* p, uint64_t n);
void vf_shuffled_(void* p, uint64_t n);
void vf_axiom_(const char* name);
uint64_t vf_count_(const char* pred, const void* p, uint64_t n);
void vf_input_elems_(void* base, uint64_t rem, const char* name, uint64_t maxlen);
void vf_field_range_(const char* name, uint64_t rem, uint64_t w, uint64_t lo, uint64_t hi);
uint64_t vf_strid_(const char* s);
void vf_input_rows_(void* base, uint64_t rem, const char* name, uint64_t w, uint64_t maxlen);
void vf_setsize_(void* p, uint64_t n);
uint64_t vf_size_(const void* p);
void vf_input_arr_(void* p, const char* name, uint64_t w, uint64_t n, uint64_t lo, uint64_t hi);
void vf_name_(const void* p, const char* name);
void vf_ghost_(uint64_t v, const char* name);
uint64_t vf_uf1_(const char* nm, uint64_t a);
uint64_t vf_uf2_(const char* nm, uint64_t a, uint64_t b);
uint64_t vf_uf3_(const char* nm, uint64_t a, uint64_t b, uint64_t c);
uint64_t vf_uf4_(const char* nm, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void vf_fill_(void* p, uint64_t lo, uint64_t hi, uint64_t w, uint64_t v);
void vf_zero_range_(void* p, uint64_t lo, uint64_t hi);
}
#define VF_HARNESS(nm) extern "C" __attribute__((noinline)) void vf_harness_##nm()
// "for all k in [lo,hi)": one arbitrary index (skolemised universal goal)
#define VF_FORALL(k, lo, hi) \
  if (uint64_t vf_lo_ = (lo), vf_hi_ = (hi); vf_lo_ < vf_hi_) \
    if (uint64_t k = vf_any_(vf_lo_, vf_hi_); true)
namespace vf {
static inline uint64_t u64(const char* n, uint64_t lo = 0, uint64_t hi = ~0ULL) { return vf_u64_(n, lo, hi); }
static inline uint64_t len(const char* n, uint64_t lo, uint64_t hi, uint64_t) { return vf_u64_(n, lo, hi); }
static inline bool flag(const char* n) { return vf_u64_(n, 0, 1) != 0; }
static inline void assume(bool c) { vf_assume_(c); }
static inline void check(bool c, const char* n) { vf_check_(c, n); }
static inline void cover(const char* n) { vf_cover_(n); }
static inline void may_throw(bool c) { vf_may_throw_(c); }
static inline void ghost(uint64_t v, const char* n) { vf_ghost_(v, n); }
[[noreturn]] static inline void thrown() { vf_throw_(); __builtin_unreachable(); }
}  // namespace vf
#else
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <functional>
namespace vf {
struct Skip {};
struct Thrown {};
struct Native {
  uint64_t seed = 1, s = 1;
  bool replay = false, may = false, failed = false;
  std::map<std::string, std::vector<uint64_t>> in;      // replay values
  std::vector<std::pair<std::string, std::vector<uint64_t>>> log;
  std::map<std::string, uint64_t> covers;
  std::string fail;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t pick(uint64_t lo, uint64_t hi) {
    if (lo >= hi) return lo;
    uint64_t span = hi - lo;
    uint64_t r = next();
    switch (r % 8) {
      case 0: return lo;
      case 1: return hi;
      case 2: { uint64_t d = next() % 4; return lo + (d < span ? d : span); }
      case 3: { uint64_t d = next() % 4; return hi - (d < span ? d : span); }
      case 4: {  // around a power of two
        unsigned b = next() % 64;
        uint64_t v = (1ULL << b) + (next() % 3) - 1;
        if (v >= lo && v <= hi) return v;
        break; }
      case 5: {  // small magnitude
        unsigned b = next() % 64;
        uint64_t v = next() & ((b == 63) ? ~0ULL : ((1ULL << (b + 1)) - 1));
        if (v >= lo && v <= hi) return v;
        break; }
      default: break;
    }
    return span == ~0ULL ? next() : lo + next() % (span + 1);
  }
  uint64_t val(const char* n, uint64_t lo, uint64_t hi) {
    if (replay) {
      auto it = in.find(n);
      uint64_t v = it != in.end() && !it->second.empty() ? it->second[0] : lo;
      if (v < lo || v > hi) throw Skip();
      log.push_back({n, {v}});
      return v;
    }
    uint64_t v = pick(lo, hi);
    log.push_back({n, {v}});
    return v;
  }
};
Native& N();
struct Reg { Reg(const char* n, void (*f)()); };
static inline uint64_t u64(const char* n, uint64_t lo = 0, uint64_t hi = ~0ULL) { return N().val(n, lo, hi); }
static inline uint64_t len(const char* n, uint64_t lo, uint64_t hi, uint64_t nat) { return N().val(n, lo, hi < nat ? hi : nat); }
static inline bool flag(const char* n) { return N().val(n, 0, 1) != 0; }
static inline void assume(bool c) { if (!c) throw Skip(); }
static inline void check(bool c, const char* n) {
  if (!c && !N().failed) { N().failed = true; N().fail = n; }
}
static inline void cover(const char* n) { N().covers[n]++; }
static inline void may_throw(bool c) { N().may = c; }
static inline void ghost(uint64_t, const char*) {}
[[noreturn]] static inline void thrown() { throw Thrown(); }
}  // namespace vf
#define VF_HARNESS(nm)                       \
  static void vf_harness_##nm();             \
  static vf::Reg vf_reg_##nm(#nm, vf_harness_##nm); \
  static void vf_harness_##nm()
#define VF_FORALL(k, lo, hi) for (uint64_t k = (lo), vf_hi_ = (hi); k < vf_hi_; ++k)
#endif

// "for all k in [0,2^w)" style value choice inside a harness is vf::u64.
// An array input: vf::vec<T>(name, n, lo, hi) is declared in vf_vec.h (needs <vector>).
#define VF_ENFORCE(c) do { if (!(c)) ::vf::thrown(); } while (0)

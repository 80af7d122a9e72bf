// contract of yacl::parallel_for: f is applied to disjoint subranges that together cover [b,e), in some order.
// Model: an arbitrary cut point, the two parts in order (chunks are only required to be disjoint and covering).
#pragma once
#include "vf.h"
#include <cstdint>
namespace yacl {
template <class F> static inline void parallel_for(int64_t b, int64_t e, int64_t grain, F&& f) {
#ifdef VF_SYMBOLIC
  if (b < e) f(b, e);
#else
  if (b >= e) return;
  int64_t m = b + (int64_t)(((uint64_t)(e - b) * 5 + 3) / 8);
  if (m > b && m < e) { f(b, m); f(m, e); } else f(b, e);
#endif
}
template <class F> static inline void parallel_for(int64_t b, int64_t e, F&& f) { parallel_for(b, e, (int64_t)1, static_cast<F&&>(f)); }
}  // namespace yacl

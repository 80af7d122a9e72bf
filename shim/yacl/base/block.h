// contract shim: 128-bit block (yacl::block on x86: a wrapper around __m128i, first argument is the high word)
#pragma once
#include <immintrin.h>
#include <cstdint>
#include <array>
#include "yacl/base/int128.h"
namespace yacl {
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block(uint64_t hi, uint64_t lo) { mData = _mm_set_epi64x((long long)hi, (long long)lo); }
  block(const __m128i& x) { mData = x; }
  block(const uint128_t& x) { mData = _mm_set_epi64x((long long)(x >> 64), (long long)x); }
  block& operator=(const block&) = default;
  operator const __m128i&() const { return mData; }
  operator __m128i&() { return mData; }
  block operator^(const block& r) const { return block(_mm_xor_si128(mData, r.mData)); }
  block operator&(const block& r) const { return block(_mm_and_si128(mData, r.mData)); }
  block operator|(const block& r) const { return block(_mm_or_si128(mData, r.mData)); }
};
}  // namespace yacl

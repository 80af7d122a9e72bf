// contract shim: AES-128 in ECB mode is one fixed function of (key, block), applied block by block
#pragma once
#include <cstdint>
#include <cstring>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType { AES128_ECB };
  SymmetricCrypto(CryptoType, uint128_t key, uint128_t) : key_(key) {}
  SymmetricCrypto(CryptoType, ByteContainerView key, ByteContainerView) : key_(0) { std::memcpy(&key_, key.data(), 16); }
  static constexpr int BlockSize() { return 16; }
  uint128_t Encrypt(uint128_t x) const {
#ifdef VF_SYMBOLIC
    uint64_t k = (uint64_t)key_, h = (uint64_t)(key_ >> 64);
    return ((uint128_t)vf_uf4_("aes_hi", h, k, (uint64_t)(x >> 64), (uint64_t)x) << 64) | vf_uf4_("aes_lo", h, k, (uint64_t)(x >> 64), (uint64_t)x);
#else
    uint128_t v = x * (((uint128_t)0x9E3779B97F4A7C15 << 64) | 0xF39CC0605CEDC835) + key_;
    v ^= v >> 61;
    v *= ((uint128_t)0xD1342543DE82EF95 << 64) | 0x9E3779B97F4A7C15;
    return v ^ (v >> 64);
#endif
  }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    for (size_t i = 0; i < in.size(); i++) out[i] = Encrypt(in[i]);
  }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    for (size_t i = 0; i + 16 <= in.size(); i += 16) {
      uint128_t x;
      std::memcpy(&x, in.data() + i, 16);
      x = Encrypt(x);
      std::memcpy(out.data() + i, &x, 16);
    }
  }

 protected:
  uint128_t key_;
};
}  // namespace yacl::crypto

#pragma once
namespace yacl {
// which implementation the host selects is a parameter of the harness: both are checked
extern bool vf_has_avx2;
inline bool hasAVX2() { return vf_has_avx2; }
}  // namespace yacl

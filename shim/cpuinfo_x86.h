#pragma once
namespace cpu_features {
struct X86Features { int pclmulqdq = 1; };
struct X86Info { X86Features features; };
inline X86Info GetX86Info() { return X86Info(); }
}  // namespace cpu_features

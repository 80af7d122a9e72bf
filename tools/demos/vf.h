#pragma once
#include <cstdint>
#include <stdexcept>
#define VF_ENFORCE(c) do { if (!(c)) ::vf::thrown(); } while (0)
namespace vf { [[noreturn]] static inline void thrown() { throw std::runtime_error("enforce"); } }

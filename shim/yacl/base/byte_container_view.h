#pragma once
#include <cstdint>
#include "absl/types/span.h"
namespace yacl { using ByteContainerView = absl::Span<const uint8_t>; }

#pragma once
#include <cstdint>
namespace yacl { class ElapsedTimer { public: void Restart() {} double CountMs() const { return 0; } double CountSec() const { return 0; } }; }

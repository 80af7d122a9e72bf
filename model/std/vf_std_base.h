// shared by the model containers (specification-level std library used only when generating verification conditions)
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <new>
#include <type_traits>
#include <utility>
#include <cstring>
#include "vf.h"
#include "vf_traits.h"

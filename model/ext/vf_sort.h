#pragma once
#ifdef VF_SYMBOLIC
#include "vf_std_base.h"
#include <algorithm>
namespace std { template <class T> VF_AI void vf_sort(T* b, T* e) { vf_sorted_(b, e - b, sizeof(T) * 8); }
VF_AI void vf_sort(std::pair<uint64_t, uint64_t>* b, std::pair<uint64_t, uint64_t>* e) { vf_sorted_pairs_(b, e - b); } }
#define sort vf_sort
#endif

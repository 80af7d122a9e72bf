#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <bits/stl_pair.h>
#include "vf.h"
#define VF_AI inline __attribute__((always_inline))
namespace std {
template <class T> struct vf_zero : std::bool_constant<std::is_trivially_default_constructible<T>::value> {};
template <class A, class B> struct vf_zero<std::pair<A, B>> : std::bool_constant<vf_zero<A>::value && vf_zero<B>::value> {};
template <class T> struct vf_triv : std::bool_constant<std::is_trivially_copyable<T>::value> {};
template <class A, class B> struct vf_triv<std::pair<A, B>> : std::bool_constant<vf_triv<A>::value && vf_triv<B>::value> {};
// class types that wrap one integer
template <class T> struct vf_scalar : std::false_type {};
template <class T> struct vf_row : std::false_type {};
// element types that own containers: each container field is a family of rows indexed by the element
//   decl(base): declare the families; copy(dst, src, n): copy n elements including their rows
template <class T> struct vf_nest : std::false_type {};
template <class T> struct vf_watched : std::bool_constant<std::is_same<T, uint64_t>::value || std::is_same<T, uint32_t>::value || std::is_same<T, unsigned long long>::value> {};
template <class K, class = void> struct vf_key;   // identity of a container key: equal keys have equal identity
template <class K> struct vf_key<K, std::enable_if_t<std::is_integral<K>::value>> { static VF_AI uint64_t get(const K& k) { return (uint64_t)k; } };
}  // namespace std

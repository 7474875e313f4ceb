// Contract harness support for short vectors: one instance per element type and arity.
#ifndef V_HPP
#define V_HPP
#include "vc.hpp"
#include <cmath>
#include <cstring>
#include <utility>
#include <initializer_list>
#ifdef VC_GNUC
// clang claims to be GCC 4; the library uses AVX512 from GCC 7 on
#include <cassert>
#include <sstream>
#include <iostream>
#include <vector>
#include <stdexcept>
#include <stdint.h>
#include <immintrin.h>
#undef __GNUC__
#define __GNUC__ 13
#endif
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>
#include <libflatarray/ilp_to_arity.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
using namespace LibFlatArray;
#define VC_HARNESS(NAME) extern "C" void NAME()
#define VC_ROW(F, T) \
    extern "C" void F##_##T##_1()  { F<T, 1>(); }  extern "C" void F##_##T##_2()  { F<T, 2>(); } \
    extern "C" void F##_##T##_4()  { F<T, 4>(); }  extern "C" void F##_##T##_8()  { F<T, 8>(); } \
    extern "C" void F##_##T##_16() { F<T, 16>(); } extern "C" void F##_##T##_32() { F<T, 32>(); }
// engine/build.py expands the same names
#define VC_MATRIX(F) VC_ROW(F, float) VC_ROW(F, double) VC_ROW(F, int)
#define VC_MATRIX_F(F) VC_ROW(F, float) VC_ROW(F, double)
#define VC_MATRIX_I(F) VC_ROW(F, int)

inline void same(float a, float b, const char *l) { vc_same_f32(a, b, l); }
inline void same(double a, double b, const char *l) { vc_same_f64(a, b, l); }
inline void same(int a, int b, const char *l) { vc_same_i32(a, b, l); }

template<typename T, std::size_t N>
inline void lanes(const short_vec<T, N>& v, const T *want, const char *l)
{
    T r[N];
    v.store(r);
    for (std::size_t i = 0; i < N; ++i) same(r[i], want[i], l);
}
#endif

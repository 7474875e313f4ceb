import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
H='''#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <libflatarray/aligned_allocator.hpp>
#include <cstdio>
#include <cmath>
#include <limits>
#include <vector>
#include <type_traits>
using namespace LibFlatArray;
#define CHECK(X) do { if (!(X)) { std::printf("failed: %s\\n", #X); return 1; } } while (0)
'''
mk('v01-sse2-int-mul','V01',[('detail/short_vec_sse_int_4.hpp','    short_vec<int, 4> operator*(const short_vec<int, 4>& other) const\n    {\n        // see: https://software.intel.com/en-us/forums/intel-c-compiler/topic/288768\n        __m128i tmp1 = _mm_mul_epu32(val, other.val);\n        __m128i tmp2 = _mm_mul_epu32(_mm_srli_si128(val, 4),\n                                     _mm_srli_si128(other.val, 4));','    short_vec<int, 4> operator*(const short_vec<int, 4>& other) const\n    {\n        // see: https://software.intel.com/en-us/forums/intel-c-compiler/topic/288768\n        __m128i tmp1 = _mm_mul_epu32(val, other.val);\n        __m128i tmp2 = _mm_mul_epu32(_mm_srli_si128(val, 4),\n                                     _mm_srli_epi64(_mm_slli_epi32(other.val, 1), 33));')],
H+'''int main() {
  int a[4] = {3, -5, 7, -2147483647 - 1}, b[4] = {11, -4, -6, 5}, r[4];
  short_vec<int, 4> x(a), y(b);
  (x * y).store(r);
  for (int i = 0; i < 4; ++i) CHECK(r[i] == int(unsigned(a[i]) * unsigned(b[i])));
  x *= y; x.store(r);
  for (int i = 0; i < 4; ++i) CHECK(r[i] == int(unsigned(a[i]) * unsigned(b[i])));
  return 0; }
''','code built for plain SSE2 and a negative second factor in an odd lane','operator* of 4 ints loses the sign of the second factor in odd lanes',flags='-march=x86-64')
mk('v02-le-unordered','V02',[('detail/short_vec_avx_float_16.hpp','''            _mm256_cmp_ps(val[ 0], other.val[ 0], _CMP_LE_OS),
            _mm256_cmp_ps(val[ 1], other.val[ 1], _CMP_LE_OS));''','''            _mm256_cmp_ps(val[ 0], other.val[ 0], _CMP_LE_OS),
            _mm256_cmp_ps(val[ 1], other.val[ 1], _CMP_NGT_US));''')],
H+'''int main() {
  float a[16], b[16];
  for (int i = 0; i < 16; ++i) { a[i] = i; b[i] = 7; }
  a[12] = std::numeric_limits<float>::quiet_NaN();
  short_vec<float, 16> x(a), y(b);
  short_vec<float, 16>::mask_type m = x <= y;
  short_vec<float, 16> z(1.0f);
  z.blend(m, short_vec<float, 16>(2.0f));
  float r[16]; z.store(r);
  for (int i = 0; i < 16; ++i) CHECK(r[i] == (a[i] <= b[i] ? 2.0f : 1.0f));
  return 0; }
''','a NaN in the upper half of a 16 lane float vector on AVX','<= holds for unordered lanes',flags='-march=x86-64-v3')
mk('v03-overaligned','V03',[('detail/short_vec_avx_double_4.hpp',"""    void store_aligned(double *data) const
    {
        SHORTVEC_ASSERT_ALIGNED(data, 32);""","""    void store_aligned(double *data) const
    {
        SHORTVEC_ASSERT_ALIGNED(data, 64);""")],
H+"""int main() {
  std::vector<double, aligned_allocator<double, 64> > b(16, -1.0);
  double a[4] = {1, 2, 3, 4};
  short_vec<double, 4> v(a);
  double *p = &b[4];
  v.store_aligned(p);
  for (int i = 0; i < 16; ++i) CHECK(b[i] == (i >= 4 && i < 8 ? a[i - 4] : -1.0));
  return 0; }
""",'an address aligned to 32 but not to 64 bytes','the aligned store of 4 doubles insists on twice the documented alignment',flags='-march=x86-64-v3')
mk('v04-scatter-order','V04',[('detail/short_vec_avx_double_8.hpp',"""        tmp = _mm256_extractf128_pd(val[ 0], 0);
        _mm_storel_pd(ptr + offsets[0], tmp);
        _mm_storeh_pd(ptr + offsets[1], tmp);
        tmp = _mm256_extractf128_pd(val[ 0], 1);
        _mm_storel_pd(ptr + offsets[2], tmp);
        _mm_storeh_pd(ptr + offsets[3], tmp);
""","""        tmp = _mm256_extractf128_pd(val[ 0], 1);
        _mm_storel_pd(ptr + offsets[2], tmp);
        _mm_storeh_pd(ptr + offsets[3], tmp);
        tmp = _mm256_extractf128_pd(val[ 0], 0);
        _mm_storel_pd(ptr + offsets[0], tmp);
        _mm_storeh_pd(ptr + offsets[1], tmp);
""")],
H+"""int main() {
  double a[8] = {1, 2, 3, 4, 5, 6, 7, 8}, m[16];
  int o[8] = {5, 0, 5, 1, 9, 10, 11, 12};
  double w[16];
  for (int i = 0; i < 16; ++i) m[i] = w[i] = 0;
  for (int i = 0; i < 8; ++i) w[o[i]] = a[i];
  short_vec<double, 8>(a).scatter(m, o);
  for (int i = 0; i < 16; ++i) CHECK(m[i] == w[i]);
  return 0; }
""",'equal offsets in lanes 0 and 2 of an 8 lane double vector on AVX','the lower lane wins',flags='-march=x86-64-v3')
mk('v05-int-reciprocal','V05',[('detail/short_vec_avx_int_8.hpp',"""            _mm256_cvttps_epi32(_mm256_div_ps(
                                    _mm256_cvtepi32_ps(val),
                                    _mm256_cvtepi32_ps(other.val))));""","""            _mm256_cvttps_epi32(_mm256_mul_ps(
                                    _mm256_cvtepi32_ps(val),
                                    _mm256_div_ps(_mm256_set1_ps(1.0f), _mm256_cvtepi32_ps(other.val)))));""")],
H+"""int main() {
  int a[8], b[8], r[8];
  for (int k = 1; k < 500; ++k) {
    for (int i = 0; i < 8; ++i) { a[i] = k * (i + 1); b[i] = k; }
    (short_vec<int, 8>(a) / short_vec<int, 8>(b)).store(r);
    for (int i = 0; i < 8; ++i) CHECK(r[i] == a[i] / b[i]);
  }
  return 0; }
""",'divisors whose reciprocal is rounded down, with exact multiples','quotients come out one too small',flags='-march=x86-64-v3')
mk('t01-cache-boundary','T01',[('estimate_optimum_short_vec_type.hpp',"""        ACCESSOR::DIM_PROD * sizeof(typename ACCESSOR::element_type) / LAST_LEVEL_CACHE_SIZE_ESTIMATE;""",
"""        ACCESSOR::DIM_PROD / (LAST_LEVEL_CACHE_SIZE_ESTIMATE / sizeof(typename ACCESSOR::element_type));""")],
H+"""struct elem { char c[48]; };
template<long N> struct acc { typedef elem element_type; static const long DIM_PROD = N; };
int main() {
  typedef estimate_optimum_short_vec_type<double, acc<21>, 1, 1024>::VALUE V;   // 1008 bytes of 1024: fits
  CHECK(V::ARITY >= 2);
  bool plain = std::is_same<V, short_vec<double, V::ARITY> >::value;
  CHECK(plain);
  typedef estimate_optimum_short_vec_type<double, acc<22>, 1, 1024>::VALUE W;
  bool streaming = std::is_same<W, streaming_short_vec<double, W::ARITY> >::value;
  CHECK(streaming);
  return 0; }
""",'an element size that does not divide the cache size','a data set which still fits the cache gets the streaming type',flags='-march=x86-64-v2')

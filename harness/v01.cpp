// V01: lane-wise arithmetic
#include "v.hpp"

template<typename T, std::size_t N>
void arith()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], w[N], s;
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(&s, 1, sizeof(T), "s");
    const V va(a), vb(b);
    const std::size_t n = N;

    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] + b[i];
    lanes<T, N>(va + vb, w, "a + b");
    { V v(va); v += vb; lanes<T, N>(v, w, "a += b"); }
    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] - b[i];
    lanes<T, N>(va - vb, w, "a - b");
    { V v(va); v -= vb; lanes<T, N>(v, w, "a -= b"); }
    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] * b[i];
    lanes<T, N>(va * vb, w, "a * b");
    { V v(va); v *= vb; lanes<T, N>(v, w, "a *= b"); }

    for (std::size_t i = 0; i < n; ++i) w[i] = s + b[i];
    lanes<T, N>(s + vb, w, "s + b");
    lanes<T, N>(vb + s, w, "b + s");
    for (std::size_t i = 0; i < n; ++i) w[i] = s - b[i];
    lanes<T, N>(s - vb, w, "s - b");
    for (std::size_t i = 0; i < n; ++i) w[i] = b[i] - s;
    lanes<T, N>(vb - s, w, "b - s");
    for (std::size_t i = 0; i < n; ++i) w[i] = s * b[i];
    lanes<T, N>(s * vb, w, "s * b");
    lanes<T, N>(vb * s, w, "b * s");

    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] + a[i];
    { V v(va); v += v; lanes<T, N>(v, w, "a += a"); }
    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] - a[i];
    { V v(va); v -= v; lanes<T, N>(v, w, "a -= a"); }
    for (std::size_t i = 0; i < n; ++i) w[i] = a[i] * a[i];
    { V v(va); v *= v; lanes<T, N>(v, w, "a *= a"); }

    // a chain of operations, each in every lane
    for (std::size_t i = 0; i < n; ++i) w[i] = (a[i] * b[i] - b[i]) + s;
    lanes<T, N>((va * vb - vb) + V(s), w, "chain");

    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    vc_cover("end");
}
VC_MATRIX(arith)

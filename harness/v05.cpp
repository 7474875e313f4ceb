// V05: division, square root, reciprocal square root
#include "v.hpp"

template<typename T> struct acc;
template<> struct acc<float>
{
    static void mag(float x) { vc_requires_mag32(x); }
    static void close(float g, float a, float b, int k, const char *l) { vc_close32(g, a, b, k, 11, l); }
};
template<> struct acc<double>
{
    static void mag(double x) { vc_requires_mag64(x); }
    static void close(double g, double a, double b, int k, const char *l) { vc_close64(g, a, b, k, 51, l); }
};
template<typename T, std::size_t N>
void closes(const short_vec<T, N>& v, const T *a, const T *b, int k, const char *l)
{
    T r[N];
    v.store(r);
    for (std::size_t i = 0; i < N; ++i) acc<T>::close(r[i], a[i], b[i], k, l);
}

template<typename T, std::size_t N>
void divide()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], s;
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(&s, 1, sizeof(T), "s");
    for (std::size_t i = 0; i < N; ++i) { acc<T>::mag(a[i]); acc<T>::mag(b[i]); }
    acc<T>::mag(s);
    const V va(a), vb(b);
    closes<T, N>(va / vb, a, b, 0, "a / b");
    { V v(va); v /= vb; closes<T, N>(v, a, b, 0, "a /= b"); }
    T w[N];
    for (std::size_t i = 0; i < N; ++i) w[i] = s;
    closes<T, N>(s / vb, w, b, 0, "s / b");
    closes<T, N>(va / s, a, w, 0, "a / s");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    vc_cover("end");
}
VC_MATRIX_F(divide)

// square roots of all lane values (negative ones give NaN)
template<typename T, std::size_t N>
void root()
{
    typedef short_vec<T, N> V;
    T a[N], w[N];
    vc_array(a, N, sizeof(T), "a");
    const V va(a);
    for (std::size_t i = 0; i < N; ++i) w[i] = std::sqrt(a[i]);
    lanes<T, N>(va.sqrt(), w, "a.sqrt()");
    { V v(sqrt(va)); lanes<T, N>(v, w, "sqrt(a)"); }
    { V v; v = sqrt(va); lanes<T, N>(v, w, "v = sqrt(a)"); }
    lanes<T, N>(va, a, "a unchanged");
    vc_cover("end");
}
VC_MATRIX_F(root)

template<typename T, std::size_t N>
void rsqrt()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], s;
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    for (std::size_t i = 0; i < N; ++i) { acc<T>::mag(a[i]); acc<T>::mag(b[i]); vc_requires(b[i] > 0); }
    const V va(a), vb(b);
    closes<T, N>(va / sqrt(vb), a, b, 1, "a / sqrt(b)");
    { V v(va); v /= sqrt(vb); closes<T, N>(v, a, b, 1, "a /= sqrt(b)"); }
    closes<T, N>(sqrt(vb) / va, a, b, 2, "sqrt(b) / a");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    vc_cover("end");
}
VC_MATRIX_F(rsqrt)

// integer division truncates like the scalar one while float holds the operands exactly
template<typename T, std::size_t N>
void idivide()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], w[N], s;
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(&s, 1, sizeof(T), "s");
    for (std::size_t i = 0; i < N; ++i) {
        vc_requires(a[i] < (1 << 24)); vc_requires(a[i] > -(1 << 24));
        vc_requires(b[i] < (1 << 24)); vc_requires(b[i] > -(1 << 24)); vc_requires(b[i] != 0);
    }
    vc_requires(s < (1 << 24)); vc_requires(s > -(1 << 24)); vc_requires(s != 0);
    const V va(a), vb(b);
    for (std::size_t i = 0; i < N; ++i) w[i] = a[i] / b[i];
    lanes<T, N>(va / vb, w, "a / b");
    { V v(va); v /= vb; lanes<T, N>(v, w, "a /= b"); }
    for (std::size_t i = 0; i < N; ++i) w[i] = s / b[i];
    lanes<T, N>(s / vb, w, "s / b");
    for (std::size_t i = 0; i < N; ++i) w[i] = a[i] / s;
    lanes<T, N>(va / s, w, "a / s");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    vc_cover("end");
}
VC_MATRIX_I(idivide)

// integer square roots, and quotients by the roots of perfect squares
template<typename T, std::size_t N>
void iroot()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], q[N], c[N], r[N];
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(q, N, sizeof(T), "q");
    for (std::size_t i = 0; i < N; ++i) {
        vc_requires(a[i] < (1 << 24)); vc_requires(a[i] > -(1 << 24));
        vc_requires(b[i] < (1 << 24)); vc_requires(b[i] > 0);
        vc_requires(q[i] < (1 << 12)); vc_requires(q[i] > 0);
        c[i] = q[i] * q[i];
    }
    const V va(a), vb(b), vc(c);
    vb.sqrt().store(r);
    for (std::size_t i = 0; i < N; ++i) vc_closei(r[i], 1, b[i], 2, 11, "b.sqrt()");
    { V v(sqrt(vb)); v.store(r); }
    for (std::size_t i = 0; i < N; ++i) vc_closei(r[i], 1, b[i], 2, 11, "sqrt(b)");
    (va / sqrt(vc)).store(r);
    for (std::size_t i = 0; i < N; ++i) vc_closei(r[i], a[i], q[i], 0, 11, "a / sqrt(q * q)");
    { V v(va); v /= sqrt(vc); v.store(r); }
    for (std::size_t i = 0; i < N; ++i) vc_closei(r[i], a[i], q[i], 0, 11, "a /= sqrt(q * q)");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    lanes<T, N>(vc, c, "c unchanged");
    vc_cover("end");
}
VC_MATRIX_I(iroot)

// Short vector operations write no static object: what they compute is decided
// by their operands alone, so that threads cannot interfere.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#pragma clang section bss="vckb" data="vckd"
#endif
#endif
#include "v.hpp"
#include <libflatarray/loop_peeler.hpp>
struct rec_traits : public std::char_traits<char> {};
namespace std {
template<>
class basic_ostream<char, rec_traits>
{
public:
    int n;
    basic_ostream& operator<<(const char *) { return *this; }
    basic_ostream& operator<<(char) { return *this; }
    basic_ostream& operator<<(float) { ++n; return *this; }
    basic_ostream& operator<<(double) { ++n; return *this; }
    basic_ostream& operator<<(int) { ++n; return *this; }
};
}
template<typename V, typename T, std::size_t... I>
V from_list(const T *a, std::index_sequence<I...>)
{
    std::initializer_list<T> il = {a[I]...};
    return V(il);
}
template<typename T, std::size_t N>
void memory()
{
    typedef short_vec<T, N> V;
    typedef streaming_short_vec<T, N> S;
    const std::size_t al = V::strategy::template alignment<T>::ALIGNMENT;
    T *p = reinterpret_cast<T*>(vc_block(N, sizeof(T), al, "p"));
    T *q = reinterpret_cast<T*>(vc_block(N, sizeof(T), al, "q"));
    T *m = reinterpret_cast<T*>(vc_region(sizeof(T), "m"));
    int *off = reinterpret_cast<int*>(vc_block(N, sizeof(int), sizeof(int), "off"));
    for (std::size_t i = 0; i < N; ++i) vc_touch(m + long(off[i]), sizeof(T));
    vc_frame_begin();
    V v(p), w;
    v.store(q); w.load(p); w.store(q); w.load_aligned(p); w.store_aligned(q); w.store_nt(q);
    q << v;
    V z(from_list<V, T>(p, std::make_index_sequence<N>()));
    V s(p[0]);
    w = z;
    S x(p), y(w + w), u(p[0]);
    x.load(p); x.store(q); x.store_aligned(q);
    q << y;
    v.gather(m, off);
    v.scatter(m, off);
    std::basic_ostream<char, rec_traits> os;
    os.n = 0;
    os << v;
    vc_frame_end();
    vc_cover("end");
}
VC_MATRIX(memory)

template<typename T, std::size_t N>
void compute()
{
    typedef short_vec<T, N> V;
    T a[N], b[N], s;
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(&s, 1, sizeof(T), "s");
    const V va(a), vb(b);
    vc_frame_begin();
    V r = va + vb; r -= va; r *= vb; r += va; r /= vb;
    V t = (va - vb) * (va / vb) + s * va;
    V o = va / s, c = s / va, g = s - va, h = va - s;
    V k = sqrt(vb), l = va / sqrt(vb), e = sqrt(va) / vb;
    V ar[16] = { r, t, o, c, g, h, k, l, e, va, vb, r, t, o, c, g };
    (void)ar;
    vc_frame_end();
    vc_cover("end");
}
VC_MATRIX_F(compute)
template<typename T, std::size_t N>
void icompute()
{
    typedef short_vec<T, N> V;
    T a[N], b[N];
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    const V va(a), vb(b);
    vc_frame_begin();
    V r = va + vb; r -= va; r *= vb; r += va;
    V t = (va - vb) * va + V(a[0]) * va;
    V ar[2] = { r, t };
    (void)ar;
    vc_frame_end();
    vc_cover("end");
}
VC_MATRIX_I(icompute)
template<typename T, std::size_t N>
void decide()
{
    typedef short_vec<T, N> V;
    T a[N], b[N];
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    const V va(a), vb(b);
    vc_frame_begin();
    typename V::mask_type m = va < vb, m2 = va <= vb, m3 = va == vb, m4 = va > vb, m5 = va >= vb;
    V w(va);
    w.blend(m, vb);
    V x = blend(va, vb, m2);
    bool y = bool(any(m3)) | bool(any(m4));
    std::size_t n = count_mask<T, N>(m5);
    bool z = get(m, 0) != 0;
    T g = get(va, int(N) - 1);
    bool q = bool(any(va));
    V ar[2] = { w, x };
    (void)ar; (void)y; (void)n; (void)z; (void)g; (void)q;
    vc_frame_end();
    vc_cover("end");
}
VC_MATRIX_F(decide)

// V04: gather and scatter
#include "v.hpp"

template<typename T, std::size_t N>
void gather()
{
    typedef short_vec<T, N> V;
    T *m = reinterpret_cast<T*>(vc_region(sizeof(T), "m"));
    int *off = reinterpret_cast<int*>(vc_block(N, sizeof(int), sizeof(int), "off"));
    T w[N];
    int o[N];
    for (std::size_t i = 0; i < N; ++i) { o[i] = off[i]; vc_touch(m + long(o[i]), sizeof(T)); w[i] = m[long(o[i])]; }
    for (std::size_t i = 0; i < N; ++i) vc_allow(m + long(o[i]), sizeof(T));
    V v;
    v.gather(m, off);
    vc_allow_all();
    lanes<T, N>(v, w, "lane i is element offset[i]");
    for (std::size_t i = 0; i < N; ++i) vc_same_i32(off[i], o[i], "offsets unchanged");
    vc_cover("end");
}
VC_MATRIX(gather)

template<typename T, std::size_t N>
void scatter()
{
    typedef short_vec<T, N> V;
    T *m = reinterpret_cast<T*>(vc_region(sizeof(T), "m"));
    int *off = reinterpret_cast<int*>(vc_block(N, sizeof(int), sizeof(int), "off"));
    T a[N];
    int o[N], x;
    vc_array(a, N, sizeof(T), "a");
    vc_array(&x, 1, sizeof(int), "x");
    const V v(a);
    T want = m[long(x)];
    for (std::size_t i = 0; i < N; ++i) {
        o[i] = off[i];
        T c = a[i];
        want = o[i] == x ? c : want;
    }
    for (std::size_t i = 0; i < N; ++i) vc_allow(m + long(o[i]), sizeof(T));
    v.scatter(m, off);
    vc_allow_all();
    same(m[long(x)], want, "element offset[i] is lane i, nothing else changes");
    lanes<T, N>(v, a, "vector unchanged");
    for (std::size_t i = 0; i < N; ++i) vc_same_i32(off[i], o[i], "offsets unchanged");
    vc_cover("end");
}
VC_MATRIX(scatter)

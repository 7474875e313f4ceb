// V02: comparisons, masks, blend, lane queries
#include "v.hpp"

template<typename T, std::size_t N>
struct mask_check
{
    typedef short_vec<T, N> V;
    // mask types which are vectors: all bits of a lane set or clear
    template<typename M>
    static void bits(const M& m, const bool *e, const char *l)
    {
        T r[N];
        m.store(r);
        for (std::size_t i = 0; i < N; ++i) {
            unsigned long all = sizeof(T) == 8 ? ~0ul : 0xfffffffful;
            vc_ensures(vc_value(r + i, sizeof(T)) == (e[i] ? all : 0ul), l);
        }
    }
    static void bits(unsigned long m, const bool *e, const char *l)
    {
        unsigned long w = 0;
        for (std::size_t i = 0; i < N; ++i) w |= (unsigned long)e[i] << i;
        vc_ensures(m == w, l);
    }
    static void bits(unsigned m, const bool *e, const char *l) { bits((unsigned long)m, e, l); }
    static void bits(unsigned short m, const bool *e, const char *l) { bits((unsigned long)m, e, l); }
    static void bits(unsigned char m, const bool *e, const char *l) { bits((unsigned long)m, e, l); }

    template<typename M>
    static void make(M& m, const bool *e)
    {
        T r[N];
        for (std::size_t i = 0; i < N; ++i) { long x = e[i] ? -1 : 0; std::memcpy(r + i, &x, sizeof(T)); }
        m.load(r);
    }
    template<typename I>
    static void makei(I& m, const bool *e)
    {
        unsigned long w = 0;
        for (std::size_t i = 0; i < N; ++i) w |= (unsigned long)e[i] << i;
        m = (I)w;
    }
    static void make(unsigned& m, const bool *e) { makei(m, e); }
    static void make(unsigned short& m, const bool *e) { makei(m, e); }
    static void make(unsigned char& m, const bool *e) { makei(m, e); }
};

template<typename T, std::size_t N>
void compare()
{
    typedef short_vec<T, N> V;
    typedef mask_check<T, N> C;
    T a[N], b[N];
    bool e[N];
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    const V va(a), vb(b);
    for (std::size_t i = 0; i < N; ++i) e[i] = a[i] < b[i];
    C::bits(va < vb, e, "a < b");
    for (std::size_t i = 0; i < N; ++i) e[i] = a[i] <= b[i];
    C::bits(va <= vb, e, "a <= b");
    for (std::size_t i = 0; i < N; ++i) e[i] = a[i] == b[i];
    C::bits(va == vb, e, "a == b");
    for (std::size_t i = 0; i < N; ++i) e[i] = a[i] > b[i];
    C::bits(va > vb, e, "a > b");
    for (std::size_t i = 0; i < N; ++i) e[i] = a[i] >= b[i];
    C::bits(va >= vb, e, "a >= b");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    vc_cover("end");
}
VC_MATRIX_F(compare)

template<typename T, std::size_t N>
void masks()
{
    typedef short_vec<T, N> V;
    typedef mask_check<T, N> C;
    T a[N], b[N], w[N];
    bool e[N];
    vc_array(a, N, sizeof(T), "a");
    vc_array(b, N, sizeof(T), "b");
    vc_array(e, N, 1, "m");
    for (std::size_t i = 0; i < N; ++i) { unsigned char c; std::memcpy(&c, e + i, 1); e[i] = c & 1; }
    typename V::mask_type m;
    C::make(m, e);
    const V va(a), vb(b);
    for (std::size_t i = 0; i < N; ++i) w[i] = e[i] ? b[i] : a[i];
    { V v(va); v.blend(m, vb); lanes<T, N>(v, w, "blend (member)"); }
    lanes<T, N>(blend(va, vb, m), w, "blend");
    lanes<T, N>(va, a, "a unchanged");
    lanes<T, N>(vb, b, "b unchanged");
    C::bits(m, e, "mask unchanged");
    bool some = false;
    unsigned long cnt = 0;
    for (std::size_t i = 0; i < N; ++i) { some |= e[i]; cnt += e[i]; }
    vc_ensures(bool(any(m)) == some, "any");
    vc_ensures(count_mask<T, N>(m) == cnt, "count_mask");
    for (int i = 0; i < int(N); ++i) vc_ensures((get(m, i) != 0) == e[i], "get lane of a mask");
    vc_cover("end");
}
VC_MATRIX_F(masks)

template<typename T, std::size_t N>
void query()
{
    typedef short_vec<T, N> V;
    T a[N];
    vc_array(a, N, sizeof(T), "a");
    const V va(a);
    for (int i = 0; i < int(N); ++i) {
        same(va[i], a[i], "operator[]");
        same(get(va, i), a[i], "get");
    }
    // any(): some lane differs from zero (lanes which are -0.0 excepted)
    bool some = false;
    for (std::size_t i = 0; i < N; ++i) {
        unsigned long x = vc_value(a + i, sizeof(T));
        vc_requires(x != (1ul << (8 * sizeof(T) - 1)));
        some |= x != 0;
    }
    vc_ensures(va.any() == some, "any (member)");
    vc_ensures(any(va) == some, "any");
    vc_cover("end");
}
VC_MATRIX_F(query)

VC_HARNESS(scalar_int)
{
    typedef short_vec<int, 1> V;
    int a, b;
    vc_array(&a, 1, 4, "a");
    vc_array(&b, 1, 4, "b");
    V va(&a), vb(&b);
    vc_ensures((va < vb) == (a < b), "a < b");
    vc_ensures((va <= vb) == (a <= b), "a <= b");
    vc_ensures((va == vb) == (a == b), "a == b");
    vc_ensures((va == b) == (a == b), "a == scalar");
    vc_ensures((va > vb) == (a > b), "a > b");
    vc_ensures((va >= vb) == (a >= b), "a >= b");
    vc_same_i32(va[0], a, "operator[]");
    vc_same_i32(get(va, 0), a, "get");
    vc_ensures(va.any() == (a != 0), "any");
    vc_cover("end");
}
VC_HARNESS(integer_masks)
{
    unsigned m, i;
    vc_array(&m, 1, 4, "m");
    vc_array(&i, 1, 4, "i");
    vc_requires(i < 32);
    vc_ensures((any(m) != 0) == (m != 0), "any(unsigned)");
    vc_ensures(get(m, int(i)) == (((m >> i) & 1) != 0), "get(unsigned)");
    unsigned short s = (unsigned short)m;
    vc_ensures((any(s) != 0) == (s != 0), "any(unsigned short)");
    vc_ensures(get(s, int(i)) == (((unsigned(s) >> i) & 1) != 0), "get(unsigned short)");
    unsigned char c = (unsigned char)m;
    vc_ensures((any(c) != 0) == (c != 0), "any(unsigned char)");
    vc_ensures(get(c, int(i)) == (((unsigned(c) >> i) & 1) != 0), "get(unsigned char)");
    vc_cover("end");
}

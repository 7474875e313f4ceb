// soa_vector as a growable sequence. An arbitrary state is a vector of
// capacity c with n <= c elements and arbitrary storage contents.
#include "cells.hpp"
#include <libflatarray/soa_vector.hpp>
#include <stdexcept>
using namespace LibFlatArray;

#define MEMBERS \
    double a; \
    short b[3]; \
    char c; \
    int d;
struct CellW
{
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(10)(11)(100))
    };
    CellW(double a = 0, char c = 0, int d = 0) : a(a), c(c), d(d) { b[0] = 0; b[1] = 0; b[2] = 0; }
    MEMBERS
};
LIBFLATARRAY_REGISTER_SOA(CellW, ((double)(a))((short)(b)(3))((char)(c))((int)(d)))
// sizes from the two ends of the default table
struct CellX
{
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((32)(65568)(1073741856))
    };
    MEMBERS
};
LIBFLATARRAY_REGISTER_SOA(CellX, ((double)(a))((short)(b)(3))((char)(c))((int)(d)))
static const std::size_t MAX = 100, AGG = 8 + 6 + 1 + 4;
typedef soa_vector<CellW> vec;

template<typename C>
static inline void ensure_same(const C& n, const C& e)
{
    vc_ensures(vc_same(&n.a, &e.a, 8), "member a");
    vc_ensures(vc_same(&n.b[0], &e.b[0], 2) && vc_same(&n.b[1], &e.b[1], 2) && vc_same(&n.b[2], &e.b[2], 2), "array member b");
    vc_ensures(vc_same(&n.c, &e.c, 1), "member c");
    vc_ensures(vc_same(&n.d, &e.d, 4), "member d");
}
struct scramble
{
    template<typename ACC>
    void operator()(ACC& a) const { vc_havoc(a.data(), ACC::DIM_PROD * AGG, "contents"); }
};
struct read_at
{
    CellW *out;
    std::size_t i;
    template<typename ACC>
    void operator()(ACC& a) const { a.index() = i; a >> *out; }
};
template<typename C>
static inline C any_cell()
{
    C c;
    vc_havoc(&c, sizeof c, "cell");
    return c;
}
#define STATE(V, LIMIT) \
    std::size_t cap = vc_in("cap", 0, LIMIT), n = vc_in("n", 0, cap); \
    V v(cap); \
    v.resize(n); \
    v.callback(scramble());

VC_HARNESS(construct)
{
    std::size_t n = vc_in("n", 0, MAX);
    CellW c = any_cell<CellW>();
    vec v(n, c), e, z(n);
    vc_ensures(v.size() == n && v.empty() == (n == 0) && v.capacity() >= n, "size");
    vc_ensures(e.size() == 0 && e.empty(), "default constructed vector is empty");
    vc_ensures(z.size() == n && z.capacity() >= n, "size of a vector of default elements");
    if (n > 0) {
        std::size_t i = vc_in("i", 0, n - 1);
        ensure_same(v.get(i), c);
        CellW d = z.get(i);
        vc_ensures(vc_value(&d.a, 8) == 0 && vc_value(&d.b[0], 2) == 0 && vc_value(&d.b[2], 2) == 0 && d.c == 0 && d.d == 0, "elements are value-initialised");
        vc_cover("some");
    }
}
VC_HARNESS(set_get)
{
    STATE(vec, MAX)
    vc_requires(n > 0);
    std::size_t i = vc_in("i", 0, n - 1), j = vc_in("j", 0, n - 1);
    CellW c = any_cell<CellW>(), old = v.get(j);
    v.set(i, c);
    vc_ensures(v.size() == n && v.capacity() >= n, "size");
    ensure_same(v.get(j), i == j ? c : old);
    CellW r;
    read_at f = {&r, j};
    const vec& cv = v;
    cv.callback(f);
    ensure_same(r, i == j ? c : old);
    vc_cover("end");
}
template<typename V, int KIND>
static inline void append(std::size_t limit)
{
    typedef typename V::value_type C;
    STATE(V, limit)
    C c = any_cell<C>();
    std::size_t i = n > 0 ? vc_in("i", 0, n - 1) : 0;
    C old = c;
    if (n > 0) old = v.get(i);
    bool thrown = false;
    try {
        if (KIND == 0) v.push_back(c);
        else v.emplace_back(c);
    }
    catch (const std::out_of_range&) { thrown = true; }
    // running out of registered sizes is the only reason to fail
    if (thrown) vc_ensures(n == cap && 6 * n / 5 + 1 > limit, "appending fails only for lack of a registered size");
    vc_ensures(v.size() == (thrown ? n : n + 1) && v.empty() == (n == 0 && thrown), "size");
    vc_ensures(v.capacity() >= v.size(), "capacity is at least the size");
    if (n > 0) { ensure_same(v.get(i), old); vc_cover("old"); }
    if (!thrown) { ensure_same(v.get(n), c); vc_cover("new"); }
}
VC_HARNESS(push_back) { append<vec, 0>(MAX); vc_cover("end"); }
VC_HARNESS(emplace_back) { append<vec, 1>(MAX); vc_cover("end"); }
VC_HARNESS(emplace_back_args)
{
    std::size_t n = vc_in("n", 0, 80);
    vec v(n);
    double a = vc_in("a", 0, 1000);
    int d = vc_i32("d");
    v.emplace_back(a, 'x', d);
    CellW e(a, 'x', d);
    vc_ensures(v.size() == n + 1, "size");
    ensure_same(v.get(n), e);
    vc_cover("end");
}
VC_HARNESS(pop_back)
{
    STATE(vec, MAX)
    vc_requires(n > 0);
    std::size_t i = n > 1 ? vc_in("i", 0, n - 2) : 0;
    CellW old = v.get(i);
    v.pop_back();
    vc_ensures(v.size() == n - 1 && v.empty() == (n == 1), "size");
    vc_ensures(v.capacity() >= v.size(), "capacity is at least the size");
    if (n > 1) { ensure_same(v.get(i), old); vc_cover("kept"); }
}
VC_HARNESS(clear)
{
    STATE(vec, MAX)
    v.clear();
    vc_ensures(v.size() == 0 && v.empty(), "size");
    vc_cover("end");
}
template<typename V>
static inline void resize_contract(std::size_t limit)
{
    typedef typename V::value_type C;
    STATE(V, limit)
    std::size_t m = vc_in("m", 0, limit);
    std::size_t i = n > 0 ? vc_in("i", 0, n - 1) : 0;
    C old = C();
    if (n > 0) old = v.get(i);
    v.resize(m);
    vc_ensures(v.size() == m && v.empty() == (m == 0), "size");
    vc_ensures(v.capacity() >= m, "capacity is at least the size");
    if (i < n && i < m) { ensure_same(v.get(i), old); vc_cover("kept"); }
    // the new elements are usable
    if (m > 0) {
        std::size_t j = vc_in("j", 0, m - 1);
        C c = any_cell<C>();
        v.set(j, c);
        ensure_same(v.get(j), c);
    }
}
VC_HARNESS(resize) { resize_contract<vec>(MAX); vc_cover("end"); }
template<typename V>
static inline void reserve_contract(std::size_t limit)
{
    typedef typename V::value_type C;
    STATE(V, limit)
    std::size_t m = vc_in("m", 0, limit), before = v.capacity();
    std::size_t i = n > 0 ? vc_in("i", 0, n - 1) : 0;
    C old = C();
    if (n > 0) old = v.get(i);
    v.reserve(m);
    vc_ensures(v.size() == n && v.empty() == (n == 0), "size");
    vc_ensures(v.capacity() >= m && v.capacity() >= n, "capacity is at least the reserved one");
    vc_ensures(v.capacity() >= before, "capacity never shrinks");
    if (n > 0) { ensure_same(v.get(i), old); vc_cover("kept"); }
}
VC_HARNESS(reserve) { reserve_contract<vec>(MAX); vc_cover("end"); }
// more than the largest registered size: rejected, nothing changes
VC_HARNESS(too_large)
{
    STATE(vec, MAX)
    std::size_t m = vc_u64("m");
    vc_requires(m > MAX);
    std::size_t i = n > 0 ? vc_in("i", 0, n - 1) : 0;
    CellW old;
    if (n > 0) old = v.get(i);
    bool by_resize = vc_in("by_resize", 0, 1), thrown = false;
    try { if (by_resize) v.resize(m); else v.reserve(m); }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown, "more elements than the largest registered size are rejected");
    vc_ensures(v.size() == n && v.capacity() >= n, "size is unchanged");
    if (n > 0) { ensure_same(v.get(i), old); vc_cover("kept"); }
}
VC_HARNESS(copy)
{
    STATE(vec, MAX)
    vec w(v);
    vc_ensures(w.size() == n && w.capacity() >= n && v.size() == n, "size");
    if (n > 0) {
        std::size_t i = vc_in("i", 0, n - 1);
        CellW c = any_cell<CellW>(), old = v.get(i);
        ensure_same(w.get(i), old);
        v.set(i, c);
        ensure_same(w.get(i), old);
        vc_cover("some");
    }
}
VC_HARNESS(assign)
{
    STATE(vec, MAX)
    std::size_t m = vc_in("m", 0, MAX);
    vec w(m);
    w.callback(scramble());
    w = v;
    vc_ensures(w.size() == n && w.capacity() >= n && v.size() == n, "size");
    if (n > 0) {
        std::size_t i = vc_in("i", 0, n - 1);
        ensure_same(w.get(i), v.get(i));
        vc_cover("some");
    }
}
// huge lengths
typedef soa_vector<CellX> vecx;
VC_HARNESS(push_back_huge) { append<vecx, 0>(1073741856ul); vc_cover("end"); }
VC_HARNESS(reserve_huge) { reserve_contract<vecx>(1073741856ul); vc_cover("end"); }
VC_HARNESS(resize_huge) { resize_contract<vecx>(1073741856ul); vc_cover("end"); }

// soa_array as a bounded sequence: every operation is started in an arbitrary
// state (n elements with arbitrary contents) and its effect is compared with
// that of the same operation on a sequence, for an arbitrary position.
#include "cells.hpp"
#include <stdexcept>
using namespace LibFlatArray;

#ifdef VC_WIDE
typedef CellA CellS;
static const std::size_t AGG = AGG_A;
static inline void ensure_same(const CellS& n, const CellS& e) { ensure_same(n, e, ""); }
#else
struct CellS
{
    double a;
    short b[3];
    char c;
    int d;
};
LIBFLATARRAY_REGISTER_SOA(CellS, ((double)(a))((short)(b)(3))((char)(c))((int)(d)))
static const std::size_t AGG = 8 + 6 + 1 + 4;
static inline void ensure_same(const CellS& n, const CellS& e)
{
    vc_ensures(vc_same(&n.a, &e.a, 8), "member a");
    vc_ensures(vc_same(&n.b[0], &e.b[0], 2) && vc_same(&n.b[1], &e.b[1], 2) && vc_same(&n.b[2], &e.b[2], 2), "array member b");
    vc_ensures(vc_same(&n.c, &e.c, 1), "member c");
    vc_ensures(vc_same(&n.d, &e.d, 4), "member d");
}
static inline void ensure_zero(const CellS& c)
{
    vc_ensures(vc_value(&c.a, 8) == 0 && vc_value(&c.b[0], 2) == 0 && vc_value(&c.b[1], 2) == 0 && vc_value(&c.b[2], 2) == 0 && c.c == 0 && c.d == 0, "elements are value-initialised");
}
#endif
#ifdef VC_LARGE
static const std::size_t CAP = 70003, CAP2 = 66000, CAP3 = 140000;
#else
static const std::size_t CAP = 13, CAP2 = 7, CAP3 = 30;
#endif
typedef soa_array<CellS, CAP> arr;
typedef soa_array<CellS, CAP2> arr2;
typedef soa_array<CellS, CAP3> arr3;

template<typename A>
static inline void ensure_length(A& a, std::size_t n)
{
    vc_ensures(a.size() == n, "size");
    vc_ensures(a.byte_size() == n * AGG, "byte size");
    vc_ensures(a.end().index() - a.begin().index() == (long)n && a.begin().index() == 0, "distance of begin and end");
    vc_ensures(a.begin().data() == a.data() && a.end().data() == a.data(), "begin and end address the array");
    vc_ensures(a.capacity() == A::SIZE, "capacity");
}
static inline CellS any_cell()
{
    CellS c;
    vc_havoc(&c, sizeof c, "cell");
    return c;
}
template<typename A>
static inline CellS elem(const A& a, std::size_t i)
{
    CellS c;
    a[(int)i] >> c;
    return c;
}
// an array with n arbitrary elements
#define ARBITRARY(A, NAME, LEN) A NAME(LEN); vc_havoc(NAME.data(), A::BYTE_SIZE, #NAME)

VC_HARNESS(construct)
{
    std::size_t n = vc_in("n", 0, CAP);
    CellS c = any_cell();
    arr a(n, c);
    ensure_length(a, n);
    if (n > 0) { std::size_t i = vc_in("i", 0, n - 1); ensure_same(elem(a, i), c); vc_cover("some"); }
    arr b;
    ensure_length(b, 0);
}
VC_HARNESS(construct_default_value)
{
    std::size_t n = vc_in("n", 1, CAP);
    arr a(n);
    ensure_length(a, n);
    std::size_t i = vc_in("i", 0, n - 1);
    CellS c = elem(a, i);
    ensure_zero(c);
    vc_cover("end");
}
VC_HARNESS(construct_rejects)
{
    std::size_t n = vc_u64("n");
    vc_requires(n > CAP);
    CellS c = any_cell();
    bool thrown = false;
    try { arr a(n, c); }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown, "too many elements are rejected");
    vc_cover("end");
}
template<int KIND>
static inline void append()
{
    std::size_t n = vc_in("n", 0, CAP);
    ARBITRARY(arr, a, n);
    CellS c = any_cell();
    std::size_t i = n > 0 ? vc_in("i", 0, n - 1) : 0;
    CellS e = elem(a, i);
    bool thrown = false;
    try {
        if (KIND == 0) a.push_back(c);
        else { arr& r = (a << c); vc_ensures(&r == &a, "<< yields the array"); }
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (n == CAP), "appending fails exactly for a full array");
    ensure_length(a, thrown ? n : n + 1);
    if (n > 0) { ensure_same(elem(a, i), e); vc_cover("old"); }
    if (!thrown) {
        ensure_same(elem(a, n), c);
        CellS l = a.back();
        ensure_same(l, c);
        vc_cover("new");
    }
}
VC_HARNESS(push_back) { append<0>(); vc_cover("end"); }
VC_HARNESS(shift_in) { append<1>(); vc_cover("end"); }

VC_HARNESS(pop_back)
{
    std::size_t n = vc_in("n", 0, CAP);
    ARBITRARY(arr, a, n);
    std::size_t i = n > 1 ? vc_in("i", 0, n - 2) : 0;
    CellS e = elem(a, i);
    bool thrown = false;
    try { a.pop_back(); }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (n == 0), "removing fails exactly for an empty array");
    ensure_length(a, thrown ? 0 : n - 1);
    if (n > 1) { ensure_same(elem(a, i), e); vc_cover("kept"); }
}
VC_HARNESS(clear)
{
    std::size_t n = vc_in("n", 0, CAP);
    ARBITRARY(arr, a, n);
    a.clear();
    ensure_length(a, 0);
    CellS c = any_cell();
    a << c;
    ensure_length(a, 1);
    ensure_same(elem(a, 0), c);
    vc_cover("end");
}
// all ways to address an element
VC_HARNESS(access)
{
    std::size_t n = vc_in("n", 1, CAP), i = vc_in("i", 0, n - 1);
    ARBITRARY(arr, a, n);
    const arr& ca = a;
    CellS e = elem(a, i);
    ensure_same(a[(int)i], e);
    ensure_same(ca[(int)i], e);
    ensure_same(a.at((int)i), e);
    ensure_same(ca.at((int)i), e);
    ensure_same(a.at(i), e);
    ensure_same(ca.at(i), e);
#ifdef VC_WIDE
    vc_ensures(vc_within(&a[(int)i].s()[0], 2, a.data(), arr::BYTE_SIZE) && vc_within(&a[(int)i].t()[1], 8, a.data(), arr::BYTE_SIZE), "elements are stored in the array");
#else
    vc_ensures(vc_within(&a[(int)i].a(), 8, a.data(), arr::BYTE_SIZE) && vc_within(&a[(int)i].d(), 4, a.data(), arr::BYTE_SIZE), "elements are stored in the array");
#endif
    CellS l = a.back();
    ensure_same(l, elem(a, n - 1));
    CellS f = a.begin();
    ensure_same(f, elem(a, 0));
    vc_cover("end");
}
VC_HARNESS(write_element)
{
    std::size_t n = vc_in("n", 1, CAP), i = vc_in("i", 0, n - 1), j = vc_in("j", 0, n - 1);
    ARBITRARY(arr, a, n);
    CellS c = any_cell(), e = elem(a, j);
    a[(int)i] << c;
    ensure_length(a, n);
    ensure_same(elem(a, j), i == j ? c : e);
    vc_cover("end");
}
// iteration from begin to end visits the elements in order
VC_HARNESS(iterate)
{
    std::size_t n = vc_in("n", 0, CAP), i = vc_in("i", 0, CAP);
    ARBITRARY(arr, a, n);
    std::size_t count = 0;
    for (arr::iterator it = a.begin(); it != a.end(); ++it) {
        if (count == i) vc_ensures(it.index() == (long)i && it.data() == a.data(), "position of the iterator");
        ++count;
    }
    vc_ensures(count == n, "number of iterations");
    vc_cover("end");
}
// ---- bulk load
template<typename SRC, bool APPEND>
static inline void bulk()
{
    std::size_t n = vc_in("n", 0, CAP), m = vc_in("m", 1, SRC::SIZE), s = vc_in("s", 0, SRC::SIZE - 1);
    vc_requires(s <= m);
    std::size_t num = vc_in("num", 0, m - s), off = APPEND ? n : vc_in("offset", 0, n);
    ARBITRARY(arr, a, n);
    ARBITRARY(SRC, b, m);
    std::size_t i = vc_in("i", 0, CAP - 1);
    CellS old = elem(a, i);
    bool thrown = false;
    try {
        if (APPEND) a.load(b[(int)s], num);
        else a.load(b[(int)s], num, off);
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (off + num > CAP), "loading fails exactly if the capacity is exceeded");
    std::size_t len = thrown ? n : (off + num > n ? off + num : n);
    ensure_length(a, len);
    if (i < len) {
        if (!thrown && i >= off && i < off + num) { ensure_same(elem(a, i), elem(b, s + i - off)); vc_cover("loaded"); }
        else { ensure_same(elem(a, i), old); vc_cover("kept"); }
    }
    ensure_length(b, m);
}
VC_HARNESS(load_append_same) { bulk<arr, true>(); vc_cover("end"); }
VC_HARNESS(load_append_smaller) { bulk<arr2, true>(); vc_cover("end"); }
VC_HARNESS(load_append_larger) { bulk<arr3, true>(); vc_cover("end"); }
VC_HARNESS(load_at_same) { bulk<arr, false>(); vc_cover("end"); }
VC_HARNESS(load_at_larger) { bulk<arr3, false>(); vc_cover("end"); }

// from a part of the same array which is not overwritten
template<bool APPEND>
static inline void bulk_self()
{
    std::size_t n = vc_in("n", 1, CAP), s = vc_in("s", 0, n - 1), num = vc_in("num", 0, n - s);
    std::size_t off = APPEND ? n : vc_in("offset", 0, n);
    vc_requires(s + num <= off || off + num <= s);
    ARBITRARY(arr, a, n);
    std::size_t i = vc_in("i", 0, CAP - 1), j = i >= off && i - off < num ? s + i - off : i;
    CellS old = elem(a, j);
    bool thrown = false;
    try {
        if (APPEND) a.load(a[(int)s], num);
        else a.load(a[(int)s], num, off);
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (off + num > CAP), "loading fails exactly if the capacity is exceeded");
    std::size_t len = thrown ? n : (off + num > n ? off + num : n);
    ensure_length(a, len);
    if (i < len && (!thrown || j == i)) { ensure_same(elem(a, i), old); vc_cover("checked"); }
}
VC_HARNESS(load_append_self) { bulk_self<true>(); vc_cover("end"); }
VC_HARNESS(load_at_self) { bulk_self<false>(); vc_cover("end"); }
// too much: rejected before anything is read
VC_HARNESS(load_rejects)
{
    std::size_t n = vc_in("n", 0, CAP), num = vc_u64("num"), off = vc_in("offset", 0, n);
    vc_requires(num > CAP - off);
    ARBITRARY(arr, a, n);
    ARBITRARY(arr, b, CAP);
    std::size_t i = vc_in("i", 0, CAP - 1);
    CellS old = elem(a, i);
    bool thrown = false;
    try {
        if (off == n) a.load(b[0], num);
        else a.load(b[0], num, off);
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown, "more elements than the capacity are rejected");
    ensure_length(a, n);
    if (i < n) { ensure_same(elem(a, i), old); vc_cover("kept"); }
}

// ---- copies
template<typename SRC, bool CONST>
static inline void copy_ctor()
{
    std::size_t m = vc_in("m", 0, SRC::SIZE);
    ARBITRARY(SRC, b, m);
    const SRC& cb = b;
    std::size_t i = m > 0 ? vc_in("i", 0, m - 1) : 0;
    CellS e = elem(b, i);
    bool thrown = false;
    try {
        arr a(CONST ? arr(cb) : arr(b));
        ensure_length(a, m);
        if (m > 0) { ensure_same(elem(a, i), e); vc_cover("copied"); }
        // independent
        vc_havoc(b.data(), SRC::BYTE_SIZE, "overwritten");
        if (m > 0) ensure_same(elem(a, i), e);
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (m > CAP), "copying fails exactly if the capacity is exceeded");
    ensure_length(b, m);
}
VC_HARNESS(copy_same) { copy_ctor<arr, true>(); vc_cover("end"); }
VC_HARNESS(copy_same_mutable) { copy_ctor<arr, false>(); vc_cover("end"); }
VC_HARNESS(copy_smaller) { copy_ctor<arr2, true>(); vc_cover("end"); }
VC_HARNESS(copy_smaller_mutable) { copy_ctor<arr2, false>(); vc_cover("end"); }
VC_HARNESS(copy_larger) { copy_ctor<arr3, true>(); vc_cover("end"); }
VC_HARNESS(copy_larger_mutable) { copy_ctor<arr3, false>(); vc_cover("end"); }

template<typename SRC, bool CONST>
static inline void assign()
{
    std::size_t n = vc_in("n", 0, CAP), m = vc_in("m", 0, SRC::SIZE);
    ARBITRARY(arr, a, n);
    ARBITRARY(SRC, b, m);
    const SRC& cb = b;
    std::size_t i = vc_in("i", 0, CAP - 1), j = i < SRC::SIZE ? i : 0;
    CellS e = elem(b, j), old = elem(a, i);
    bool thrown = false;
    try {
        arr& r = CONST ? (a = cb) : (a = b);
        vc_ensures(&r == &a, "assignment yields the target");
    }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown == (m > CAP), "assigning fails exactly if the capacity is exceeded");
    ensure_length(a, thrown ? n : m);
    ensure_length(b, m);
    if (thrown) { if (i < n) ensure_same(elem(a, i), old); }
    else if (i < m) {
        ensure_same(elem(a, i), e);
        ensure_same(elem(b, i), e);
        vc_cover("copied");
    }
}
VC_HARNESS(assign_same) { assign<arr, true>(); vc_cover("end"); }
VC_HARNESS(assign_same_mutable) { assign<arr, false>(); vc_cover("end"); }
VC_HARNESS(assign_smaller) { assign<arr2, true>(); vc_cover("end"); }
VC_HARNESS(assign_smaller_mutable) { assign<arr2, false>(); vc_cover("end"); }
VC_HARNESS(assign_larger) { assign<arr3, true>(); vc_cover("end"); }
VC_HARNESS(assign_larger_mutable) { assign<arr3, false>(); vc_cover("end"); }
VC_HARNESS(assign_self)
{
    std::size_t n = vc_in("n", 1, CAP), i = vc_in("i", 0, n - 1);
    ARBITRARY(arr, a, n);
    CellS e = elem(a, i);
    arr& alias = a;
    a = alias;
    ensure_length(a, n);
    ensure_same(elem(a, i), e);
    vc_cover("end");
}
VC_HARNESS(swap_arrays)
{
    std::size_t n = vc_in("n", 0, CAP), m = vc_in("m", 0, CAP), i = vc_in("i", 0, CAP - 1);
    ARBITRARY(arr, a, n);
    ARBITRARY(arr, b, m);
    CellS ea = elem(a, i), eb = elem(b, i);
    swap(a, b);
    ensure_length(a, m);
    ensure_length(b, n);
    if (i < m) ensure_same(elem(a, i), eb);
    if (i < n) ensure_same(elem(b, i), ea);
    vc_cover("end");
}

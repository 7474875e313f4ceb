#include "cells.hpp"

// address of member/element number m of the cell an accessor points to
// (the wide cell: first and last elements of its arrays; member elements are written a[k] for arrays, hence acc.MEMBER with the call parentheses between name and index)
#ifndef VC_WIDE
#define FOR_EACH_SLOT(M) M(0, a(), 8) M(1, b(), 4) M(2, c()[0], 4) M(3, c()[1], 4) M(4, c()[2], 4) M(5, d(), 1)
static const std::size_t SLOTS = 6;
#else
static const std::size_t SLOTS = 12;
#define FOR_EACH_SLOT(M) \
    M(0, s()[0], 2) M(1, s()[4], 2) M(2, u()[0], 1) M(3, l(), 8) M(4, p()[0], 8) M(5, p()[1], 8) \
    M(6, w()[0], 4) M(7, w()[1], 4) M(8, w()[16], 4) M(9, e(), 2) M(10, t()[0], 8) M(11, t()[1], 8)
#endif
template<typename ACC>
static inline const char *slot_a(ACC& acc, std::size_t m)
{
#define M(N, MEMBER, SIZE) if (m == N) return (const char*)&acc.MEMBER;
    FOR_EACH_SLOT(M)
#undef M
    return 0;
}
static inline std::size_t size_a(std::size_t m)
{
#define M(N, MEMBER, SIZE) if (m == N) return SIZE;
    FOR_EACH_SLOT(M)
#undef M
    return 0;
}
template<typename ACC>
static inline const char *slot_u(ACC& acc, std::size_t m)
{
    if (m == 0) return (const char*)&acc.k();
    if (m == 1) return (const char*)&acc.f();
    if (m == 2) return (const char*)&acc.m()[0];
    return (const char*)&acc.m()[1];
}
static inline std::size_t size_u(std::size_t m) { return m == 0 ? 1 : m == 1 ? 4 : 8; }

struct take_a
{
    dims p; std::size_t m; const char **out; std::size_t *prod;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = ACC::gen_index(p.x, p.y, p.z);
        *out = slot_a(acc, m);
        *prod = std::size_t(ACC::DIM_X) * ACC::DIM_Y * ACC::DIM_Z;
    }
};
struct take_u
{
    dims p; std::size_t m; const char **out; std::size_t *prod;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = ACC::gen_index(p.x, p.y, p.z);
        *out = slot_u(acc, m);
        *prod = std::size_t(ACC::DIM_X) * ACC::DIM_Y * ACC::DIM_Z;
    }
};

template<typename GRID, typename TAKE>
static inline void layout(GRID& g, const dims& d, std::size_t members, std::size_t (*size)(std::size_t), std::size_t agg)
{
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    std::size_t m = vc_in("m", 0, members - 1), m2 = vc_in("m2", 0, members - 1);
    const char *a = 0, *b = 0; std::size_t prod = 0, prod2 = 0;
    TAKE t1 = {p, m, &a, &prod}; g.callback(t1);
    TAKE t2 = {q, m2, &b, &prod2}; g.callback(t2);
    vc_ensures(vc_within(a, size(m), g.data(), g.byte_size()), "slot lies inside the allocated bytes");
    if (m == m2 && p.x == q.x && p.y == q.y && p.z == q.z) vc_ensures(a == b, "slot address is a function of cell and member");
    else vc_ensures(vc_disjoint(a, size(m), b, size(m2)), "different slots share no byte");
    if (m == m2 && p.y == q.y && p.z == q.z)
        vc_ensures(vc_offset(b, a) == (long(q.x) - long(p.x)) * long(size(m)), "cells along x are contiguous per member");
    vc_ensures(g.byte_size() == agg * prod && prod == prod2, "byte size is sum of member sizes times number of slots");
    vc_ensures(g.extent_x() * g.extent_y() * g.extent_z() == prod, "extents match the accessor");
    vc_ensures(g.extent_x() >= d.x && g.extent_y() >= d.y && g.extent_z() >= d.z, "extents cover the dimensions");
    vc_ensures(vc_bytes_from_alloc(g.data()) >= g.byte_size(), "storage has at least byte_size bytes");
    vc_cover("end");
}

VC_HARNESS(layout_custom)
{
    dims d = dims_a("dx", "dy", "dz");
    LibFlatArray::soa_grid<CellA> g(d.x, d.y, d.z);
    layout<LibFlatArray::soa_grid<CellA>, take_a>(g, d, SLOTS, &size_a, AGG_A);
}

// default sized cell type: all 1D, 2D and 3D default tables
static inline void layout_default(std::size_t dx, std::size_t dy, std::size_t dz)
{
    dims d = {dx, dy, dz};
    LibFlatArray::soa_grid<CellU> g(d.x, d.y, d.z);
    layout<LibFlatArray::soa_grid<CellU>, take_u>(g, d, 4, &size_u, 1 + 4 + 16);
}
VC_HARNESS(layout_default_1d) { layout_default(vc_in("dx", 1, 1073741856), 1, 1); }
VC_HARNESS(layout_default_2d) { std::size_t dx = vc_in("dx", 1, 32800); layout_default(dx, vc_in("dy", 2, 32800), 1); }
VC_HARNESS(layout_default_3d)
{
    std::size_t dx = vc_in("dx", 1, 1032), dy = vc_in("dy", 2, 1032);
    layout_default(dx, dy, vc_in("dz", 2, 1032));
}

// fixed-size array
VC_HARNESS(layout_array)
{
    typedef LibFlatArray::soa_array<CellA, 13> array;
    array arr(std::size_t(vc_in("n", 0, 13)));
    std::size_t i = vc_in("i", 0, 12), j = vc_in("j", 0, 12);
    std::size_t m = vc_in("m", 0, SLOTS - 1), m2 = vc_in("m2", 0, SLOTS - 1);
    LibFlatArray::soa_accessor<CellA, 13, 1, 1, 0> p = arr[int(i)], q = arr[int(j)];
    const char *a = slot_a(p, m), *b = slot_a(q, m2);
    vc_ensures(array::BYTE_SIZE == 13 * AGG_A, "byte size is sum of member sizes times capacity");
    vc_ensures(vc_within(a, size_a(m), arr.data(), 13 * AGG_A), "slot lies inside the storage");
    vc_ensures(vc_within(arr.data(), 13 * AGG_A, &arr, sizeof arr), "storage lies inside the array object");
    if (m == m2 && i == j) vc_ensures(a == b, "slot address is a function of cell and member");
    else vc_ensures(vc_disjoint(a, size_a(m), b, size_a(m2)), "different slots share no byte");
    if (m == m2) vc_ensures(vc_offset(b, a) == (long(j) - long(i)) * long(size_a(m)), "elements are contiguous per member");
    vc_cover("end");
}

// registration: sizes add up
VC_HARNESS(registration)
{
    vc_ensures(LibFlatArray::aggregated_member_size<CellA>::VALUE == AGG_A, "aggregated size of CellA");
    vc_ensures(LibFlatArray::number_of_members<CellA>::VALUE == (SLOTS == 6 ? 4 : 7), "number of members of CellA");
    vc_ensures(LibFlatArray::aggregated_member_size<CellU>::VALUE == 21, "aggregated size of CellU");
    vc_ensures(LibFlatArray::number_of_members<CellU>::VALUE == 3, "number of members of CellU");
    vc_cover("end");
}

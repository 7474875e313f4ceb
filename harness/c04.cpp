#include "cells.hpp"
#include <utility>
typedef LibFlatArray::soa_grid<CellA> grid;

static inline grid& arbitrary(grid& g)
{
    vc_havoc(g.data(), g.byte_size(), "data");
    return g;
}
static inline void ensure_shape(const grid& g, const grid& fresh)
{
    vc_ensures(g.dim_x() == fresh.dim_x() && g.dim_y() == fresh.dim_y() && g.dim_z() == fresh.dim_z(), "dimensions");
    vc_ensures(g.extent_x() == fresh.extent_x() && g.extent_y() == fresh.extent_y() && g.extent_z() == fresh.extent_z(), "extents");
    vc_ensures(g.byte_size() == fresh.byte_size(), "byte size");
    vc_ensures(vc_bytes_from_alloc(g.data()) >= g.byte_size(), "storage has byte_size bytes");
}

VC_HARNESS(copy_construct)
{
    dims d = dims_a("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    arbitrary(a);
    dims p = coord_in(d, "x", "y", "z");
    CellA e = a.get(p.x, p.y, p.z);
    grid b(a);
    ensure_shape(b, a);
    vc_ensures(a.dim_x() == d.x && a.dim_y() == d.y && a.dim_z() == d.z, "source dimensions");
    ensure_same(b.get(p.x, p.y, p.z), e, "copy");
    ensure_same(a.get(p.x, p.y, p.z), e, "source");
    vc_ensures(!vc_sameobj(a.data(), b.data()), "copy has its own storage");
    // writing to one does not show in the other
    vc_havoc(a.data(), a.byte_size(), "overwrite");
    ensure_same(b.get(p.x, p.y, p.z), e, "copy after overwriting the source");
    vc_cover("end");
}

VC_HARNESS(assign)
{
    dims d = dims_a("dx", "dy", "dz"), d2 = dims_a("ex", "ey", "ez");
    grid a(d.x, d.y, d.z), b(d2.x, d2.y, d2.z);
    arbitrary(a);
    vc_havoc(b.data(), b.byte_size(), "old");
    dims p = coord_in(d, "x", "y", "z");
    CellA e = a.get(p.x, p.y, p.z);
    grid& r = (b = a);
    vc_ensures(&r == &b, "assignment returns the target");
    ensure_shape(b, a);
    vc_ensures(a.dim_x() == d.x && a.dim_y() == d.y && a.dim_z() == d.z, "source dimensions");
    ensure_same(b.get(p.x, p.y, p.z), e, "copy");
    ensure_same(a.get(p.x, p.y, p.z), e, "source");
    vc_ensures(!vc_sameobj(a.data(), b.data()), "target has its own storage");
    vc_cover("end");
}

VC_HARNESS(self_assign)
{
    dims d = dims_a("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    arbitrary(a);
    dims p = coord_in(d, "x", "y", "z");
    CellA e = a.get(p.x, p.y, p.z);
    grid& alias = a;
    a = alias;
    vc_ensures(a.dim_x() == d.x && a.dim_y() == d.y && a.dim_z() == d.z, "dimensions");
    ensure_same(a.get(p.x, p.y, p.z), e, "self assignment");
    vc_cover("end");
}

static inline void swap_contract(bool member)
{
    dims d = dims_a("dx", "dy", "dz"), d2 = dims_a("ex", "ey", "ez");
    grid a(d.x, d.y, d.z), b(d2.x, d2.y, d2.z);
    arbitrary(a);
    vc_havoc(b.data(), b.byte_size(), "other");
    dims p = coord_in(d, "x", "y", "z"), q = coord_in(d2, "x2", "y2", "z2");
    CellA ea = a.get(p.x, p.y, p.z), eb = b.get(q.x, q.y, q.z);
    const char *da = a.data(), *db = b.data();
    std::size_t ax = a.extent_x(), ay = a.extent_y(), az = a.extent_z(), as = a.byte_size();
    std::size_t bx = b.extent_x(), by = b.extent_y(), bz = b.extent_z(), bs = b.byte_size();
    if (member) a.swap(b);
    else swap(a, b);
    vc_ensures(b.dim_x() == d.x && b.dim_y() == d.y && b.dim_z() == d.z, "dimensions of the second grid");
    vc_ensures(a.dim_x() == d2.x && a.dim_y() == d2.y && a.dim_z() == d2.z, "dimensions of the first grid");
    vc_ensures(a.extent_x() == bx && a.extent_y() == by && a.extent_z() == bz && a.byte_size() == bs, "extents of the first grid");
    vc_ensures(b.extent_x() == ax && b.extent_y() == ay && b.extent_z() == az && b.byte_size() == as, "extents of the second grid");
    vc_ensures(a.data() == db && b.data() == da, "storage is exchanged");
    ensure_same(b.get(p.x, p.y, p.z), ea, "content of the second grid");
    ensure_same(a.get(q.x, q.y, q.z), eb, "content of the first grid");
    vc_cover("end");
}
VC_HARNESS(swap_member) { swap_contract(true); }
VC_HARNESS(swap_free) { swap_contract(false); }

VC_HARNESS(resize_same)
{
    dims d = dims_a("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    arbitrary(a);
    dims p = coord_in(d, "x", "y", "z");
    CellA e = a.get(p.x, p.y, p.z);
    a.resize(d.x, d.y, d.z);
    vc_ensures(a.dim_x() == d.x && a.dim_y() == d.y && a.dim_z() == d.z, "dimensions");
    ensure_same(a.get(p.x, p.y, p.z), e, "contents are kept");
    vc_cover("end");
}

VC_HARNESS(resize_other)
{
    dims d = dims_a("dx", "dy", "dz"), d2 = dims_a("ex", "ey", "ez");
    grid a(d.x, d.y, d.z);
    arbitrary(a);
    vc_requires(d.x != d2.x || d.y != d2.y || d.z != d2.z);
    a.resize(d2.x, d2.y, d2.z);
    vc_ensures(a.dim_x() == d2.x && a.dim_y() == d2.y && a.dim_z() == d2.z, "dimensions");
    dims q = coord_in(d2, "x2", "y2", "z2");
    ensure_zero(a.get(q.x, q.y, q.z));
    grid fresh(d2.x, d2.y, d2.z);
    ensure_shape(a, fresh);
    vc_cover("end");
}

// dimensions that do not fit: an exception, and the grid is still usable
VC_HARNESS(resize_too_large)
{
    dims d = dims_a("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    arbitrary(a);
    std::size_t ex = vc_u64("ex"), ey = vc_u64("ey"), ez = vc_u64("ez");
    vc_requires(ex > AX || ey > AY || ez > AZ);
    bool thrown = false;
    try { a.resize(ex, ey, ez); }
    catch (const std::exception&) { thrown = true; }
    vc_ensures(thrown, "too large dimensions are rejected");
    dims d2 = dims_a("fx", "fy", "fz");
    a.resize(d2.x, d2.y, d2.z);
    grid fresh(d2.x, d2.y, d2.z);
    ensure_shape(a, fresh);
    vc_cover("end");
}

// empty (default constructed) grids
VC_HARNESS(empty_grids)
{
    grid a;
    vc_ensures(a.dim_x() == 0 && a.dim_y() == 0 && a.dim_z() == 0, "default constructed grid is empty");
    vc_ensures(a.byte_size() == 0 || vc_bytes_from_alloc(a.data()) >= a.byte_size(), "byte size of an empty grid");
    grid b(a);
    vc_ensures(b.dim_x() == 0 && b.dim_y() == 0 && b.dim_z() == 0 && b.byte_size() == a.byte_size(), "copy of an empty grid");
    vc_ensures(b.extent_x() == a.extent_x() && b.extent_y() == a.extent_y() && b.extent_z() == a.extent_z(), "extents of the copy of an empty grid");
    dims d = dims_a("dx", "dy", "dz");
    grid c(d.x, d.y, d.z);
    arbitrary(c);
    dims p = coord_in(d, "x", "y", "z");
    CellA e = c.get(p.x, p.y, p.z);
    a = c;
    ensure_shape(a, c);
    ensure_same(a.get(p.x, p.y, p.z), e, "assign to an empty grid");
    c = b;
    vc_ensures(c.dim_x() == 0 && c.dim_y() == 0 && c.dim_z() == 0, "assign an empty grid");
    swap(a, b);
    ensure_same(b.get(p.x, p.y, p.z), e, "swap with an empty grid");
    vc_ensures(a.dim_x() == 0 && a.dim_y() == 0 && a.dim_z() == 0, "swap with an empty grid");
    vc_cover("end");
}

// freshly created cells are value-initialised
VC_HARNESS(fresh_zero)
{
    dims d = dims_a("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    dims q = coord_in(d, "x", "y", "z");
    ensure_zero(a.get(q.x, q.y, q.z));
    vc_ensures(a.dim_x() == d.x && a.dim_y() == d.y && a.dim_z() == d.z, "dimensions");
    vc_cover("end");
}

// empty grids of a cell type with the default sizes
VC_HARNESS(empty_grids_default)
{
    typedef LibFlatArray::soa_grid<CellU> ugrid;
    ugrid a;
    ugrid b(a);
    vc_ensures(b.dim_x() == 0 && b.dim_y() == 0 && b.dim_z() == 0 && b.byte_size() == a.byte_size(), "copy of an empty grid");
    ugrid c(4, 1, 1);
    vc_havoc(c.data(), c.byte_size(), "data");
    std::size_t x = vc_in("x", 0, 3);
    CellU e = c.get(x, 0, 0);
    a = c;
    ensure_same(a.get(x, 0, 0), e, "assign to an empty grid");
    vc_ensures(a.dim_x() == 4 && a.dim_y() == 1 && a.dim_z() == 1, "dimensions");
    c = b;
    vc_ensures(c.dim_x() == 0 && c.dim_y() == 0 && c.dim_z() == 0, "assign an empty grid");
    vc_cover("end");
}

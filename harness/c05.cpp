#include "cells.hpp"
#include "tracked.hpp"
#include <libflatarray/soa_vector.hpp>
#include <libflatarray/soa_array.hpp>
#include <new>
#include <stdexcept>
#include <utility>
typedef LibFlatArray::soa_grid<CellT> grid;
typedef LibFlatArray::soa_vector<CellV> vec;
typedef LibFlatArray::soa_array<CellV, 6> arr;
typedef LibFlatArray::soa_array<CellV, 3> arr3;

struct zdims { std::size_t x, y, z; };
#ifdef VC_LARGE
static const std::size_t TX = 5000000000ul, TY = 70000, TZ = 300;
#else
static const std::size_t TX = 8, TY = 6, TZ = 3;
#endif
static inline zdims any_dims(const char *lx, const char *ly, const char *lz)
{
    zdims d;
    d.x = vc_in(lx, 0, TX);
    d.y = vc_in(ly, 0, TY);
    d.z = vc_in(lz, 0, TZ);
    return d;
}

static inline void arbitrary_state(vec& v)
{
    // any size up to the capacity; the capacity itself is arbitrary
    v.resize(vc_in("size", 0, v.capacity()));
}

// construction and destruction: automatic obligations (construct only raw
// storage, destroy only live objects, nothing alive in released storage, no
// leak) plus: every cell is alive in between
VC_HARNESS(grid_ctor_dtor)
{
    zdims d = any_dims("dx", "dy", "dz");
    {
        grid g(d.x, d.y, d.z);
        vc_cover("constructed");
    }
    vc_cover("destroyed");
}

VC_HARNESS(grid_set_get)
{
    zdims d = any_dims("dx", "dy", "dz");
    vc_requires(d.x > 0 && d.y > 0 && d.z > 0);
    grid g(d.x, d.y, d.z);
    std::size_t x = vc_in("x", 0, d.x - 1), y = vc_in("y", 0, d.y - 1), z = vc_in("z", 0, d.z - 1);
    CellT c;
    c.t.v = vc_i32("v");
    g.set(x, y, z, c);
    CellT e = g.get(x, y, z);
    vc_ensures(e.t.v == c.t.v, "value");
    vc_cover("end");
}

VC_HARNESS(grid_bulk)
{
    zdims d = any_dims("dx", "dy", "dz");
    vc_requires(d.x > 0 && d.y > 0 && d.z > 0);
    grid g(d.x, d.y, d.z);
    std::size_t x = vc_in("x", 0, d.x - 1), y = vc_in("y", 0, d.y - 1), z = vc_in("z", 0, d.z - 1);
    CellT c[2];
    std::size_t n = vc_in("n", 0, 2);
    vc_requires(x + n <= d.x);
    g.set(x, y, z, c, n);
    g.get(x, y, z, c, n);
    std::size_t m = vc_in("m", 0, 8);
    vc_requires(x + m <= d.x);
    g.broadcast(x, y, z, c[0], m);
    vc_cover("end");
}

VC_HARNESS(grid_copy)
{
    zdims d = any_dims("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    grid b(a);
    vc_cover("end");
}

VC_HARNESS(grid_assign)
{
    zdims d = any_dims("dx", "dy", "dz"), e = any_dims("ex", "ey", "ez");
    grid a(d.x, d.y, d.z), b(e.x, e.y, e.z);
    b = a;
    vc_cover("end");
}

VC_HARNESS(grid_resize_swap)
{
    zdims d = any_dims("dx", "dy", "dz"), e = any_dims("ex", "ey", "ez");
    grid a(d.x, d.y, d.z), b;
    a.resize(e.x, e.y, e.z);
    b.swap(a);
    vc_cover("end");
}

VC_HARNESS(grid_resize_fails)
{
    zdims d = any_dims("dx", "dy", "dz");
    std::size_t ex = vc_u64("ex"), ey = vc_u64("ey"), ez = vc_u64("ez");
    vc_requires(ex > TX || ey > TY || ez > TZ);
    grid a(d.x, d.y, d.z);
    bool thrown = false;
    try {
        a.resize(ex, ey, ez);
    } catch (const std::out_of_range&) {
        thrown = true;
    }
    vc_ensures(thrown, "rejected");
    vc_cover("end");
}

VC_HARNESS(grid_ctor_fails)
{
    std::size_t ex = vc_u64("ex"), ey = vc_u64("ey"), ez = vc_u64("ez");
    vc_requires(ex > TX || ey > TY || ez > TZ);
    bool thrown = false;
    try {
        grid a(ex, ey, ez);
    } catch (const std::out_of_range&) {
        thrown = true;
    }
    vc_ensures(thrown, "rejected");
    vc_cover("end");
}

// ---- an allocation fails (std::bad_alloc): everything acquired so far is
// released once, containers stay destructible
VC_HARNESS(grid_alloc_fails_ctor)
{
    zdims d = any_dims("dx", "dy", "dz"), e = any_dims("ex", "ey", "ez");
    vc_alloc_fail(vc_in("at", 0, 2));
    try {
        grid a(d.x, d.y, d.z);
        grid b(e.x, e.y, e.z);
    } catch (const std::bad_alloc&) {
    }
    vc_cover("end");
}
VC_HARNESS(grid_alloc_fails_resize)
{
    zdims d = any_dims("dx", "dy", "dz"), e = any_dims("ex", "ey", "ez"), f = any_dims("fx", "fy", "fz");
    grid a(d.x, d.y, d.z);
    vc_alloc_fail(0);
    try {
        a.resize(e.x, e.y, e.z);
    } catch (const std::bad_alloc&) {
        // still usable
        a.resize(f.x, f.y, f.z);
    }
    vc_cover("end");
}
VC_HARNESS(grid_alloc_fails_copy)
{
    zdims d = any_dims("dx", "dy", "dz");
    grid a(d.x, d.y, d.z);
    vc_alloc_fail(0);
    try {
        grid b(a);
    } catch (const std::bad_alloc&) {
    }
    vc_cover("end");
}
VC_HARNESS(grid_alloc_fails_assign)
{
    zdims d = any_dims("dx", "dy", "dz"), e = any_dims("ex", "ey", "ez");
    grid a(d.x, d.y, d.z), b(e.x, e.y, e.z);
    vc_alloc_fail(0);
    try {
        b = a;
    } catch (const std::bad_alloc&) {
    }
    // the target can be assigned to again
    if (b.dim_x() != d.x || b.dim_y() != d.y || b.dim_z() != d.z) {
        b = a;
    }
    vc_cover("end");
}
VC_HARNESS(vector_alloc_fails_reserve)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    std::size_t r = vc_in("r", 0, 32), size = v.size(), cap = v.capacity();
    vc_alloc_fail(vc_in("at", 0, 1));
    try {
        v.reserve(r);
    } catch (const std::bad_alloc&) {
        vc_ensures(v.size() == size && v.capacity() == cap, "vector unchanged");
    }
    v.clear();
    vc_cover("end");
}
VC_HARNESS(vector_alloc_fails_resize)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    std::size_t r = vc_in("r", 0, 32), size = v.size(), cap = v.capacity();
    vc_alloc_fail(vc_in("at", 0, 1));
    try {
        v.resize(r);
    } catch (const std::bad_alloc&) {
        vc_ensures(v.size() == size && v.capacity() == cap, "vector unchanged");
    }
    vc_cover("end");
}
VC_HARNESS(vector_alloc_fails_push_back)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vc_requires(v.size() < 26);
    std::size_t size = v.size(), cap = v.capacity();
    CellV c;
    vc_alloc_fail(vc_in("at", 0, 1));
    try {
        v.push_back(c);
        vc_ensures(v.size() == size + 1, "appended");
    } catch (const std::bad_alloc&) {
        vc_ensures(v.size() == size && v.capacity() == cap, "vector unchanged");
    }
    vc_cover("end");
}
VC_HARNESS(vector_alloc_fails_copy)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vec w(vc_in("m", 0, 31));
    vc_alloc_fail(vc_in("at", 0, 1));
    try {
        vec x(v);
        w = v;
    } catch (const std::bad_alloc&) {
    }
    vc_cover("end");
}

// ---- growable vector: the invariant is "dim_x >= size", all members below
// dim_x alive; each operation is run from an arbitrary state reached by a
// constructor and a resize
VC_HARNESS(vector_ctor)
{
    std::size_t n = vc_in("n", 0, 32);
    vec v(n);
    CellV c;
    std::size_t m = vc_in("m", 0, 32);
    vec w(m, c);
    vc_cover("end");
}
VC_HARNESS(vector_push_back)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vc_requires(v.size() < 26);
    CellV c;
    v.push_back(c);
    vc_cover("end");
}
VC_HARNESS(vector_pop_back)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vc_requires(v.size() > 0);
    v.pop_back();
    vc_cover("end");
}
VC_HARNESS(vector_set_get)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vc_requires(v.size() > 0);
    std::size_t i = vc_in("i", 0, v.size() - 1);
    CellV c;
    v.set(i, c);
    CellV e = v.get(i);
    vc_cover("end");
}
VC_HARNESS(vector_reserve)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    v.reserve(vc_in("r", 0, 32));
    v.clear();
    vc_cover("end");
}
VC_HARNESS(vector_copy)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vec w(v);
    vc_cover("end");
}
VC_HARNESS(vector_assign)
{
    vec v(vc_in("n", 0, 31));
    arbitrary_state(v);
    vec w(vc_in("m", 0, 31));
    w = v;
    vc_cover("end");
}

// ---- fixed size array
VC_HARNESS(array_ops)
{
    std::size_t n = vc_in("n", 0, 6);
    CellV c;
    arr a(n, c);
    vc_requires(n > 0 && n < 5);
    a << c;
    a.push_back(c);
    a.pop_back();
    CellV e = a[vc_ins("i", 0, 5)];
    a.clear();
    vc_cover("end");
}
VC_HARNESS(array_copy)
{
    std::size_t n = vc_in("n", 0, 6);
    arr a(n);
    arr b(a);
    const arr& ca = a;
    arr c(ca);
    b = a;
    c = ca;
    vc_cover("end");
}
VC_HARNESS(array_convert)
{
    std::size_t n = vc_in("n", 0, 6), m = vc_in("m", 0, 3);
    arr a(n);
    arr3 s(m);
    arr b(s);
    a = s;
    bool thrown = false;
    try {
        arr3 t(a);
        s = b;
        a = arr(n);
        arr3 u(a);
    } catch (const std::out_of_range&) {
        thrown = true;
    }
    vc_cover("end");
}
VC_HARNESS(array_swap)
{
    arr a(vc_in("n", 0, 6)), b(vc_in("m", 0, 6));
    swap(a, b);
    vc_cover("end");
}
VC_HARNESS(array_ctor_fails)
{
    std::size_t n = vc_in("n", 7, 0x7fffffff);
    bool thrown = false;
    try {
        arr a(n);
    } catch (const std::out_of_range&) {
        thrown = true;
    }
    vc_ensures(thrown, "rejected");
    vc_cover("end");
}

// Accessor contracts which name the members of one cell type (c07.cpp has the generic ones).
#include "cells.hpp"
using namespace LibFlatArray;
#if VC_LARGE == 1
static const long DX = 70000, DY = 70000, DZ = 300, SLOTS = DX * DY * DZ;
#else
static const long DX = 8, DY = 4, DZ = 6, SLOTS = DX * DY * DZ;
#endif
typedef soa_accessor<CellA, DX, DY, DZ, 0> acc;
typedef soa_accessor_light<CellA, DX, DY, DZ, 0> lacc;
#define ANY_INDEX long i = vc_in("i", 0, SLOTS - 1)
static inline char *storage()
{
    return vc_buffer(AGG_A * SLOTS, "data");
}
// a cell far enough from the border for all neighbours used below
static inline long inner_index()
{
    long x = vc_in("x", 2, DX - 3), y = vc_in("y", 1, DY - 2), z = vc_in("z", 2, DZ - 3);
    return x + y * DX + z * DX * DY;
}
// access_member by type and by size
VC_HARNESS(access_member)
{
    char *d = storage();
    ANY_INDEX;
    acc a(d, i);
    lacc l(d, i);
    vc_ensures(&a.access_member<double, 0>() == &a.a() && &a.access_member<int, 1>() == &a.b() && &a.access_member<char, 3>() == &a.d(), "typed member access");
    vc_ensures(&l.access_member<double, 0>() == &a.a() && &l.access_member<int, 1>() == &a.b() && &l.access_member<char, 3>() == &a.d(), "typed member access (light)");
    vc_ensures(a.access_member(8, 0) == (char*)&a.a() && a.access_member(4, 8) == (char*)&a.b() && a.access_member(1, 24) == (char*)&a.d(), "member access by size");
    vc_ensures(l.access_member(8, 0) == (char*)&a.a() && l.access_member(4, 8) == (char*)&a.b() && l.access_member(1, 24) == (char*)&a.d(), "member access by size (light)");
    vc_cover("end");
}
VC_HARNESS(access_member_neighbour)
{
    char *d = storage();
    long i = inner_index();
    acc a(d, i);
    auto n = a[coord<1, -1, 2>()];
    vc_ensures(&n.access_member<double, 0>() == &n.a() && &n.access_member<int, 1>() == &n.b() && &n.access_member<char, 3>() == &n.d(), "typed member access");
    vc_ensures(n.access_member(8, 0) == (char*)&n.a() && n.access_member(4, 8) == (char*)&n.b() && n.access_member(1, 24) == (char*)&n.d(), "member access by size");
    vc_cover("end");
}

// ---- in a callback on a grid, against the grid interface
struct touch
{
    std::size_t x, y, z;
    const CellA *c;
    template<typename ACC>
    void operator()(ACC& a) const
    {
        a.index() = ACC::gen_index(x, y, z);
        a[coord<-1, 0, 1>()].a() = c->a;
        auto n = a[coord<-1, 0, 1>()];
        n.b() = c->b;
        n.template c<0>() = c->c[0];
        n.c()[1] = c->c[1];
        a.index() += 1;
        a[coord<-2, 0, 1>()].template c<2>() = c->c[2];
        a[coord<-2, 0, 1>()].d() = c->d;
    }
};
VC_HARNESS(callback_neighbour)
{
    dims d = dims_a("dx", "dy", "dz");
    vc_requires(d.x > 1 && d.z > 1);
    soa_grid<CellA> g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    std::size_t x = vc_in("x", 1, d.x - 1), y = vc_in("y", 0, d.y - 1), z = vc_in("z", 0, d.z - 2);
    dims q = coord_in(d, "x2", "y2", "z2");
    CellA old = g.get(q.x, q.y, q.z);
    touch t = {x, y, z, &c};
    g.callback(t);
    CellA now = g.get(q.x, q.y, q.z);
    if (q.x == x - 1 && q.y == y && q.z == z + 1) { ensure_same(now, c, ""); vc_cover("hit"); }
    else { ensure_same(now, old, ""); vc_cover("other"); }
}

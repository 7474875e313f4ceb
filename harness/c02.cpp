#include "cells.hpp"
#include "celln.hpp"
typedef LibFlatArray::soa_grid<CellA> grid;

// set one cell: exactly that cell changes
VC_HARNESS(set_get)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    CellA old = g.get(q.x, q.y, q.z);
    g.set(p.x, p.y, p.z, c);
    CellA now = g.get(q.x, q.y, q.z);
    bool hit = p.x == q.x && p.y == q.y && p.z == q.z;
    ensure_same(now, hit ? c : old, "set");
    vc_cover("end");
}

// set n consecutive cells
VC_HARNESS(set_bulk)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    CellA *cells = (CellA*)vc_buffer(n * sizeof(CellA), "cells");
    CellA old = g.get(q.x, q.y, q.z);
    g.set(p.x, p.y, p.z, cells, n);
    CellA now = g.get(q.x, q.y, q.z);
    bool hit = p.y == q.y && p.z == q.z && q.x >= p.x && q.x < p.x + n;
    ensure_same(now, hit ? cells[q.x - p.x] : old, "set bulk");
    vc_cover("end");
}

// read n consecutive cells: exactly these output cells are written, the grid stays
VC_HARNESS(get_bulk)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    CellA *out = (CellA*)vc_buffer((n + 2) * sizeof(CellA), "out");
    std::size_t j = vc_in("j", 0, n + 1);
    CellA before = out[j];
    const grid& cg = g;
    cg.get(p.x, p.y, p.z, out + 1, n);
    if (j == 0 || j == n + 1) {
        ensure_same(out[j], before, "outside");
        vc_cover("outside");
    } else {
        CellA e = cg.get(p.x + j - 1, p.y, p.z);
        ensure_same(out[j], e, "inside");
        vc_cover("inside");
    }
}

// reading leaves the grid as it was
VC_HARNESS(get_pure)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    CellA *out = (CellA*)vc_buffer(n * sizeof(CellA), "out");
    std::size_t i = vc_in("byte", 0, g.byte_size() - 1);
    char *data = g.data();
    std::size_t bytes = g.byte_size();
    unsigned long before = vc_value(g.data() + i, 1);
    g.get(p.x, p.y, p.z, out, n);
    CellA c = g.get(p.x, p.y, p.z);
    vc_havoc(&c, sizeof c, "scratch");
    vc_ensures(vc_value(g.data() + i, 1) == before, "reading does not change the grid");
    vc_ensures(g.data() == data && g.byte_size() == bytes && g.dim_x() == d.x && g.dim_y() == d.y && g.dim_z() == d.z,
               "reading does not change dimensions or storage");
    vc_cover("end");
}

// broadcast one cell to n consecutive cells
VC_HARNESS(broadcast)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    CellA old = g.get(q.x, q.y, q.z);
    g.broadcast(p.x, p.y, p.z, c, n);
    CellA now = g.get(q.x, q.y, q.z);
    bool hit = p.y == q.y && p.z == q.z && q.x >= p.x && q.x < p.x + n;
    ensure_same(now, hit ? c : old, "broadcast");
    vc_cover("end");
}

// default sized cell type (all default tables), 1D to 3D
typedef LibFlatArray::soa_grid<CellU> ugrid;
VC_HARNESS(default_set_get)
{
    dims d;
    d.x = vc_in("dx", 1, 1032);
    d.y = vc_in("dy", 1, 1032);
    d.z = vc_in("dz", 1, 1032);
    vc_requires(d.y > 1 || d.z == 1);
    ugrid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    CellU c;
    vc_havoc(&c, sizeof c, "cell");
    CellU old = g.get(q.x, q.y, q.z);
    g.set(p.x, p.y, p.z, c);
    CellU now = g.get(q.x, q.y, q.z);
    bool hit = p.x == q.x && p.y == q.y && p.z == q.z;
    ensure_same(now, hit ? c : old, "set");
    vc_cover("end");
}

// every one of many members is transferred
VC_HARNESS(many_members)
{
    LibFlatArray::soa_grid<CellN> g(4, 2, 2);
    vc_havoc(g.data(), g.byte_size(), "data");
    std::size_t x = vc_in("x", 0, 3), y = vc_in("y", 0, 1), z = vc_in("z", 0, 1);
    std::size_t x2 = vc_in("x2", 0, 3), y2 = vc_in("y2", 0, 1), z2 = vc_in("z2", 0, 1);
    CellN c, old = g.get(x2, y2, z2);
    vc_havoc(&c, sizeof c, "cell");
    g.set(x, y, z, c);
    CellN now = g.get(x2, y2, z2);
    bool hit = x == x2 && y == y2 && z == z2;
    const CellN& e = hit ? c : old;
#define M(MEMBER, OFFSET, SIZE) \
    vc_ensures(vc_same(&now.MEMBER, &e.MEMBER, SIZE), "member " #MEMBER);
    FOR_EACH_N(M)
#undef M
    vc_cover("end");
}

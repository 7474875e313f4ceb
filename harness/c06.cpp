// Size selection: the registered size tables are written down here a second
// time, as the specification.
#include "cells.hpp"
#include <libflatarray/soa_vector.hpp>
#include <stdexcept>
using LibFlatArray::api_traits;

static const std::size_t T1D[] = {32,64,128,192,256,512,544,1056,2080,4128,8224,16416,32800,65568,131104,262176,524320,1048608,2097184,4194336,8388640,16777248,33554464,67108896,134217760,268435488,536870944,1073741856};
static const std::size_t T2D[] = {32,64,128,192,256,512,544,1056,2080,4128,8224,16416,32800};
static const std::size_t T3D[] = {32,64,128,136,192,200,256,264,512,520,1032};
static const std::size_t T_ONE[] = {1};
static const std::size_t TAX[] = {8,16}, TAY[] = {4,12}, TAZ[] = {2,6};
static const std::size_t TU[] = {3,10,11,100};
#define N(T) (sizeof(T) / sizeof(T[0]))

struct record { std::size_t calls, x, y, z, prod, idx; const char *data; };
struct recorder
{
    record *r;
    template<typename ACCESSOR>
    void operator()(ACCESSOR& a) const
    {
        r->calls += 1;
        r->x = ACCESSOR::DIM_X; r->y = ACCESSOR::DIM_Y; r->z = ACCESSOR::DIM_Z;
        r->prod = ACCESSOR::DIM_PROD;
        r->idx = a.index();
        r->data = a.data();
    }
};
struct recorder2
{
    record *r, *s;
    template<typename ACCESSOR1, typename ACCESSOR2>
    void operator()(ACCESSOR1& a, ACCESSOR2& b) const
    {
        recorder f = {r}, g = {s};
        f(a);
        g(b);
    }
};
// e is the smallest table entry which is at least dim
static inline bool smallest(const std::size_t *t, std::size_t n, std::size_t e, std::size_t dim)
{
    std::size_t prev = 0;
    bool in = false;
    for (std::size_t i = 0; i < n; ++i) {
        if (t[i] == e) in = true;
        if (t[i] < e) prev = t[i];
    }
    return in && e >= dim && (prev == 0 || prev < dim);
}
static inline std::size_t max3(std::size_t a, std::size_t b, std::size_t c)
{
    std::size_t m = a > b ? a : b;
    return m > c ? m : c;
}
// runs the selection; kind: 0 = called, 1 = out_of_range, 2 = something else
template<typename CELL>
static inline int run(record& r, char *data, std::size_t x, std::size_t y, std::size_t z)
{
    r = record();
    recorder f = {&r};
    try { api_traits::select_sizes<CELL>()(data, f, x, y, z); }
    catch (const std::out_of_range&) { return 1; }
    catch (...) { return 2; }
    return 0;
}
static inline void ensure_called(int kind, const record& r, const char *data)
{
    vc_ensures(kind == 0, "supported dimensions are accepted");
    vc_ensures(r.calls == 1, "the functor is called exactly once");
    vc_ensures(r.idx == 0 && r.data == data, "the accessor starts at index 0 of the data");
    vc_ensures(r.prod == r.x * r.y * r.z, "slot count of the accessor");
}
static inline void ensure_rejected(int kind, const record& r)
{
    vc_ensures(kind == 1, "unsupported dimensions raise out_of_range");
    vc_ensures(r.calls == 0, "the functor is not called for unsupported dimensions");
}
#define SELECT(CELL) \
    char *data = vc_buffer(64, "data"); \
    std::size_t x = vc_u64("x"), y = vc_u64("y"), z = vc_u64("z"); \
    record r; \
    int kind = run<CELL>(r, data, x, y, z);

VC_HARNESS(select_custom)
{
    SELECT(CellA)
    if (x > 16 || y > 12 || z > 6) { ensure_rejected(kind, r); vc_cover("too large"); }
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(TAX, N(TAX), r.x, x), "smallest fitting x extent");
        vc_ensures(smallest(TAY, N(TAY), r.y, y), "smallest fitting y extent");
        vc_ensures(smallest(TAZ, N(TAZ), r.z, z), "smallest fitting z extent");
        vc_cover("fits");
    }
}
static inline void contract_1d(int kind, const record& r, const char *data, const std::size_t *t, std::size_t n, std::size_t x, std::size_t y, std::size_t z)
{
    if (x > t[n - 1] || y > 1 || z > 1) ensure_rejected(kind, r);
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(t, n, r.x, x), "smallest fitting x extent");
        vc_ensures(r.y == 1 && r.z == 1, "1D accessor");
        vc_cover("1D");
    }
}
static inline void contract_2d(int kind, const record& r, const char *data, const std::size_t *t, std::size_t n, std::size_t x, std::size_t y, std::size_t z)
{
    std::size_t m = max3(x, y, 0);
    if (m > t[n - 1] || z > 1) ensure_rejected(kind, r);
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(t, n, r.x, m), "smallest fitting common extent");
        vc_ensures(r.y == r.x && r.z == 1, "2D accessor is uniform");
        vc_cover("2D");
    }
}
static inline void contract_3d(int kind, const record& r, const char *data, const std::size_t *t, std::size_t n, std::size_t x, std::size_t y, std::size_t z)
{
    std::size_t m = max3(x, y, z);
    if (m > t[n - 1]) ensure_rejected(kind, r);
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(t, n, r.x, m), "smallest fitting common extent");
        vc_ensures(r.y == r.x && r.z == r.x, "3D accessor is uniform");
        vc_cover("3D");
    }
}

// no API class: table by dimensionality
VC_HARNESS(select_default)
{
    SELECT(CellU)
    if (y > 1 && z > 1) contract_3d(kind, r, data, T3D, N(T3D), x, y, z);
    else if (y > 1) contract_2d(kind, r, data, T2D, N(T2D), x, y, z);
    else contract_1d(kind, r, data, T1D, N(T1D), x, y, z);
}

#define CELL_WITH(NAME, BASE) \
    struct NAME { class API : public BASE {}; float a; short b[2]; }; \
    LIBFLATARRAY_REGISTER_SOA(NAME, ((float)(a))((short)(b)(2)))
#define CELL_SIZES(NAME, SIZES) \
    struct NAME { class API : public LibFlatArray::api_traits::has_custom_sizes { public: SIZES }; float a; short b[2]; }; \
    LIBFLATARRAY_REGISTER_SOA(NAME, ((float)(a))((short)(b)(2)))
CELL_WITH(CellD1, LibFlatArray::api_traits::has_default_1d_sizes)
CELL_WITH(CellD2, LibFlatArray::api_traits::has_default_2d_sizes)
CELL_WITH(CellD2U, LibFlatArray::api_traits::has_default_2d_sizes_uniform)
CELL_WITH(CellD3U, LibFlatArray::api_traits::has_default_3d_sizes_uniform)
CELL_SIZES(CellC1U, LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(10)(11)(100)))
CELL_SIZES(CellC2U, LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((3)(10)(11)(100)))
CELL_SIZES(CellC3U, LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((3)(10)(11)(100)))

VC_HARNESS(select_default_1d) { SELECT(CellD1) contract_1d(kind, r, data, T1D, N(T1D), x, y, z); }
VC_HARNESS(select_default_2d_uniform) { SELECT(CellD2U) contract_2d(kind, r, data, T2D, N(T2D), x, y, z); }
VC_HARNESS(select_default_3d_uniform) { SELECT(CellD3U) contract_3d(kind, r, data, T3D, N(T3D), x, y, z); }
VC_HARNESS(select_custom_1d) { SELECT(CellC1U) contract_1d(kind, r, data, TU, N(TU), x, y, z); }
VC_HARNESS(select_custom_2d) { SELECT(CellC2U) contract_2d(kind, r, data, TU, N(TU), x, y, z); }
VC_HARNESS(select_custom_3d) { SELECT(CellC3U) contract_3d(kind, r, data, TU, N(TU), x, y, z); }
VC_HARNESS(select_default_2d)
{
    SELECT(CellD2)
    if (x > 32800 || y > 32800 || z > 1) { ensure_rejected(kind, r); vc_cover("too large"); }
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(T2D, N(T2D), r.x, x), "smallest fitting x extent");
        vc_ensures(smallest(T2D, N(T2D), r.y, y), "smallest fitting y extent");
        vc_ensures(r.z == 1, "2D accessor");
        vc_cover("fits");
    }
}
#if 1
CELL_WITH(CellD3, LibFlatArray::api_traits::has_default_3d_sizes)
VC_HARNESS(select_default_3d)
{
    SELECT(CellD3)
    if (x > 1032 || y > 1032 || z > 1032) { ensure_rejected(kind, r); vc_cover("too large"); }
    else {
        ensure_called(kind, r, data);
        vc_ensures(smallest(T3D, N(T3D), r.x, x), "smallest fitting x extent");
        vc_ensures(smallest(T3D, N(T3D), r.y, y), "smallest fitting y extent");
        vc_ensures(smallest(T3D, N(T3D), r.z, z), "smallest fitting z extent");
        vc_cover("fits");
    }
}
#endif

// ---- through the containers
VC_HARNESS(grid_callback)
{
    dims d = dims_a("dx", "dy", "dz");
    LibFlatArray::soa_grid<CellA> g(d.x, d.y, d.z);
    const LibFlatArray::soa_grid<CellA>& cg = g;
    record r = record(), s = record();
    recorder f = {&r}, h = {&s};
    g.callback(f);
    cg.callback(h);
    ensure_called(0, r, g.data());
    vc_ensures(smallest(TAX, N(TAX), r.x, d.x) && smallest(TAY, N(TAY), r.y, d.y) && smallest(TAZ, N(TAZ), r.z, d.z), "smallest fitting extents");
    vc_ensures(s.calls == 1 && s.x == r.x && s.y == r.y && s.z == r.z && s.data == r.data && s.idx == 0, "callback on a const grid");
    vc_ensures(g.extent_x() == r.x && g.extent_y() == r.y && g.extent_z() == r.z, "extents of the grid are those of the accessor");
    vc_cover("end");
}
VC_HARNESS(grid_ctor_rejects)
{
    std::size_t x = vc_u64("x"), y = vc_u64("y"), z = vc_u64("z");
    vc_requires(x > 16 || y > 12 || z > 6);
    bool thrown = false;
    try { LibFlatArray::soa_grid<CellA> g(x, y, z); }
    catch (const std::out_of_range&) { thrown = true; }
    vc_ensures(thrown, "a grid of unsupported dimensions is rejected");
    vc_cover("end");
}
VC_HARNESS(vector_callback)
{
    std::size_t n = vc_in("n", 0, 100);
    LibFlatArray::soa_vector<CellC1U> v(n);
    record r = record();
    recorder f = {&r};
    v.callback(f);
    vc_ensures(r.calls == 1 && r.idx == 0, "the functor is called exactly once");
    vc_ensures(smallest(TU, N(TU), r.x, n) && r.y == 1 && r.z == 1, "smallest fitting extent");
    vc_cover("end");
}
VC_HARNESS(vector_callback_const)
{
    std::size_t n = vc_in("n", 0, 100);
    LibFlatArray::soa_vector<CellC1U> v(n);
    const LibFlatArray::soa_vector<CellC1U>& cv = v;
    record r = record(), s = record();
    recorder f = {&r}, g = {&s};
    v.callback(f);
    cv.callback(g);
    vc_ensures(s.calls == 1 && s.idx == 0 && s.data == r.data, "the functor is called exactly once");
    vc_ensures(s.x == r.x && s.y == 1 && s.z == 1 && s.prod == r.prod, "same extents as for a mutable vector");
    vc_cover("end");
}
// the data pointer of a grid may be replaced, callbacks then see the new one
VC_HARNESS(grid_set_data)
{
    dims d = dims_a("dx", "dy", "dz");
    LibFlatArray::soa_grid<CellA> g(d.x, d.y, d.z);
    char *own = g.data(), *other = vc_buffer(g.byte_size(), "other");
    g.set_data(other);
    const LibFlatArray::soa_grid<CellA>& cg = g;
    record r = record();
    recorder f = {&r};
    g.callback(f);
    vc_ensures(g.data() == other && cg.data() == other && r.data == other && r.calls == 1 && r.idx == 0, "callbacks use the new data");
    vc_ensures(g.dim_x() == d.x && g.dim_y() == d.y && g.dim_z() == d.z, "dimensions are unchanged");
    g.set_data(own);
    vc_cover("end");
}
VC_HARNESS(dual_symmetric_const)
{
    dims d = dims_a("dx", "dy", "dz"), e = dims_a("ex", "ey", "ez");
    LibFlatArray::soa_grid<CellA> g(d.x, d.y, d.z), h(e.x, e.y, e.z);
    const LibFlatArray::soa_grid<CellA>& cg = g;
    record r = record(), s = record();
    recorder2 f = {&r, &s};
    int kind = 0;
    try { cg.callback(&h, f); }
    catch (const std::invalid_argument&) { kind = 1; }
    catch (...) { kind = 2; }
    if (d.x == e.x && d.y == e.y && d.z == e.z) {
        vc_ensures(kind == 0 && r.calls == 1 && s.calls == 1, "the functor is called exactly once");
        vc_ensures(r.idx == 0 && s.idx == 0 && r.data == g.data() && s.data == h.data(), "each accessor starts at its grid");
        vc_ensures(r.x == g.extent_x() && r.y == g.extent_y() && r.z == g.extent_z() && s.x == r.x && s.y == r.y && s.z == r.z, "extents");
        vc_cover("same");
    } else {
        vc_ensures(kind == 1 && r.calls == 0 && s.calls == 0, "different dimensions are rejected");
        vc_cover("different");
    }
}
VC_HARNESS(dual_symmetric)
{
    dims d = dims_a("dx", "dy", "dz"), e = dims_a("ex", "ey", "ez");
    LibFlatArray::soa_grid<CellA> g(d.x, d.y, d.z), h(e.x, e.y, e.z);
    record r = record(), s = record();
    recorder2 f = {&r, &s};
    int kind = 0;
    try { g.callback(&h, f); }
    catch (const std::invalid_argument&) { kind = 1; }
    catch (...) { kind = 2; }
    if (d.x == e.x && d.y == e.y && d.z == e.z) {
        vc_ensures(kind == 0 && r.calls == 1 && s.calls == 1, "the functor is called exactly once");
        vc_ensures(r.idx == 0 && s.idx == 0 && r.data == g.data() && s.data == h.data(), "each accessor starts at its grid");
        vc_ensures(smallest(TAX, N(TAX), r.x, d.x) && smallest(TAY, N(TAY), r.y, d.y) && smallest(TAZ, N(TAZ), r.z, d.z), "smallest fitting extents");
        vc_ensures(s.x == r.x && s.y == r.y && s.z == r.z, "both accessors have the same extents");
        vc_cover("same");
    } else {
        vc_ensures(kind == 1 && r.calls == 0 && s.calls == 0, "different dimensions are rejected");
        vc_cover("different");
    }
}
struct CellAsym
{
    class API : public LibFlatArray::api_traits::has_custom_sizes, public LibFlatArray::api_traits::has_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((8)(16), (4), (2)(6))
    };
    float a;
    short b[2];
};
LIBFLATARRAY_REGISTER_SOA(CellAsym, ((float)(a))((short)(b)(2)))
VC_HARNESS(dual_asymmetric)
{
    std::size_t x = vc_in("x", 1, 16), y = vc_in("y", 1, 4), z = vc_in("z", 1, 6);
    std::size_t x2 = vc_in("x2", 1, 16), y2 = vc_in("y2", 1, 4), z2 = vc_in("z2", 1, 6);
    LibFlatArray::soa_grid<CellAsym> g(x, y, z), h(x2, y2, z2);
    record r = record(), s = record();
    recorder2 f = {&r, &s};
    g.callback(&h, f);
    vc_ensures(r.calls == 1 && s.calls == 1, "the functor is called exactly once");
    vc_ensures(r.idx == 0 && s.idx == 0 && r.data == g.data() && s.data == h.data(), "each accessor starts at its grid");
    static const std::size_t tx[] = {8,16}, ty[] = {4}, tz[] = {2,6};
    vc_ensures(smallest(tx, 2, r.x, x) && smallest(ty, 1, r.y, y) && smallest(tz, 2, r.z, z), "smallest fitting extents of the first grid");
    vc_ensures(smallest(tx, 2, s.x, x2) && smallest(ty, 1, s.y, y2) && smallest(tz, 2, s.z, z2), "smallest fitting extents of the second grid");
    vc_cover("end");
}
VC_HARNESS(dual_asymmetric_const)
{
    std::size_t x = vc_in("x", 1, 16), y = vc_in("y", 1, 4), z = vc_in("z", 1, 6);
    std::size_t x2 = vc_in("x2", 1, 16), y2 = vc_in("y2", 1, 4), z2 = vc_in("z2", 1, 6);
    LibFlatArray::soa_grid<CellAsym> g(x, y, z), h(x2, y2, z2);
    const LibFlatArray::soa_grid<CellAsym>& cg = g;
    record r = record(), s = record();
    recorder2 f = {&r, &s};
    cg.callback(&h, f);
    vc_ensures(r.calls == 1 && s.calls == 1, "the functor is called exactly once");
    vc_ensures(r.idx == 0 && s.idx == 0 && r.data == g.data() && s.data == h.data(), "each accessor starts at its grid");
    vc_ensures(r.x == g.extent_x() && r.y == g.extent_y() && r.z == g.extent_z(), "extents of the first grid");
    vc_ensures(s.x == h.extent_x() && s.y == h.extent_y() && s.z == h.extent_z(), "extents of the second grid");
    vc_cover("end");
}

// Frame conditions: reading operations write nothing but their result, writing
// operations write only the addressed cells' slots of the container they are
// applied to (and touch no other cell's slots); there is no hidden state in the
// containers or in static objects. Hence operations which share no written slot
// cannot interfere, whatever their schedule.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
// native runs: keep the static objects of this unit apart, so that they can be compared
#pragma clang section bss="vckb" data="vckd"
#endif
#endif
#include "cells.hpp"
#include <libflatarray/soa_vector.hpp>
using namespace LibFlatArray;
typedef soa_grid<CellA> grid;

#ifndef VC_WIDE
static const std::size_t SLOTS = 6;
#define FOR_EACH_SLOT(M) M(0, a(), 8) M(1, b(), 4) M(2, c()[0], 4) M(3, c()[1], 4) M(4, c()[2], 4) M(5, d(), 1)
#else
static const std::size_t SLOTS = 30;
#define FOR_EACH_SLOT(M) \
    M(0, s()[0], 2) M(1, s()[1], 2) M(2, s()[2], 2) M(3, s()[3], 2) M(4, s()[4], 2) M(5, u()[0], 1) M(6, l(), 8) \
    M(7, p()[0], 8) M(8, p()[1], 8) M(9, e(), 2) M(10, t()[0], 8) M(11, t()[1], 8) M(12, w()[0], 4) \
    M(13, w()[1], 4) M(14, w()[2], 4) M(15, w()[3], 4) M(16, w()[4], 4) M(17, w()[5], 4) M(18, w()[6], 4) M(19, w()[7], 4) M(20, w()[8], 4) \
    M(21, w()[9], 4) M(22, w()[10], 4) M(23, w()[11], 4) M(24, w()[12], 4) M(25, w()[13], 4) M(26, w()[14], 4) M(27, w()[15], 4) M(28, w()[16], 4) \
    M(29, l(), 8)
#endif
struct slots { const char *at[SLOTS]; };
struct take_slots
{
    dims p; slots *out;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = ACC::gen_index(p.x, p.y, p.z);
#define M(N, MEMBER, SIZE) out->at[N] = (const char*)&acc.MEMBER;
        FOR_EACH_SLOT(M)
#undef M
    }
};
// the slots of n cells from the taken one on
static inline void may_read(const slots& s, std::size_t n)
{
#define M(N, MEMBER, SIZE) vc_may_read(s.at[N], n * SIZE);
    FOR_EACH_SLOT(M)
#undef M
}
static inline void may_write(const slots& s, std::size_t n)
{
#define M(N, MEMBER, SIZE) vc_may_write(s.at[N], n * SIZE);
    FOR_EACH_SLOT(M)
#undef M
}
#define GRID \
    dims d = dims_a("dx", "dy", "dz"); \
    grid g(d.x, d.y, d.z); \
    vc_havoc(g.data(), g.byte_size(), "data"); \
    const grid& cg = g;
#define CELLS(P, N, S) \
    std::size_t N = vc_in("n", 0, d.x - P.x); \
    CELLS_AT(P, S)
#define CELLS_AT(P, S) \
    slots S; \
    { take_slots taker = {P, &S}; g.callback(taker); }
// from here on only the slots of n cells may be read / written
#define READS(S, N) vc_frame_begin(); vc_frozen(&g, sizeof g); vc_limit_reads(g.data()); may_read(S, N);
#define WRITES(S, N) vc_frame_begin(); vc_frozen(&g, sizeof g); vc_limit_reads(g.data()); may_write(S, N);
#define DONE vc_frame_end(); vc_ensures(true, "frame"); vc_cover("end");

VC_HARNESS(grid_get)
{
    GRID
    dims p = coord_in(d, "x", "y", "z");
    CELLS_AT(p, s)
    READS(s, 1)
    CellA c = cg.get(p.x, p.y, p.z);
    DONE
    vc_havoc(&c, sizeof c, "scratch");
}
VC_HARNESS(grid_get_bulk)
{
    GRID
    dims p = coord_in(d, "x", "y", "z");
    CELLS(p, n, s)
    CellA *out = (CellA*)vc_buffer(n * sizeof(CellA), "out");
    READS(s, n)
    vc_may_write(out, n * sizeof(CellA));
    cg.get(p.x, p.y, p.z, out, n);
    DONE
}
VC_HARNESS(grid_save)
{
    GRID
    dims p = coord_in(d, "x", "y", "z");
    CELLS(p, n, s)
    char *out = vc_buffer(n * AGG_A, "out");
    READS(s, n)
    vc_may_write(out, n * AGG_A);
    cg.save(p.x, p.y, p.z, out, n);
    DONE
}
VC_HARNESS(grid_set)
{
    GRID
    (void)cg;
    dims p = coord_in(d, "x", "y", "z");
    CELLS_AT(p, s)
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    WRITES(s, 1)
    vc_frozen(&c, sizeof c);
    g.set(p.x, p.y, p.z, c);
    DONE
}
VC_HARNESS(grid_set_bulk)
{
    GRID
    (void)cg;
    dims p = coord_in(d, "x", "y", "z");
    CELLS(p, n, s)
    CellA *in = (CellA*)vc_buffer(n * sizeof(CellA), "in");
    WRITES(s, n)
    g.set(p.x, p.y, p.z, in, n);
    DONE
}
VC_HARNESS(grid_broadcast)
{
    GRID
    (void)cg;
    dims p = coord_in(d, "x", "y", "z");
    CELLS(p, n, s)
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    WRITES(s, n)
    vc_frozen(&c, sizeof c);
    g.broadcast(p.x, p.y, p.z, c, n);
    DONE
}
VC_HARNESS(grid_load)
{
    GRID
    (void)cg;
    dims p = coord_in(d, "x", "y", "z");
    CELLS(p, n, s)
    char *in = vc_buffer(n * AGG_A, "in");
    WRITES(s, n)
    g.load(p.x, p.y, p.z, in, n);
    DONE
}
// a list of two rows, each with its own start and length
struct row
{
    std::size_t origin[3]; std::size_t len;
    std::size_t length() const { return len; }
};
static inline row any_row(const dims& d, const char *x, const char *y, const char *z, const char *n)
{
    row r;
    dims p = coord_in(d, x, y, z);
    r.origin[0] = p.x; r.origin[1] = p.y; r.origin[2] = p.z;
    r.len = vc_in(n, 0, d.x - p.x);
    return r;
}
static inline dims start(const row& r) { dims p = {r.origin[0], r.origin[1], r.origin[2]}; return p; }
VC_HARNESS(grid_save_rows)
{
    GRID
    row rows[2] = { any_row(d, "x", "y", "z", "n"), any_row(d, "x2", "y2", "z2", "n2") };
    CELLS_AT(start(rows[0]), s)
    CELLS_AT(start(rows[1]), t)
    std::size_t n = rows[0].len + rows[1].len;
    char *out = vc_buffer(n * AGG_A, "out");
    READS(s, rows[0].len)
    may_read(t, rows[1].len);
    vc_may_write(out, n * AGG_A);
    cg.save(rows + 0, rows + 2, out, n);
    DONE
}
VC_HARNESS(grid_load_rows)
{
    GRID
    (void)cg;
    row rows[2] = { any_row(d, "x", "y", "z", "n"), any_row(d, "x2", "y2", "z2", "n2") };
    CELLS_AT(start(rows[0]), s)
    CELLS_AT(start(rows[1]), t)
    std::size_t n = rows[0].len + rows[1].len;
    char *in = vc_buffer(n * AGG_A, "in");
    WRITES(s, rows[0].len)
    may_write(t, rows[1].len);
    g.load(rows + 0, rows + 2, in, n);
    DONE
}
struct note { long *calls; template<typename ACC> void operator()(ACC& acc) const { *calls += 1 + acc.index(); } };
struct note2 { long *calls; template<typename A, typename B> void operator()(A& a, B& b) const { *calls += 1 + a.index() + b.index(); } };
VC_HARNESS(grid_queries)
{
    GRID
    long calls = 0;
    vc_frame_begin(); vc_frozen(&g, sizeof g); vc_limit_reads(g.data());
    note f = {&calls};
    cg.callback(f);
    g.callback(f);
    std::size_t sum = cg.dim_x() + cg.dim_y() + cg.dim_z() + cg.extent_x() + cg.extent_y() + cg.extent_z() + cg.byte_size();
    const char *p = cg.data();
    DONE
    vc_ensures(calls == 2 && sum > 0 && p == g.data(), "calls");
}
// copying from a grid: only the copy is written
VC_HARNESS(grid_copy)
{
    GRID
    vc_frame_begin(); vc_frozen(&g, sizeof g);
    { grid h(cg); vc_ensures(h.byte_size() == cg.byte_size(), "copied"); }
    DONE
}
VC_HARNESS(grid_assign)
{
    GRID
    dims e = dims_a("ex", "ey", "ez");
    grid h(e.x, e.y, e.z), other(2, 2, 2);
    vc_frame_begin(); vc_frozen(&g, sizeof g); vc_frozen(&other, sizeof other);
    vc_may_write(h.data(), vc_bytes_from_alloc(h.data()));
    h = cg;
    DONE
}
VC_HARNESS(grid_resize)
{
    GRID
    (void)cg;
    dims e = dims_a("ex", "ey", "ez");
    grid other(2, 2, 2);
    vc_frame_begin(); vc_frozen(&other, sizeof other);
    vc_may_write(g.data(), vc_bytes_from_alloc(g.data()));
    g.resize(e.x, e.y, e.z);
    DONE
}
VC_HARNESS(grid_dual)
{
    GRID
    grid h(d.x, d.y, d.z);
    long calls = 0;
    note2 f = {&calls};
    vc_frame_begin(); vc_frozen(&g, sizeof g); vc_frozen(&h, sizeof h); vc_limit_reads(g.data()); vc_limit_reads(h.data());
    cg.callback(&h, f);
    DONE
    vc_ensures(calls == 1, "calls");
}

// ---- vectors
struct CellW
{
    class API : public api_traits::has_custom_sizes
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((3)(10)(11)(100))
    };
    double a;
    short b[3];
    char c;
};
LIBFLATARRAY_REGISTER_SOA(CellW, ((double)(a))((short)(b)(3))((char)(c)))
typedef soa_vector<CellW> vec;
struct wslots { const char *at[5]; const char *data; };
struct take_wslots
{
    long i; wslots *out;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = i;
        out->at[0] = (const char*)&acc.a(); out->at[1] = (const char*)&acc.b()[0]; out->at[2] = (const char*)&acc.b()[1]; out->at[3] = (const char*)&acc.b()[2];
        out->at[4] = (const char*)&acc.c();
        out->data = acc.data();
    }
};
static inline void may_read(const wslots& s) { vc_may_read(s.at[0], 8); vc_may_read(s.at[1], 2); vc_may_read(s.at[2], 2); vc_may_read(s.at[3], 2); vc_may_read(s.at[4], 1); }
static inline void may_write(const wslots& s) { vc_may_write(s.at[0], 8); vc_may_write(s.at[1], 2); vc_may_write(s.at[2], 2); vc_may_write(s.at[3], 2); vc_may_write(s.at[4], 1); }
#define VECTOR \
    std::size_t cap = vc_in("cap", 1, 100), n = vc_in("size", 1, cap), i = vc_in("i", 0, n - 1); \
    vec v(cap); \
    v.resize(n); \
    const vec& cv = v; \
    wslots s; \
    { take_wslots taker = {(long)i, &s}; v.callback(taker); } \
    vc_havoc(const_cast<char*>(s.data), vc_bytes_from_alloc(s.data), "contents");
VC_HARNESS(vector_get)
{
    VECTOR
    vc_frame_begin(); vc_frozen(&v, sizeof v); vc_limit_reads(s.data); may_read(s);
    CellW c = cv.get(i);
    DONE
    vc_havoc(&c, sizeof c, "scratch");
}
VC_HARNESS(vector_set)
{
    VECTOR
    (void)cv;
    CellW c;
    vc_havoc(&c, sizeof c, "cell");
    vc_frame_begin(); vc_frozen(&v, sizeof v); vc_frozen(&c, sizeof c); vc_limit_reads(s.data); may_write(s);
    v.set(i, c);
    DONE
}
VC_HARNESS(vector_queries)
{
    VECTOR
    long calls = 0;
    vc_frame_begin(); vc_frozen(&v, sizeof v); vc_limit_reads(s.data);
    note f = {&calls};
    cv.callback(f);
    bool ok = cv.size() == n && cv.capacity() == cap && !cv.empty();
    DONE
    vc_ensures(ok && calls == 1, "queries");
}
VC_HARNESS(vector_copy)
{
    VECTOR
    vec w(3);
    wslots t;
    { take_wslots taker = {0, &t}; w.callback(taker); }
    vc_frame_begin(); vc_frozen(&v, sizeof v);
    vc_may_write(t.data, vc_bytes_from_alloc(t.data));
    { vec u(cv); vc_ensures(u.size() == n, "copied"); }
    w = cv;
    DONE
}
// growing one vector leaves another one alone
VC_HARNESS(vector_grow)
{
    VECTOR
    vec w(3);
    CellW c;
    vc_havoc(&c, sizeof c, "cell");
    std::size_t m = vc_in("m", 0, 100);
    vc_requires(n < 80);
    (void)cv;
    vc_frame_begin(); vc_frozen(&w, sizeof w); vc_frozen(&c, sizeof c);
    vc_may_write(s.data, vc_bytes_from_alloc(s.data));
    v.push_back(c);
    v.resize(m);
    v.clear();
    DONE
}
// ---- fixed size arrays (automatic objects: the whole object is shared)
static const std::size_t CAP = 13;
typedef soa_array<CellA, CAP> arr;
#define ARRAY \
    std::size_t n = vc_in("size", 1, CAP), i = vc_in("i", 0, n - 1); \
    arr a(n); \
    vc_havoc(a.data(), arr::BYTE_SIZE, "contents"); \
    const arr& ca = a; \
    slots s; \
    { soa_accessor<CellA, CAP, 1, 1, 0> acc = a[int(i)]; take_here(acc, s); }
template<typename ACC>
static inline void take_here(ACC& acc, slots& s)
{
#define M(N, MEMBER, SIZE) s.at[N] = (const char*)&acc.MEMBER;
    FOR_EACH_SLOT(M)
#undef M
}
VC_HARNESS(array_get)
{
    ARRAY
    CellA c;
    vc_frame_begin(); vc_frozen(&a, sizeof a);
    const_soa_accessor<CellA, CAP, 1, 1, 0> x = ca[int(i)];
    x >> c;
    std::size_t sum = ca.size() + ca.byte_size() + ca.capacity() + ca.at(i).index();
    DONE
    vc_ensures(sum == n + n * AGG_A + CAP + i, "queries");
    vc_havoc(&c, sizeof c, "scratch");
}
VC_HARNESS(array_set)
{
    ARRAY
    (void)ca;
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    vc_frame_begin(); vc_frozen(&a, sizeof a); vc_frozen(&c, sizeof c); may_write(s, 1);
    a[int(i)] = c;
    DONE
}
VC_HARNESS(array_save)
{
    ARRAY
    char *out = vc_buffer(n * AGG_A, "out");
    vc_frame_begin(); vc_frozen(&a, sizeof a); vc_may_write(out, (n - i) * AGG_A);
    ca.at(i).save(out, n - i);
    DONE
}
VC_HARNESS(array_copy)
{
    ARRAY
    arr other(2);
    soa_array<CellA, CAP + 7> wide(3);
    vc_frame_begin(); vc_frozen(&a, sizeof a);
    arr b(ca);
    soa_array<CellA, CAP + 7> w(ca);
    soa_array<CellA, CAP + 7> w2(a);
    other = ca;
    wide = a;
    DONE
    vc_ensures(b.size() == n && w.size() == n && w2.size() == n && other.size() == n && wide.size() == n, "copied");
}
VC_HARNESS(array_change)
{
    ARRAY
    (void)ca;
    arr b(std::size_t(3));
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    vc_frame_begin(); vc_frozen(&a, sizeof a); vc_frozen(&c, sizeof c);
    b << c;
    b.push_back(c);
    b.pop_back();
    b.load(a[int(i)], n - i > 5 ? 5 : n - i);
    b.clear();
    DONE
}
// ---- accessors: cells reached through neighbour access
VC_HARNESS(accessor_update)
{
    typedef soa_accessor<CellA, 8, 4, 2, 0> acc;
    char *data = vc_buffer(8 * 4 * 2 * AGG_A, "storage");
    long i = vc_ins("i", 16, 40);
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    acc src(data, i), dst(data, i);
    slots s, t;
    take_here(src, s);
    { acc n(data, i + 1); take_here(n, t); }
    vc_frame_begin(); vc_frozen(&c, sizeof c); may_write(t, 1);
    dst[coord<1, 0, 0>()] << c;
    dst[coord<1, 0, 0>()].b() = src[coord<-1, 1, 0>()].b();
    DONE
}

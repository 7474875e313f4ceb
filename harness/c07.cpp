// Accessor navigation. The specification is the address formula: element k of
// a member with offset OFF and size S of the cell at index i is stored at
//   data + slots * (OFF + k * S) + i * S
#include "cells.hpp"
#include "tracked.hpp"
using namespace LibFlatArray;

#if VC_LARGE == 1
static const long DX = 70000, DY = 70000, DZ = 300, SLOTS = DX * DY * DZ;
#elif VC_LARGE == 2
static const long DX = 300, DY = 5000000000, DZ = 6, SLOTS = DX * DY * DZ;
#elif VC_LARGE == 3
static const long DX = 300, DY = 6, DZ = 5000000000, SLOTS = DX * DY * DZ;
#else
static const long DX = 8, DY = 4, DZ = 6, SLOTS = DX * DY * DZ;
#endif
static const std::size_t AGG = AGG_A;
// accessor expressions: M(expression, offset, size)
#ifndef VC_WIDE
#define FOR_EACH_ACC(M) \
    M(a(), 0, 8) M(b(), 8, 4) M(template c<0>(), 12, 4) M(template c<1>(), 16, 4) M(template c<2>(), 20, 4) M(d(), 24, 1) \
    M(c()[0], 12, 4) M(c()[1], 16, 4) M(c()[2], 20, 4)
#else
#define FOR_EACH_ACC(M) \
    M(template s<0>(), 0, 2) M(template s<1>(), 2, 2) M(template s<4>(), 8, 2) M(s()[0], 0, 2) M(s()[3], 6, 2) M(s()[4], 8, 2) \
    M(template u<0>(), 10, 1) M(u()[0], 10, 1) M(l(), 11, 8) M(template p<0>(), 19, 8) M(template p<1>(), 27, 8) M(p()[0], 19, 8) M(p()[1], 27, 8) \
    M(template w<0>(), 35, 4) M(template w<1>(), 39, 4) M(template w<8>(), 67, 4) M(template w<16>(), 99, 4) M(w()[0], 35, 4) M(w()[15], 95, 4) M(w()[16], 99, 4) \
    M(e(), 103, 2) M(template t<0>(), 105, 8) M(template t<1>(), 113, 8) M(t()[0], 105, 8) M(t()[1], 113, 8)
#endif
typedef soa_accessor<CellA, DX, DY, DZ, 0> acc;
typedef const_soa_accessor<CellA, DX, DY, DZ, 0> cacc;
typedef soa_accessor_light<CellA, DX, DY, DZ, 0> lacc;
typedef const_soa_accessor_light<CellA, DX, DY, DZ, 0> clacc;

// accessor a addresses the cell at index i
template<typename ACC>
static inline void ensure_at(ACC& a, const char *data, long i)
{
#define M(EXPR, OFFSET, SIZE) vc_ensures(vc_offset(&a.EXPR, data) == SLOTS * OFFSET + i * SIZE, "address of " #EXPR);
    FOR_EACH_ACC(M)
#undef M
}
static inline char *storage()
{
    return vc_buffer(AGG * SLOTS, "data");
}
// a cell far enough from the border for all neighbours used below
static inline long inner_index()
{
    long x = vc_in("x", 2, DX - 3), y = vc_in("y", 1, DY - 2), z = vc_in("z", 2, DZ - 3);
    return x + y * DX + z * DX * DY;
}
template<typename ACC>
static inline void navigate(ACC& a, const char *data, long i)
{
    ensure_at(a, data, i);
    { auto n = a[coord<0, 0, 0>()]; ensure_at(n, data, i); }
    { auto n = a[coord<1, 0, 0>()]; ensure_at(n, data, i + 1); }
    { auto n = a[coord<-1, 0, 0>()]; ensure_at(n, data, i - 1); }
    { auto n = a[coord<0, 1, 0>()]; ensure_at(n, data, i + DX); }
    { auto n = a[coord<0, -1, 0>()]; ensure_at(n, data, i - DX); }
    { auto n = a[coord<0, 0, 1>()]; ensure_at(n, data, i + DX * DY); }
    { auto n = a[coord<0, 0, -1>()]; ensure_at(n, data, i - DX * DY); }
    { auto n = a[coord<2, -1, 1>()]; ensure_at(n, data, i + 2 - DX + DX * DY); }
    { auto n = a[coord<-2, 1, -2>()]; ensure_at(n, data, i - 2 + DX - 2 * DX * DY); }
    // relative to a neighbour
    { auto n = a[coord<1, 1, -1>()]; auto m = n[coord<-2, -1, 2>()]; ensure_at(m, data, i - 1 + DX * DY); }
    { auto n = a[coord<0, 0, 2>()]; auto m = n[coord<1, 0, -2>()]; auto o = m[coord<0, 1, 0>()]; ensure_at(o, data, i + 1 + DX); }
}
VC_HARNESS(nav_accessor) { char *d = storage(); long i = inner_index(); acc a(d, i); navigate(a, d, i); vc_cover("end"); }
VC_HARNESS(nav_const_accessor) { char *d = storage(); long i = inner_index(); cacc a(d, i); navigate(a, d, i); vc_cover("end"); }
VC_HARNESS(nav_light) { char *d = storage(); long i = inner_index(); lacc a(d, i); navigate(a, d, i); vc_cover("end"); }
VC_HARNESS(nav_const_light) { char *d = storage(); long i = inner_index(); clacc a(d, i); navigate(a, d, i); vc_cover("end"); }

// movement; s steps of ++, an arbitrary jump, an index assignment
template<typename ACC>
static inline void moves(ACC& a, const char *data, long i)
{
    vc_ensures(a.index() == i && a.data() == data, "index and data of a new accessor");
    long s = vc_in("steps", 0, SLOTS - 1), j = vc_in("target", 0, SLOTS - 1), k = vc_in("assigned", 0, SLOTS - 1);
    vc_requires(i + s < SLOTS);
    for (long n = 0; n < s; ++n) ++a;
    vc_ensures(a.index() == i + s, "index after repeated ++");
    ensure_at(a, data, i + s);
    a += j - (i + s);
    vc_ensures(a.index() == j, "index after +=");
    ensure_at(a, data, j);
    a.index() = k;
    const ACC& ca = a;
    vc_ensures(ca.index() == k && ca.data() == data, "index after assignment");
    ensure_at(a, data, k);
}
#define ANY_INDEX long i = vc_in("i", 0, SLOTS - 1)
VC_HARNESS(move_accessor) { char *d = storage(); ANY_INDEX; acc a(d, i); moves(a, d, i); vc_cover("end"); }
VC_HARNESS(move_const_accessor) { char *d = storage(); ANY_INDEX; cacc a(d, i); moves(a, d, i); vc_cover("end"); }
VC_HARNESS(move_light) { char *d = storage(); ANY_INDEX; long idx = i; lacc a(d, idx); moves(a, d, i); vc_ensures(idx == a.index(), "light accessors share the index"); vc_cover("end"); }
VC_HARNESS(move_const_light) { char *d = storage(); ANY_INDEX; long idx = i; clacc a(d, idx); moves(a, d, i); vc_ensures(idx == a.index(), "light accessors share the index"); vc_cover("end"); }

// a light accessor obtained from an accessor follows its index
VC_HARNESS(light_follows)
{
    char *d = storage();
    long i = inner_index(), j = vc_in("j", 0, 40);
    acc a(d, i);
    auto n = a[coord<1, 1, 0>()];
    auto m = n[coord<1, -1, 1>()];
    vc_requires(i + j + 2 + DX * DY < SLOTS && i + j + 1 + DX < SLOTS);
    a += j;
    ensure_at(n, d, i + j + 1 + DX);
    ensure_at(m, d, i + j + 2 + DX * DY);
    vc_ensures(n.index() == i + j && n.data() == d, "index and data of a derived accessor");
    ++n;
    vc_ensures(a.index() == i + j + 1, "advancing a light accessor advances its base");
    vc_cover("end");
}
VC_HARNESS(gen_index_all)
{
    long x = vc_in("x", 0, DX - 1), y = vc_in("y", 0, DY - 1), z = vc_in("z", 0, DZ - 1);
    long i = x + y * DX + z * DX * DY;
    std::size_t ux = x, uy = y, uz = z;
    vc_ensures(acc::gen_index(x, y, z) == i && acc::gen_index(ux, uy, uz) == i, "index of a coordinate");
    vc_ensures(cacc::gen_index(x, y, z) == i && cacc::gen_index(ux, uy, uz) == i, "index of a coordinate");
    vc_ensures(lacc::gen_index(x, y, z) == i && lacc::gen_index(ux, uy, uz) == i, "index of a coordinate");
    vc_ensures(clacc::gen_index(x, y, z) == i && clacc::gen_index(ux, uy, uz) == i, "index of a coordinate");
    vc_ensures(acc::DIM_PROD == SLOTS && cacc::DIM_PROD == SLOTS && lacc::DIM_PROD == SLOTS && clacc::DIM_PROD == SLOTS, "slots");
    vc_ensures(acc::DIM_X == DX && acc::DIM_Y == DY && acc::DIM_Z == DZ && lacc::DIM_X == DX && lacc::DIM_Y == DY && lacc::DIM_Z == DZ, "extents");
    vc_ensures(cacc::DIM_X == DX && cacc::DIM_Y == DY && cacc::DIM_Z == DZ && clacc::DIM_X == DX && clacc::DIM_Y == DY && clacc::DIM_Z == DZ, "extents");
    vc_cover("end");
}
VC_HARNESS(equality)
{
    char *d = storage(), *e = vc_buffer(AGG * SLOTS, "other");
    long i = vc_in("i", 0, SLOTS - 1), j = vc_in("j", 0, SLOTS - 1);
    acc a(d, i), b(d, j), c(e, i);
    vc_ensures((a == b) == (i == j) && (a != b) == (i != j), "accessors are equal iff they address the same cell");
    vc_ensures(!(a == c) && a != c, "accessors of different storage differ");
    cacc k(d, i), l(d, j), m(e, i);
    vc_ensures((k == l) == (i == j) && (k != l) == (i != j), "const accessors are equal iff they address the same cell");
    vc_ensures(!(k == m) && k != m, "const accessors of different storage differ");
    vc_cover("end");
}
// ---- whole cells
static inline void ensure_stored(const char *d, long i, const CellA& e)
{
#define M(MEMBER, OFFSET, SIZE) vc_ensures(vc_same(d + SLOTS * OFFSET + i * SIZE, &e.MEMBER, SIZE), "member " #MEMBER " is stored");
    FOR_EACH_A(M)
#undef M
}
// byte k belongs to a member of cell i
static inline bool byte_of(std::size_t k, std::size_t lo, std::size_t n)
{
#define M(MEMBER, OFFSET, SIZE) if (k < SLOTS * (OFFSET + SIZE)) return k - SLOTS * OFFSET >= lo * SIZE && k - SLOTS * OFFSET < (lo + n) * SIZE;
    FOR_EACH_A(M)
#undef M
    return false;
}
template<int KIND, typename ACC>
static inline void write_cell(ACC a, char *d, long i)
{
    CellA c;
    vc_havoc(&c, sizeof c, "cell");
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    if (KIND == 0) a << c;
    else a = c;
    ensure_stored(d, i, c);
    if (!byte_of(k, i, 1)) vc_ensures(vc_value(d + k, 1) == before, "other cells are unchanged");
    vc_cover("end");
}
#define NBR auto n = a[coord<1, -1, 2>()]; long j = i + 1 - DX + 2 * DX * DY
VC_HARNESS(write_shift) { char *d = storage(); ANY_INDEX; write_cell<0>(acc(d, i), d, i); vc_cover("end"); }
VC_HARNESS(write_assign) { char *d = storage(); ANY_INDEX; write_cell<1>(acc(d, i), d, i); vc_cover("end"); }
VC_HARNESS(write_light_shift) { char *d = storage(); long i = inner_index(); acc a(d, i); NBR; write_cell<0>(n, d, j); vc_cover("end"); }
VC_HARNESS(write_light_assign) { char *d = storage(); long i = inner_index(); acc a(d, i); NBR; write_cell<1>(n, d, j); vc_cover("end"); }

template<typename ACC>
static inline void read_cell(const ACC& a, char *d, long i)
{
    CellA c, e;
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    a >> c;
    ensure_stored(d, i, c);
    e = a;
    ensure_stored(d, i, e);
    vc_ensures(vc_value(d + k, 1) == before, "reading changes nothing");
}
VC_HARNESS(read_accessor) { char *d = storage(); ANY_INDEX; acc a(d, i); read_cell(a, d, i); CellA c; c << a; ensure_stored(d, i, c); vc_cover("end"); }
VC_HARNESS(read_const_accessor) { char *d = storage(); ANY_INDEX; cacc a(d, i); read_cell(a, d, i); vc_cover("end"); }
VC_HARNESS(read_light) { char *d = storage(); long i = inner_index(); acc a(d, i); NBR; read_cell(n, d, j); vc_cover("end"); }
VC_HARNESS(read_const_light) { char *d = storage(); long i = inner_index(); clacc a(d, i); NBR; read_cell(n, d, j); vc_cover("end"); }
VC_HARNESS(read_const_neighbour) { char *d = storage(); long i = inner_index(); cacc a(d, i); NBR; read_cell(n, d, j); vc_cover("end"); }

// ---- runs of cells: packed load and save with offset and stride
static inline void ensure_transfer(const char *d, long i, const char *buf, std::size_t o, std::size_t stride)
{
#define M(MEMBER, OFFSET, SIZE) vc_ensures(vc_same(d + SLOTS * OFFSET + i * SIZE, buf + stride * OFFSET + o * SIZE, SIZE), "packed " #MEMBER);
    FOR_EACH_A(M)
#undef M
}
struct run { long i; std::size_t n, o, stride, k; };
static inline run any_run(bool packed)
{
    run r;
    r.i = vc_in("i", 0, SLOTS - 1);
    r.n = vc_in("n", 0, SLOTS - 1);
    vc_requires(r.i + r.n <= SLOTS);
    r.o = packed ? 0 : vc_in("offset", 0, 50);
    r.stride = packed ? r.n : vc_in("stride", 1, 300);
    vc_requires(r.o + r.n <= r.stride);
    return r;
}
template<typename ACC>
static inline void load_run(ACC& a, char *d, const run& r, bool packed)
{
    char *buf = vc_buffer(AGG * r.stride, "source");
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    if (packed) a.load(buf, r.n);
    else a.load(buf, r.n, r.o, r.stride);
    if (r.n > 0) {
        std::size_t p = vc_in("p", 0, r.n - 1);
        ensure_transfer(d, r.i + p, buf, r.o + p, r.stride);
        vc_cover("some");
    }
    if (!byte_of(k, r.i, r.n)) { vc_ensures(vc_value(d + k, 1) == before, "other cells are unchanged"); vc_cover("frame"); }
}
template<typename ACC>
static inline void save_run(const ACC& a, char *d, const run& r, bool packed)
{
    char *buf = vc_buffer(AGG * r.stride, "target");
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    if (packed) a.save(buf, r.n);
    else a.save(buf, r.n, r.o, r.stride);
    if (r.n > 0) {
        std::size_t p = vc_in("p", 0, r.n - 1);
        ensure_transfer(d, r.i + p, buf, r.o + p, r.stride);
        vc_cover("some");
    }
    vc_ensures(vc_value(d + k, 1) == before, "saving changes nothing");
}
VC_HARNESS(load_accessor) { char *d = storage(); run r = any_run(false); acc a(d, r.i); load_run(a, d, r, false); }
VC_HARNESS(load_light) { char *d = storage(); run r = any_run(false); lacc a(d, r.i); load_run(a, d, r, false); }
VC_HARNESS(load_packed) { char *d = storage(); run r = any_run(true); acc a(d, r.i); load_run(a, d, r, true); }
VC_HARNESS(load_light_packed) { char *d = storage(); run r = any_run(true); lacc a(d, r.i); load_run(a, d, r, true); }
VC_HARNESS(save_accessor) { char *d = storage(); run r = any_run(false); acc a(d, r.i); save_run(a, d, r, false); }
VC_HARNESS(save_const_accessor) { char *d = storage(); run r = any_run(false); cacc a(d, r.i); save_run(a, d, r, false); }
VC_HARNESS(save_light) { char *d = storage(); run r = any_run(false); lacc a(d, r.i); save_run(a, d, r, false); }
VC_HARNESS(save_const_light) { char *d = storage(); run r = any_run(false); clacc a(d, r.i); save_run(a, d, r, false); }
VC_HARNESS(save_packed) { char *d = storage(); run r = any_run(true); acc a(d, r.i); save_run(a, d, r, true); }
VC_HARNESS(save_const_packed) { char *d = storage(); run r = any_run(true); cacc a(d, r.i); save_run(a, d, r, true); }
VC_HARNESS(save_light_packed) { char *d = storage(); run r = any_run(true); lacc a(d, r.i); save_run(a, d, r, true); }
VC_HARNESS(save_const_light_packed) { char *d = storage(); run r = any_run(true); clacc a(d, r.i); save_run(a, d, r, true); }

// copying members between accessors of different extents
typedef soa_accessor<CellA, 5, 4, 3, 0> acc2;
static const long SLOTS2 = 60;
template<typename ACC, typename OTHER>
static inline void copy_run(ACC& a, const OTHER& o, char *d, const char *s, long i, long j)
{
    std::size_t n = vc_in("n", 0, SLOTS2);
    vc_requires(i + n <= SLOTS && j + n <= SLOTS2);
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    a.copy_members(o, n);
    if (n > 0) {
        std::size_t p = vc_in("p", 0, n - 1);
        ensure_transfer(d, i + p, s, j + p, SLOTS2);
        vc_cover("some");
    }
    if (!byte_of(k, i, n)) { vc_ensures(vc_value(d + k, 1) == before, "other cells are unchanged"); vc_cover("frame"); }
}
#define COPY(A, B) char *d = storage(), *s = vc_buffer(AGG * SLOTS2, "other"); ANY_INDEX; long j = vc_in("j", 0, SLOTS2 - 1); A a(d, i); B o(s, j); copy_run(a, o, d, s, i, j)
VC_HARNESS(copy_accessor) { typedef acc2 B; COPY(acc, B); }
VC_HARNESS(copy_from_const) { typedef const_soa_accessor<CellA, 5, 4, 3, 0> B; COPY(acc, B); }
VC_HARNESS(copy_light) { typedef acc2 B; COPY(lacc, B); }

// construction of the members of one cell
template<typename ACC>
static inline void construct_cell(ACC& a, char *d, long i)
{
    std::size_t k = vc_in("byte", 0, AGG * SLOTS - 1);
    unsigned long before = vc_value(d + k, 1);
    a.construct_members();
    CellA c;
    a >> c;
    ensure_zero(c);
    if (!byte_of(k, i, 1)) { vc_ensures(vc_value(d + k, 1) == before, "other cells are unchanged"); vc_cover("frame"); }
}
VC_HARNESS(construct_accessor) { char *d = storage(); ANY_INDEX; acc a(d, i); construct_cell(a, d, i); }
VC_HARNESS(construct_light) { char *d = storage(); long i = inner_index(); acc a(d, i); NBR; construct_cell(n, d, j); }


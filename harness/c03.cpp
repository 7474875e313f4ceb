#include "cells.hpp"
typedef LibFlatArray::soa_grid<CellA> grid;
static const std::size_t AGG = AGG_A;

// cell i of a packed buffer of n cells, as the format defines it
static inline void ensure_packed(const char *buf, std::size_t n, std::size_t i, const CellA& e)
{
#define M(MEMBER, OFFSET, SIZE) vc_ensures(vc_same(buf + OFFSET * n + SIZE * i, &e.MEMBER, SIZE), "packed " #MEMBER);
    FOR_EACH_A(M)
#undef M
}

VC_HARNESS(save)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    std::size_t n = vc_in("n", 1, d.x - p.x);
    char *buf = vc_buffer(n * AGG, "target");
    std::size_t i = vc_in("i", 0, n - 1);
    g.save(p.x, p.y, p.z, buf, n);
    CellA e = g.get(p.x + i, p.y, p.z);
    ensure_packed(buf, n, i, e);
    vc_cover("end");
}

// save touches exactly n*AGG target bytes and not the grid
VC_HARNESS(save_frame)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    char *buf = vc_buffer(n * AGG + 16, "target");
    std::size_t o = vc_in("o", 0, 15), i = vc_in("byte", 0, g.byte_size() - 1);
    std::size_t at = o < 8 ? o : n * AGG + o;
    unsigned long before = vc_value(buf + at, 1), gb = vc_value(g.data() + i, 1);
    const grid& cg = g;
    cg.save(p.x, p.y, p.z, buf + 8, n);
    vc_ensures(vc_value(buf + at, 1) == before, "bytes outside the packed block are unchanged");
    vc_ensures(vc_value(g.data() + i, 1) == gb, "saving does not change the grid");
    vc_cover("end");
}

VC_HARNESS(load)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    dims q = coord_in(d, "x2", "y2", "z2");
    std::size_t n = vc_in("n", 0, d.x - p.x);
    char *buf = vc_buffer(n * AGG, "source");
    CellA old = g.get(q.x, q.y, q.z);
    g.load(p.x, p.y, p.z, buf, n);
    CellA now = g.get(q.x, q.y, q.z);
    if (q.y == p.y && q.z == p.z && q.x >= p.x && q.x < p.x + n) {
        ensure_packed(buf, n, q.x - p.x, now);
        vc_cover("inside");
    } else {
        ensure_same(now, old, "load");
        vc_cover("outside");
    }
}

// load(save(x)) restores the cells, whatever happened in between
VC_HARNESS(roundtrip)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    dims p = coord_in(d, "x", "y", "z");
    std::size_t n = vc_in("n", 1, d.x - p.x);
    std::size_t i = vc_in("i", 0, n - 1);
    char *buf = vc_buffer(n * AGG, "buf");
    CellA e = g.get(p.x + i, p.y, p.z);
    g.save(p.x, p.y, p.z, buf, n);
    vc_havoc(g.data(), g.byte_size(), "data2");
    g.load(p.x, p.y, p.z, buf, n);
    CellA now = g.get(p.x + i, p.y, p.z);
    ensure_same(now, e, "roundtrip");
    vc_cover("end");
}

// three streaks
struct streak
{
    std::size_t origin[3]; std::size_t len;
    std::size_t length() const { return len; }
};
static inline streak some_streak(const dims& d, const char *x, const char *y, const char *z, const char *n)
{
    streak s;
    dims p = coord_in(d, x, y, z);
    s.origin[0] = p.x; s.origin[1] = p.y; s.origin[2] = p.z;
    s.len = vc_in(n, 0, d.x - p.x);
    return s;
}
static inline bool in_streak(const streak& s, const dims& q)
{
    return q.y == s.origin[1] && q.z == s.origin[2] && q.x >= s.origin[0] && q.x < s.origin[0] + s.len;
}

VC_HARNESS(save_streaks)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    streak s[3] = { some_streak(d, "ax", "ay", "az", "an"), some_streak(d, "bx", "by", "bz", "bn"), some_streak(d, "cx", "cy", "cz", "cn") };
    std::size_t n = s[0].len + s[1].len + s[2].len;
    char *buf = vc_buffer(n * AGG, "target");
    const streak *b = s, *e = s + 3;
    g.save(b, e, buf, n);
    std::size_t k = vc_in("k", 0, 2);
    vc_requires(s[k].len > 0);
    std::size_t i = vc_in("i", 0, s[k].len - 1);
    CellA c = g.get(s[k].origin[0] + i, s[k].origin[1], s[k].origin[2]);
    std::size_t off = (k > 0 ? s[0].len : 0) + (k > 1 ? s[1].len : 0);
    ensure_packed(buf, n, off + i, c);
    vc_cover("end");
}

VC_HARNESS(load_streaks)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    streak s[2] = { some_streak(d, "ax", "ay", "az", "an"), some_streak(d, "bx", "by", "bz", "bn") };
    std::size_t n = s[0].len + s[1].len;
    char *buf = vc_buffer(n * AGG, "source");
    const streak *b = s, *e = s + 2;
    dims q = coord_in(d, "x2", "y2", "z2");
    CellA old = g.get(q.x, q.y, q.z);
    g.load(b, e, buf, n);
    CellA now = g.get(q.x, q.y, q.z);
    if (in_streak(s[1], q)) { ensure_packed(buf, n, s[0].len + (q.x - s[1].origin[0]), now); vc_cover("second"); }
    else if (in_streak(s[0], q)) { ensure_packed(buf, n, q.x - s[0].origin[0], now); vc_cover("first"); }
    else { ensure_same(now, old, "load streaks"); vc_cover("outside"); }
}

// any number of streaks: an iterator which yields the same columns of row after row
struct columns
{
    std::size_t k, x, z, len;
    streak cur;
    columns(std::size_t k, std::size_t x, std::size_t z, std::size_t len) : k(k), x(x), z(z), len(len) { set(); }
    void set() { cur.origin[0] = x; cur.origin[1] = k; cur.origin[2] = z; cur.len = len; }
    const streak *operator->() const { return &cur; }
    columns& operator++() { ++k; set(); return *this; }
    bool operator!=(const columns& o) const { return k != o.k; }
};
VC_HARNESS(save_many_streaks)
{
    dims d = dims_a("dx", "dy", "dz");
    vc_requires(d.x > 1);
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    std::size_t x = vc_in("x", 0, d.x - 2), z = vc_in("z", 0, d.z - 1), n = vc_in("n", 1, d.y);
    char *buf = vc_buffer(2 * n * AGG, "target");
    g.save(columns(0, x, z, 2), columns(n, x, z, 2), buf, 2 * n);
    std::size_t k = vc_in("k", 0, n - 1), i = vc_in("i", 0, 1);
    CellA c = g.get(x + i, k, z);
    ensure_packed(buf, 2 * n, 2 * k + i, c);
    vc_cover("end");
}
VC_HARNESS(load_many_streaks)
{
    dims d = dims_a("dx", "dy", "dz");
    grid g(d.x, d.y, d.z);
    vc_havoc(g.data(), g.byte_size(), "data");
    std::size_t x = vc_in("x", 0, d.x - 1), z = vc_in("z", 0, d.z - 1), n = vc_in("n", 0, d.y);
#ifdef VC_LARGE
    std::size_t m = 2;
    vc_requires(x + m <= d.x);
#else
    std::size_t m = vc_in("m", 1, d.x - x);
#endif
    char *buf = vc_buffer(m * n * AGG, "source");
    dims q = coord_in(d, "x2", "y2", "z2");
    CellA old = g.get(q.x, q.y, q.z);
    g.load(columns(0, x, z, m), columns(n, x, z, m), buf, m * n);
    CellA now = g.get(q.x, q.y, q.z);
    if (q.z == z && q.y < n && q.x >= x && q.x < x + m) { ensure_packed(buf, m * n, m * q.y + (q.x - x), now); vc_cover("loaded"); }
    else { ensure_same(now, old, "load"); vc_cover("kept"); }
}

// Cell types used by the contract harnesses. They cover scalar members of
// different sizes, array members, private members and non-trivial members.
#ifndef CELLS_HPP
#define CELLS_HPP
#include <libflatarray/flat_array.hpp>
#include "vc.hpp"

#define VC_HARNESS(NAME) extern "C" void NAME()

// VC_LARGE: the same cell type with extents beyond 8, 16 and 32 bit ranges (1: x, 2: y, 3: z)
#if VC_LARGE == 1
#define CELLA_SIZES LIBFLATARRAY_CUSTOM_SIZES((70000)(5000000000), (4)(70000), (2)(300))
static const std::size_t AX = 5000000000ul, AY = 70000, AZ = 300;
#elif VC_LARGE == 2
#define CELLA_SIZES LIBFLATARRAY_CUSTOM_SIZES((4)(300), (70000)(5000000000), (2)(70000))
static const std::size_t AX = 300, AY = 5000000000ul, AZ = 70000;
#elif VC_LARGE == 3
#define CELLA_SIZES LIBFLATARRAY_CUSTOM_SIZES((4)(70000), (2)(300), (70000)(5000000000))
static const std::size_t AX = 70000, AY = 300, AZ = 5000000000ul;
#else
#define CELLA_SIZES LIBFLATARRAY_CUSTOM_SIZES((8)(16), (4)(12), (2)(6))
static const std::size_t AX = 16, AY = 12, AZ = 6;
#endif

// mixed member sizes, array member in the middle, custom 3D sizes
// FOR_EACH_A(M): M(member element, offset, size), in storage order
#ifndef VC_WIDE
struct CellA
{
    class API : public LibFlatArray::api_traits::has_custom_sizes
    {
    public:
        CELLA_SIZES
    };
    double a;
    int b;
    float c[3];
    char d;
};
LIBFLATARRAY_REGISTER_SOA(CellA, ((double)(a))((int)(b))((float)(c)(3))((char)(d)))
static const std::size_t AGG_A = 25;
#define FOR_EACH_A(M) M(a, 0, 8) M(b, 8, 4) M(c[0], 12, 4) M(c[1], 16, 4) M(c[2], 20, 4) M(d, 24, 1)
#else
// VC_WIDE: arrays first and last, a long array, an array of one, a class type member, other integer types, private members
struct PodA { float x; unsigned short y; };
enum EnumA : short { ENUM_A0, ENUM_A1 };
class CellA
{
public:
    LIBFLATARRAY_ACCESS
    class API : public LibFlatArray::api_traits::has_custom_sizes
    {
    public:
        CELLA_SIZES
    };
    short s[5];
    unsigned char u[1];
    long l;
    PodA p[2];
    unsigned int w[17];
    EnumA e;
    double t[2];
};
LIBFLATARRAY_REGISTER_SOA(CellA, ((short)(s)(5))((unsigned char)(u)(1))((long)(l))((PodA)(p)(2))((unsigned int)(w)(17))((EnumA)(e))((double)(t)(2)))
static const std::size_t AGG_A = 121;
#define FOR_EACH_A(M) \
    M(s[0], 0, 2) M(s[1], 2, 2) M(s[2], 4, 2) M(s[3], 6, 2) M(s[4], 8, 2) M(u[0], 10, 1) M(l, 11, 8) \
    M(p[0], 19, 8) M(p[1], 27, 8) \
    M(w[0], 35, 4) M(w[1], 39, 4) M(w[2], 43, 4) M(w[3], 47, 4) M(w[4], 51, 4) M(w[5], 55, 4) M(w[6], 59, 4) M(w[7], 63, 4) M(w[8], 67, 4) \
    M(w[9], 71, 4) M(w[10], 75, 4) M(w[11], 79, 4) M(w[12], 83, 4) M(w[13], 87, 4) M(w[14], 91, 4) M(w[15], 95, 4) M(w[16], 99, 4) \
    M(e, 103, 2) M(t[0], 105, 8) M(t[1], 113, 8)
#endif

// default sizes, small char member first, array of doubles last
struct CellU
{
    char k;
    float f;
    double m[2];
};
LIBFLATARRAY_REGISTER_SOA(CellU, ((char)(k))((float)(f))((double)(m)(2)))

static inline void ensure_same(const CellA& n, const CellA& e, const char *)
{
#define M(MEMBER, OFFSET, SIZE) vc_ensures(vc_same(&n.MEMBER, &e.MEMBER, SIZE), "member " #MEMBER " has the expected value");
    FOR_EACH_A(M)
#undef M
}
static inline void ensure_same(const CellU& n, const CellU& e, const char *)
{
    vc_ensures(vc_same(&n.k, &e.k, sizeof(char)), "member k has the expected value");
    vc_ensures(vc_same(&n.f, &e.f, sizeof(float)), "member f has the expected value");
    vc_ensures(vc_same(&n.m[0], &e.m[0], sizeof(double)), "member m[0] has the expected value");
    vc_ensures(vc_same(&n.m[1], &e.m[1], sizeof(double)), "member m[1] has the expected value");
}
static inline void ensure_zero(const CellA& n)
{
#define M(MEMBER, OFFSET, SIZE) vc_ensures(vc_value(&n.MEMBER, SIZE) == 0, "member " #MEMBER " is value-initialised");
    FOR_EACH_A(M)
#undef M
}

struct dims { std::size_t x, y, z; };
// dimensions a CellA grid supports (at least one cell)
static inline dims dims_a(const char *lx, const char *ly, const char *lz)
{
    dims d;
    d.x = vc_in(lx, 1, AX);
    d.y = vc_in(ly, 1, AY);
    d.z = vc_in(lz, 1, AZ);
    return d;
}
static inline dims coord_in(const dims& d, const char *lx, const char *ly, const char *lz)
{
    dims c;
    c.x = vc_in(lx, 0, d.x - 1);
    c.y = vc_in(ly, 0, d.y - 1);
    c.z = vc_in(lz, 0, d.z - 1);
    return c;
}
#endif
